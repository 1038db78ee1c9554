//! Input selection and change balancing against exact sums.
use common::*;
use dcspark_core::tx::*;
use dcspark_core::*;
use deps::bigdecimal::BigDecimal;
use deps::serde_json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use utxo_selection::algorithms::*;
use utxo_selection::*;

type V = Value<Regulated>;
/// signed hundredths
type N = i128;

fn v(n: N) -> V {
    Value::new(BigDecimal::new(n.into(), 2))
}
fn n(x: &V) -> Result<N, String> {
    let (d, s) = (x.raw() * BigDecimal::from(100)).with_scale(0).as_bigint_and_exponent();
    assert_eq!(s, 0);
    let k: N = d.to_string().parse().map_err(|_| format!("amount {x} out of range"))?;
    check_eq!(x, &v(k), "harness: amount with more than two decimals");
    Ok(k)
}
fn ns(x: &V) -> Result<N, String> { n(x) }
fn tok(i: u64) -> TokenId { TokenId::new(format!("fingerprint{i}")) }
fn asset(i: u64, q: N) -> TransactionAsset { TransactionAsset { policy_id: PolicyId::new(format!("p{}", i % 2)), asset_name: AssetName::new(format!("n{}", i / 2)), fingerprint: tok(i), quantity: v(q) } }

#[derive(Clone)]
struct Fees {
    base: N,
    input: N,
    output: N,
    per_asset: N,
    min_value: N,
    added: N,
    size: usize,
    max: usize,
    refuse_at: usize,
}
impl Fees {
    fn of_input(&self, u: &UTxODetails) -> N { self.input + self.per_asset * u.assets.len() as N }
    fn of_output(&self, u: &UTxOBuilder) -> N { self.output + self.per_asset * u.assets.len() as N }
    fn random(c: &mut Case) -> Fees {
        let whole = if c.rng.chance(2, 3) { 100 } else { 1 };
        let mut f = |k: u64| if c.rng.chance(1, 4) { 0 } else { c.rng.below(k) as N * whole };
        let (base, input, output, per_asset, min_value) = (f(12), f(6), f(6), f(3), f(15));
        let max = if c.rng.chance(1, 3) { 60 } else { 4000 };
        let refuse_at = if c.rng.chance(1, 10) { c.rng.usize(6) } else { usize::MAX };
        Fees { base, input, output, per_asset, min_value, added: 0, size: 0, max, refuse_at }
    }
}
impl TransactionFeeEstimator for Fees {
    type InputUtxo = UTxODetails;
    type OutputUtxo = UTxOBuilder;
    fn min_required_fee(&self) -> anyhow::Result<V> { Ok(v(self.base + self.added)) }
    fn fee_for_input(&self, i: &UTxODetails) -> anyhow::Result<V> { Ok(v(self.of_input(i))) }
    fn add_input(&mut self, i: UTxODetails) -> anyhow::Result<()> {
        if self.size >= self.refuse_at { anyhow::bail!("full") }
        self.added += self.of_input(&i);
        self.size += 1;
        Ok(())
    }
    fn fee_for_output(&self, o: &UTxOBuilder) -> anyhow::Result<V> { Ok(v(self.of_output(o))) }
    fn add_output(&mut self, o: UTxOBuilder) -> anyhow::Result<()> {
        if self.size >= self.refuse_at { anyhow::bail!("full") }
        self.added += self.of_output(&o);
        self.size += 1;
        Ok(())
    }
    fn min_value_for_output(&mut self, _: UTxOBuilder) -> anyhow::Result<V> { Ok(v(self.min_value)) }
    fn current_size(&self) -> anyhow::Result<usize> { Ok(self.size) }
    fn max_size(&self) -> anyhow::Result<usize> { Ok(self.max) }
}

struct Gen {
    whole: N,
    scale: u64,
    tokens: u64,
}
fn gen(c: &mut Case) -> Gen {
    Gen { whole: if c.rng.chance(3, 4) { 100 } else { 1 }, scale: *c.rng.pick(&[4, 30, 1000, 1 << 40]), tokens: c.rng.below(4) }
}
fn amount(c: &mut Case, g: &Gen) -> N {
    let d = match c.rng.below(6) { 0 => 0, 1 | 2 => 1 + c.rng.below(5), 3 if g.scale > 1000 => c.rng.corner() / 64, _ => c.rng.below(g.scale) };
    d as N * g.whole
}
fn assets(c: &mut Case, g: &Gen, at_most: u64) -> Vec<TransactionAsset> {
    let mut ts: Vec<u64> = (0..g.tokens).collect();
    let mut r = vec![];
    for _ in 0..c.rng.below(at_most + 1) {
        if ts.is_empty() { break; }
        let t = ts.remove(c.rng.usize(ts.len()));
        let q = amount(c, g);
        r.push(asset(t, q));
    }
    r
}
fn utxo(c: &mut Case, g: &Gen, id: u64, at_most: u64) -> UTxODetails {
    let a = assets(c, g, at_most);
    UTxODetails { pointer: UtxoPointer { transaction_id: TransactionId::new(format!("tx{}", id / 3)), output_index: OutputIndex::new(id % 3) }, address: Address::new("in"), value: v(amount(c, g)), assets: a, metadata: Default::default(), extra: None }
}
fn output(c: &mut Case, g: &Gen, at_most: u64) -> UTxOBuilder {
    let a = assets(c, g, at_most);
    UTxOBuilder::new(Address::new(format!("out{}", c.rng.below(2))), v(amount(c, g)), a)
}

/// token -> exact sum; the main token is under the empty text
type Sums = BTreeMap<String, N>;
fn add(s: &mut Sums, value: &V, assets: &[TransactionAsset], sign: N) -> CaseResult {
    *s.entry(String::new()).or_default() += sign * n(value)?;
    for a in assets { *s.entry(a.fingerprint.to_string()).or_default() += sign * n(&a.quantity)?; }
    Ok(())
}
fn sums_in(us: &[UTxODetails]) -> Result<Sums, String> { let mut s = Sums::new(); s.insert(String::new(), 0); for u in us { add(&mut s, &u.value, &u.assets, 1)?; } Ok(s) }
fn sums_out(us: &[UTxOBuilder]) -> Result<Sums, String> { let mut s = Sums::new(); s.insert(String::new(), 0); for u in us { add(&mut s, &u.value, &u.assets, 1)?; } Ok(s) }
fn reported(main: &V, assets: &HashMap<TokenId, TransactionAsset>) -> Result<Sums, String> {
    let mut s = Sums::new();
    s.insert(String::new(), n(main)?);
    for (t, a) in assets {
        check_eq!(t, &a.fingerprint, "an asset is reported under another token");
        s.insert(t.to_string(), n(&a.quantity)?);
    }
    Ok(s)
}
fn same(a: &Sums, b: &Sums, what: &str) -> CaseResult {
    for k in a.keys().chain(b.keys()) {
        check_eq!(a.get(k).copied().unwrap_or(0), b.get(k).copied().unwrap_or(0), "{what}: amount of {} (in hundredths)", if k.is_empty() { "the main token" } else { k });
    }
    Ok(())
}
fn plus(a: &Sums, b: &Sums, sign: N) -> Sums { let mut s = a.clone(); for (k, x) in b { *s.entry(k.clone()).or_default() += sign * x; } s }
fn show(u: &UTxODetails) -> String { format!("{}:{}{}", u.pointer, u.value, u.assets.iter().map(|a| format!("+{}{}", a.quantity, a.fingerprint)).collect::<String>()) }
fn show_out(u: &UTxOBuilder) -> String { format!("{}{}", u.value, u.assets.iter().map(|a| format!("+{}{}", a.quantity, a.fingerprint)).collect::<String>()) }

struct Setting {
    available: Vec<UTxODetails>,
    fixed_in: Vec<UTxODetails>,
    fixed_out: Vec<UTxOBuilder>,
    fees: Fees,
}
impl Setting {
    fn setup(&self, change: bool) -> Result<InputOutputSetup<UTxODetails, UTxOBuilder>, String> {
        let s = InputOutputSetup::from_fixed_inputs_and_outputs(self.fixed_in.clone(), self.fixed_out.clone(), if change { Some(Address::new("change")) } else { None });
        same(&reported(&s.input_balance, &s.input_asset_balance)?, &sums_in(&self.fixed_in)?, "the balance of the fixed inputs")?;
        same(&reported(&s.output_balance, &s.output_asset_balance)?, &sums_out(&self.fixed_out)?, "the balance of the fixed outputs")?;
        Ok(s)
    }
}
fn setting(c: &mut Case, single: bool) -> Setting {
    let g = gen(c);
    let at_most = if single { 1 } else { 3 };
    let count = c.size.min(30) as u64;
    let mut available: Vec<UTxODetails> = (0..count).map(|i| utxo(c, &g, i, at_most)).collect();
    if c.rng.chance(1, 4) { for i in 1..available.len() { if c.rng.chance(1, 3) { let (a, b) = (available[i - 1].value.clone(), available[i - 1].assets.clone()); available[i].value = a; available[i].assets = b; } } }
    let k = c.rng.below(3);
    let fixed_in: Vec<UTxODetails> = (0..k).map(|i| utxo(c, &g, 1000 + i, 3)).collect();
    let m = c.rng.below(4) + if single { 1 } else { 0 };
    let mut fixed_out: Vec<UTxOBuilder> = (0..m).map(|_| output(c, &g, 2)).collect();
    if fixed_out.len() > 1 && c.rng.chance(1, 3) { fixed_out[1] = fixed_out[0].clone(); }
    // often leave enough
    if c.rng.chance(2, 3) {
        let share = (2 + fixed_out.len() as N) * (1 + c.rng.below(3) as N);
        let t = available.iter().chain(&fixed_in).fold(Sums::new(), |mut s, u| { let _ = add(&mut s, &u.value, &u.assets, 1); s });
        for o in fixed_out.iter_mut() {
            let cap = |k: &str| t.get(k).copied().unwrap_or(0) / share / g.whole * g.whole;
            if n(&o.value).unwrap() > cap("") { o.value = v(cap("")); }
            for a in o.assets.iter_mut() { let m = cap(&a.fingerprint.to_string()); if n(&a.quantity).unwrap() > m { a.quantity = v(m); } }
        }
    }
    let fees = Fees::random(c);
    c.log(format!("available [{}]", available.iter().map(show).collect::<Vec<_>>().join(", ")));
    c.log(format!("fixed inputs [{}]", fixed_in.iter().map(show).collect::<Vec<_>>().join(", ")));
    c.log(format!("outputs [{}]", fixed_out.iter().map(show_out).collect::<Vec<_>>().join(", ")));
    c.log(format!("fees in hundredths: base {} input {} output {} per asset {} min value {} max size {} refuse at {}", fees.base, fees.input, fees.output, fees.per_asset, fees.min_value, fees.max, fees.refuse_at));
    Setting { available, fixed_in, fixed_out, fees }
}
/// the chosen are distinct and were available; what remains is the rest
fn chosen(s: &Setting, r: &InputSelectionResult<UTxODetails, UTxOBuilder>, left: &[UTxODetails]) -> CaseResult {
    let avail: BTreeMap<String, &UTxODetails> = s.available.iter().map(|u| (u.pointer.to_string(), u)).collect();
    let mut seen = BTreeSet::new();
    for u in &r.chosen_inputs {
        check!(avail.get(&u.pointer.to_string()) == Some(&u), "the chosen input {} was not available", show(u));
        check!(seen.insert(u.pointer.to_string()), "the input {} is chosen twice", show(u));
    }
    let mut rest = BTreeSet::new();
    for u in left {
        check!(avail.get(&u.pointer.to_string()) == Some(&u), "{} remains but was not available", show(u));
        check!(rest.insert(u.pointer.to_string()), "{} remains twice", show(u));
    }
    for k in avail.keys() { check!(seen.contains(k) != rest.contains(k), "{k} is chosen: {}, remains: {}", seen.contains(k), rest.contains(k)); }
    check!(r.fixed_inputs == s.fixed_in, "the fixed inputs are altered");
    check!(r.fixed_outputs == s.fixed_out, "the fixed outputs are altered");
    Ok(())
}
fn covering(s: &Setting, r: &InputSelectionResult<UTxODetails, UTxOBuilder>, told: &Fees) -> CaseResult {
    let have = plus(&sums_in(&s.fixed_in)?, &sums_in(&r.chosen_inputs)?, 1);
    let out = sums_out(&s.fixed_out)?;
    same(&reported(&r.input_balance, &r.input_asset_balance)?, &have, "the reported input balance")?;
    same(&reported(&r.output_balance, &r.output_asset_balance)?, &out, "the reported output balance")?;
    let fee: N = s.fees.base + r.chosen_inputs.iter().map(|u| s.fees.of_input(u)).sum::<N>();
    check_eq!(n(&r.fee)?, fee, "the reported fee (in hundredths)");
    check_eq!(told.base + told.added, fee, "the fee the estimator requires after the selection (in hundredths)");
    check!(r.changes.is_empty(), "changes are made");
    for (k, x) in &out {
        let need = x + if k.is_empty() { fee } else { 0 };
        check!(have.get(k).copied().unwrap_or(0) >= need, "the inputs hold {} hundredths of {}, needed: {need}", have.get(k).copied().unwrap_or(0), if k.is_empty() { "the main token" } else { k });
    }
    Ok(())
}
fn store(us: &[UTxODetails]) -> UTxOStore { let mut s = UTxOStore::new().thaw(); for u in us { s.insert(u.clone()).unwrap(); } s.freeze() }

/// each input was chosen for a token the ones before it leave short, and nothing left holds more of it
fn greedy(s: &Setting, r: &InputSelectionResult<UTxODetails, UTxOBuilder>, left: &[UTxODetails]) -> CaseResult {
    let held = |u: &UTxODetails, t: &str| -> Result<Option<N>, String> {
        if t.is_empty() { return n(&u.value).map(Some); }
        u.assets.iter().find(|a| a.fingerprint.to_string() == t).map(|a| n(&a.quantity)).transpose()
    };
    let mut have = sums_in(&s.fixed_in)?;
    let mut need = sums_out(&s.fixed_out)?;
    *need.entry(String::new()).or_default() += s.fees.base;
    for u in &r.chosen_inputs {
        let mut why = false;
        for (t, x) in &need {
            if have.get(t).copied().unwrap_or(0) >= *x { continue; }
            let Some(q) = held(u, t)? else { continue };
            let mut most = true;
            for w in left { most &= held(w, t)?.map_or(true, |k| k <= q); }
            why |= most;
        }
        check!(why, "the input {} is chosen, but is a largest one of no token that is short before it (left: [{}])", show(u), left.iter().map(show).collect::<Vec<_>>().join(", "));
        add(&mut have, &u.value, &u.assets, 1)?;
        *need.entry(String::new()).or_default() += s.fees.of_input(u);
    }
    Ok(())
}
fn largest_first(c: &mut Case) -> CaseResult {
    let mut s = setting(c, false);
    let mut a = match c.rng.below(4) {
        0 => LargestFirst::try_from(s.available.clone()).unwrap(),
        1 => LargestFirst::try_from(store(&s.available)).unwrap(),
        2 => { let mut a = LargestFirst::try_from(s.fixed_in.clone()).unwrap(); a.set_available_inputs(s.available.clone()).unwrap(); a }
        _ => { let mut a = LargestFirst::try_from(s.fixed_in.clone()).unwrap(); a.set_available_utxos(store(&s.available)).unwrap(); a }
    };
    for round in 0..2 {
        let mut fees = s.fees.clone();
        match a.select_inputs(&mut fees, s.setup(false)?) {
            Ok(r) => {
                let left = a.available_inputs();
                chosen(&s, &r, &left)?;
                covering(&s, &r, &fees)?;
                greedy(&s, &r, &left)?;
                check_eq!(a.get_available_utxos().unwrap().len(), left.len(), "number of UTxOs in the remaining store");
                if !r.chosen_inputs.is_empty() { c.hit(); }
                // once more with what remains
                s.available = left;
                if round == 0 { c.log("selected, then again"); }
            }
            Err(e) => {
                check_eq!(a.available_inputs().len(), s.available.len(), "available inputs after a failure");
                if s.fees.refuse_at == usize::MAX {
                    let all = plus(&sums_in(&s.available)?, &sums_in(&s.fixed_in)?, 1);
                    let fee: N = s.fees.base + s.available.iter().map(|u| s.fees.of_input(u)).sum::<N>();
                    let short = sums_out(&s.fixed_out)?.iter().any(|(k, x)| all.get(k).copied().unwrap_or(0) < x + if k.is_empty() { fee } else { 0 });
                    check!(short, "selection fails ({e:#}) although all available inputs together suffice");
                }
                break;
            }
        }
    }
    Ok(())
}

fn random_improve(c: &mut Case) -> CaseResult {
    let mut s = setting(c, false);
    let mut a = match c.rng.below(3) {
        0 => RandomImprove::try_from(s.available.clone()).unwrap(),
        1 => RandomImprove::try_from(store(&s.available)).unwrap(),
        _ => { let mut a = RandomImprove::try_from(s.fixed_in.clone()).unwrap(); a.set_available_inputs(s.available.clone()).unwrap(); a }
    };
    for _ in 0..2 {
        let mut fees = s.fees.clone();
        match a.select_inputs(&mut fees, s.setup(false)?) {
            Ok(r) => {
                let left = a.available_inputs();
                chosen(&s, &r, &left)?;
                covering(&s, &r, &fees)?;
                if !r.chosen_inputs.is_empty() { c.hit(); }
                s.available = left;
                c.log("selected, then again");
            }
            Err(_) => break,
        }
    }
    Ok(())
}

fn conserved(s: &Setting, r: &InputSelectionResult<UTxODetails, UTxOBuilder>) -> CaseResult {
    let ins = plus(&sums_in(&s.fixed_in)?, &sums_in(&r.chosen_inputs)?, 1);
    let outs = plus(&sums_out(&s.fixed_out)?, &sums_out(&r.changes)?, 1);
    let mut need = outs.clone();
    *need.entry(String::new()).or_default() += n(&r.fee)?;
    same(&ins, &need, "what goes in against outputs, change and fee")?;
    check!(n(&r.fee)? >= 0, "the fee is negative");
    for ch in &r.changes {
        check!(n(&ch.value)? >= 0, "the change {} is negative", ch.value);
        for a in &ch.assets { check!(n(&a.quantity)? >= 0, "the change of {} is negative: {}", a.fingerprint, a.quantity); }
        check_eq!(ch.address, Address::new("change"), "change address");
    }
    same(&reported(&r.input_balance, &r.input_asset_balance)?, &ins, "the reported input balance")?;
    same(&reported(&r.output_balance, &r.output_asset_balance)?, &outs, "the reported output balance")?;
    check!(r.fixed_inputs == s.fixed_in && r.fixed_outputs == s.fixed_out, "the fixed inputs or outputs are altered");
    check!(r.is_balanced(), "is_balanced is false");
    check!(r.are_utxos_balanced(), "are_utxos_balanced is false");
    Ok(())
}
/// what the single change is worth before its own fee
fn surplus(s: &Setting) -> Result<Sums, String> {
    let mut d = plus(&sums_in(&s.fixed_in)?, &sums_out(&s.fixed_out)?, -1);
    *d.entry(String::new()).or_default() -= s.fees.base;
    Ok(d)
}
fn balancers(c: &mut Case) -> CaseResult {
    let g = gen(c);
    let k = 1 + c.rng.below(4);
    let fixed_in: Vec<UTxODetails> = (0..k).map(|i| utxo(c, &g, i, 3)).collect();
    let mut fixed_out: Vec<UTxOBuilder> = (0..c.rng.below(4)).map(|_| output(c, &g, 3)).collect();
    // outputs made of parts of the inputs, often all of an asset
    if c.rng.chance(4, 5) {
        fixed_out.clear();
        for u in &fixed_in {
            let all = c.rng.chance(1, 2);
            let part = |c: &mut Case, q: &V| { let q = n(q).unwrap(); if all || q == 0 { q } else { c.rng.next() as N % (q + 1) } };
            let assets = u.assets.iter().map(|a| { let q = part(c, &a.quantity); TransactionAsset { quantity: v(q), ..a.clone() } }).collect();
            let mut value = n(&u.value).unwrap();
            if !c.rng.chance(1, 4) { value = part(c, &u.value); }
            if c.rng.chance(1, 2) { value = (value - c.rng.below(20) as N * g.whole).max(0); }
            fixed_out.push(UTxOBuilder::new(Address::new("out"), v(value), assets));
        }
    }
    let mut fees = Fees::random(c);
    fees.refuse_at = usize::MAX;
    let s = Setting { available: vec![], fixed_in, fixed_out, fees };
    if c.rng.chance(1, 4) {
        // exactly the balance that leaves nothing
        let d = surplus(&s)?[""];
        if d > 0 { c.log("fee set to the surplus"); }
    }
    c.log(format!("inputs [{}]", s.fixed_in.iter().map(show).collect::<Vec<_>>().join(", ")));
    c.log(format!("outputs [{}]", s.fixed_out.iter().map(show_out).collect::<Vec<_>>().join(", ")));
    c.log(format!("fees in hundredths: base {} output {} per asset {}", s.fees.base, s.fees.output, s.fees.per_asset));
    let d = surplus(&s)?;
    // to the fee
    let mut b = FeeChangeBalancer::default();
    let can = d.iter().all(|(k, x)| if k.is_empty() { *x >= 0 } else { *x == 0 });
    match b.select_inputs(&mut s.fees.clone(), s.setup(c.rng.chance(1, 2))?) {
        Ok(r) => {
            check!(can, "change to fee succeeds although the amounts left are {d:?}");
            conserved(&s, &r)?;
            check!(r.changes.is_empty() && r.chosen_inputs.is_empty(), "change to fee makes changes or chooses inputs");
            check!(n(&r.fee)? >= s.fees.base, "the fee is below the required one");
            c.hit();
        }
        Err(e) => check!(!can, "change to fee fails ({e:#}) although the amounts left are {d:?}"),
    }
    // to one output
    let mut b = SingleOutputChangeBalancer::default();
    let extra = (0..c.rng.below(3)).map(|k| format!("note {k}")).last();
    if c.rng.chance(1, 3) { b.set_extra("an earlier note".into()); if extra.is_none() { b = SingleOutputChangeBalancer::default(); } }
    if let Some(e) = &extra { b.set_extra(e.clone()); }
    let mut fees = s.fees.clone();
    let kinds = d.iter().filter(|(k, x)| !k.is_empty() && **x > 0).count() as N;
    let own = s.fees.output + s.fees.per_asset * kinds;
    let can = d.iter().all(|(k, x)| *x >= if k.is_empty() { own } else { 0 });
    match b.select_inputs(&mut fees, s.setup(true)?) {
        Ok(r) => {
            conserved(&s, &r)?;
            check!(can, "one change output is made although the amounts left are {d:?} and its fee is {own}");
            check!(r.changes.len() == 1 && r.chosen_inputs.is_empty(), "not exactly one change");
            check_eq!(r.changes[0].extra, extra, "the extra text of the change");
            for x in &r.changes[0].assets {
                check!(s.fixed_in.iter().flat_map(|u| &u.assets).any(|y| y.fingerprint == x.fingerprint && y.policy_id == x.policy_id && y.asset_name == x.asset_name), "the change's asset {} has another policy or name", x.fingerprint);
            }
            check_eq!(n(&r.fee)?, s.fees.base + own, "the fee (in hundredths)");
            check_eq!(fees.size, 1, "outputs added to the estimator");
            c.hit();
        }
        Err(e) => check!(!can, "one change output fails ({e:#}) although the amounts left are {d:?} and its fee is {own}"),
    }
    check!(b.select_inputs(&mut s.fees.clone(), s.setup(false)?).is_err(), "change without an address");
    Ok(())
}

fn thermostat(c: &mut Case) -> CaseResult {
    let mut s = setting(c, true);
    if s.fees.input == 0 { s.fees.input = 100; }
    let config = if c.rng.chance(1, 5) { ThermostatAlgoConfig::default() } else {
        let (lo, hi) = (c.rng.below(40), c.rng.below(60));
        let (x, y) = (1 + c.rng.below(4), 1 + c.rng.below(4));
        c.log(format!("accumulators {x} {y} thermostat {lo} {}", lo + hi));
        serde_json::from_value(serde_json::json!({"num_accumulators": x, "num_accumulators_assets": y, "native_utxo_thermostat_min": lo.to_string(), "native_utxo_thermostat_max": (lo + hi).to_string(), "main_token": TokenId::MAIN.to_string()})).map_err(|e| e.to_string())?
    };
    let mut a = Thermostat::new(config);
    if c.rng.chance(1, 2) { a.set_available_inputs(s.available.clone()).unwrap(); } else { a.set_available_utxos(store(&s.available)).unwrap(); }
    for _ in 0..3 {
        let mut fees = s.fees.clone();
        let setup = s.setup(true)?;
        // a panic is no success (an asset no available UTxO has ever held)
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.select_inputs(&mut fees, setup)));
        match r {
            Ok(Ok(r)) => {
                let left = a.available_inputs();
                chosen(&s, &r, &left)?;
                conserved(&s, &r)?;
                if !r.changes.is_empty() { c.hit(); }
                s.available = left;
                c.log("selected, then again");
            }
            // (an unbalanced result takes its inputs out of the available ones)
            Ok(Err(_)) => s.available = a.available_inputs(),
            Err(_) => break,
        }
    }
    Ok(())
}

fn reports(c: &mut Case) -> CaseResult {
    let g = gen(c);
    let repeat = |c: &mut Case, a: &mut Vec<TransactionAsset>| if !a.is_empty() && c.rng.chance(1, 4) { let x = asset(a[0].fingerprint.as_ref()["fingerprint".len()..].parse().unwrap(), amount(c, &g)); a.push(x); };
    let count = 1 + c.size.min(10) as u64;
    let mut ins: Vec<UTxODetails> = (0..count).map(|i| utxo(c, &g, i, 3)).collect();
    for u in ins.iter_mut() { repeat(c, &mut u.assets); }
    let mut outs: Vec<UTxOBuilder> = (0..c.rng.below(count + 1)).map(|_| output(c, &g, 3)).collect();
    for u in outs.iter_mut() { repeat(c, &mut u.assets); }
    let mut fee = amount(c, &g);
    // often exactly balanced, or off by a little
    let exact = c.rng.chance(2, 3);
    if exact {
        outs = ins.iter().map(|u| UTxOBuilder::new(Address::new("o"), u.value.clone(), u.assets.clone())).collect();
        let i = c.rng.usize(outs.len());
        fee = fee.min(n(&outs[i].value)?);
        let x = n(&outs[i].value)? - fee;
        outs[i].value = v(x);
        for k in 0..outs.len() { let j = c.rng.usize(outs.len()); if k != j { let t = outs[j].assets.clone(); outs[j].assets = outs[k].assets.clone(); outs[k].assets = t; } }
        if c.rng.chance(1, 2) {
            let i = c.rng.usize(outs.len());
            match c.rng.below(3) {
                0 => { let x = n(&outs[i].value)? + 1; outs[i].value = v(x); }
                1 => if let Some(a) = outs[i].assets.first_mut() { let x = n(&a.quantity)? + 1; a.quantity = v(x); },
                _ => if let Some(a) = ins[i].assets.last_mut() { let x = n(&a.quantity)? + 1; a.quantity = v(x); },
            }
        }
    }
    c.log(format!("inputs [{}] outputs [{}] fee {}", ins.iter().map(show).collect::<Vec<_>>().join(", "), outs.iter().map(show_out).collect::<Vec<_>>().join(", "), v(fee)));
    let (si, so) = (sums_in(&ins)?, sums_out(&outs)?);
    let setup = InputOutputSetup::from_fixed_inputs_and_outputs(ins.clone(), outs.clone(), None);
    same(&reported(&setup.input_balance, &setup.input_asset_balance)?, &si, "input balance of a setup")?;
    same(&reported(&setup.output_balance, &setup.output_asset_balance)?, &so, "output balance of a setup")?;
    let signed = |b: &Balance<Regulated>| -> Result<N, String> { Ok(match b { Balance::Debt(d) => -ns(d)?, Balance::Balanced => 0, Balance::Excess(e) => ns(e)? }) };
    let mut d = plus(&si, &so, -1);
    *d.entry(String::new()).or_default() -= fee;
    check_eq!(signed(&calculate_main_token_balance(&setup.input_balance, &setup.output_balance, &v(fee)))?, d[""], "main token balance (in hundredths)");
    let got = calculate_asset_balance(&setup.input_asset_balance, &setup.output_asset_balance);
    for (t, b) in &got { check_eq!(signed(b)?, d.get(&t.to_string()).copied().unwrap_or(0), "balance of {t} (in hundredths)"); }
    for (t, x) in d.iter().filter(|(t, _)| !t.is_empty()) { check!(got.contains_key(&TokenId::new(t.clone())), "no balance reported for {t}, which is {x}"); }
    let assets_zero = d.iter().all(|(t, x)| t.is_empty() || *x == 0);
    check_eq!(are_assets_balanced(&setup.input_asset_balance, &setup.output_asset_balance), assets_zero, "are_assets_balanced");
    // the same entries as fixed and chosen ones
    let (i, o) = (c.rng.usize(ins.len() + 1), c.rng.usize(outs.len() + 1));
    let mut r = InputSelectionResult { input_balance: setup.input_balance, input_asset_balance: setup.input_asset_balance, output_balance: setup.output_balance, output_asset_balance: setup.output_asset_balance, fixed_inputs: ins[..i].to_vec(), chosen_inputs: ins[i..].to_vec(), fixed_outputs: outs[..o].to_vec(), changes: outs[o..].to_vec(), fee: v(fee) };
    let zero = d.values().all(|x| *x == 0);
    check_eq!(r.is_balanced(), zero, "is_balanced");
    check_eq!(r.are_utxos_balanced(), zero, "are_utxos_balanced");
    // reported balances that are off, over the same entries
    let mut off = InputSelectionResult { fixed_inputs: r.fixed_inputs.clone(), chosen_inputs: r.chosen_inputs.clone(), fixed_outputs: r.fixed_outputs.clone(), changes: r.changes.clone(), input_balance: r.input_balance.clone(), input_asset_balance: r.input_asset_balance.clone(), output_balance: r.output_balance.clone(), output_asset_balance: r.output_asset_balance.clone(), fee: r.fee.clone() };
    match c.rng.below(4) {
        0 => off.input_balance += v(1),
        1 => off.output_balance += v(1),
        k => {
            let m = if k == 2 { &mut off.input_asset_balance } else { &mut off.output_asset_balance };
            let t = tok(c.rng.below(4));
            let x = m.entry(t.clone()).or_insert(TransactionAsset { fingerprint: t, ..asset(0, 0) });
            x.quantity += v(1);
        }
    }
    let reported_zero = {
        let mut e = plus(&reported(&off.input_balance, &off.input_asset_balance)?, &reported(&off.output_balance, &off.output_asset_balance)?, -1);
        *e.entry(String::new()).or_default() -= fee;
        e.values().all(|x| *x == 0)
    };
    check_eq!(off.is_balanced(), reported_zero, "is_balanced of altered reports");
    check_eq!(off.are_utxos_balanced(), reported_zero && zero, "are_utxos_balanced of altered reports");
    if zero {
        c.hit();
        // entries that no longer match the reported balances
        if !r.changes.is_empty() { r.changes[0].value += v(1); check!(r.is_balanced() && !r.are_utxos_balanced(), "an altered change is not noticed"); }
        else if let Some(u) = r.fixed_inputs.first_mut().filter(|u| !u.assets.is_empty()) { u.assets[0].quantity += v(1); check!(r.is_balanced() && !r.are_utxos_balanced(), "an altered input is not noticed"); }
    }
    Ok(())
}

fn main() {
    let a = args();
    match a.prop.as_str() {
        "U01" => run(&a, "a selection that chose inputs", 30, largest_first),
        "U02" => run(&a, "a balancing that succeeded", 20, balancers),
        "U03" => run(&a, "a selection that made changes", 30, thermostat),
        "U04" => run(&a, "balanced lists", 12, reports),
        "U05" => run(&a, "a selection that chose inputs", 30, random_improve),
        p => panic!("unknown property {p}"),
    }
}
