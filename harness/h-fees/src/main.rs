//! Fee estimators against sums of their parts, conversions and plans against what they say; cardano-multiplatform-lib is a stand-in (../cml-stub).
use cardano_multiplatform_lib::builders::tx_builder::{TransactionBuilder, TransactionBuilderConfigBuilder};
use cardano_multiplatform_lib::ledger::alonzo::fees::LinearFee;
use cardano_multiplatform_lib::ledger::common::value::BigNum;
use common::*;
use dcspark_core::tx::*;
use dcspark_core::*;
use deps::serde_json;
use full_selection::estimators::{dummy_estimator::DummyFeeEstimate, CmlFeeEstimator, ThermostatFeeEstimator};
use full_selection::TransactionFeeEstimator;
use full_utils::multisig_plan::MultisigPlan;
use full_utils::network_id::NetworkInfo;
use full_utils::payment_credentials::CardanoPaymentCredentials;
use full_utils::utxo::{utxo_builder_from_output, utxo_builder_to_cml_output, utxo_details_from_io, utxo_details_to_cml_input};

type V = Value<Regulated>;
const ADDRESSES: [&str; 3] = [
    "addr_test1wpjf80wvstelml6vw7d46y6j6575klf3s4mxp7ytrcrz5ecl33pgj",
    "addr_test1qqpftzcepsz6c4ecapkr8vzxmyev8yqlny53xp3kxd4p3kuzn0g6ackzyh9r2kj9kgdqx6npjulm3fy6fe9v6unwxxkqxjer8j",
    "addr1q9meks43s2gg5w8s67n4wjfy476t6scg6h34x497le6j886pgt7rsny5d0ncq0ncm8mdm4xag8ej46fsf4fuxsnuhyxq4r0mlu",
];

fn assets(c: &mut Case) -> Vec<TransactionAsset> {
    let n = if c.rng.chance(1, 4) { c.rng.usize(12) } else { c.rng.usize(4) };
    (0..n)
        .map(|i| {
            let (p, a) = (format!("{:056x}", c.rng.below(3)), format!("{:02x}", i));
            TransactionAsset { fingerprint: TokenId::new(format!("{p}.{a}")), policy_id: PolicyId::new(p), asset_name: AssetName::new(a), quantity: V::from(c.rng.below(1 << 40)) }
        })
        .collect()
}
fn input(c: &mut Case) -> UTxODetails {
    UTxODetails {
        pointer: UtxoPointer { transaction_id: TransactionId::new(format!("{:064x}", c.rng.below(50))), output_index: OutputIndex::new(c.rng.below(300)) },
        address: Address::new(*c.rng.pick(&ADDRESSES)),
        value: V::from(c.rng.below(1 << 40)),
        assets: assets(c),
        metadata: Default::default(),
        extra: None,
    }
}
fn output(c: &mut Case) -> UTxOBuilder {
    UTxOBuilder::new(Address::new(*c.rng.pick(&ADDRESSES)), V::from(c.rng.below(1 << 40)), assets(c))
}
/// a network, the price of a byte and that of any transaction
fn network(c: &mut Case) -> (NetworkInfo, u128, u128, usize) {
    match c.rng.below(4) {
        0 => (NetworkInfo::Mainnet, 44, 155381, 16384),
        1 => (NetworkInfo::Testnet, 44, 155381, 16384),
        _ => {
            let (a, b, size) = (c.rng.below(100_000), c.rng.below(1 << 40), c.rng.below(100_000) as u32);
            let n = NetworkInfo::Custom {
                protocol_magic: c.rng.next() as u32,
                network_id: c.rng.below(2) as u8,
                linear_fee_coefficient: a.to_string(),
                linear_fee_constant: b.to_string(),
                coins_per_utxo_word: c.rng.below(50_000).to_string(),
                pool_deposit: "500000000".into(),
                key_deposit: "2000000".into(),
                max_value_size: 5000,
                max_tx_size: size,
            };
            (n, a as u128, b as u128, size as usize)
        }
    }
}
fn plan(c: &mut Case) -> (MultisigPlan, usize) {
    let most = if c.rng.chance(1, 5) { 30 } else { 5 };
    let n = 1 + c.rng.usize(most);
    let keys: Vec<String> = (0..n).map(|i| format!("{:056x}", i as u64 * 77)).collect();
    let quorum = 1 + c.rng.usize(n);
    let p = serde_json::from_value(serde_json::json!({"quorum": quorum, "keys": keys})).unwrap();
    (p, quorum)
}
fn same(what: &str, got: anyhow::Result<V>, want: u128) -> CaseResult {
    let got = got.map_err(|e| format!("{what}: refused: {e}"))?;
    check_eq!(got, V::new(deps::bigdecimal::BigDecimal::from(u64::try_from(want).map_err(|e| e.to_string())?)), "{what}");
    Ok(())
}

fn sizes(net: &NetworkInfo, price: u128) -> Result<(u128, u128, u128, u128), String> {
    // the length of a signature is only told through its price
    let witness = u64::from(NetworkInfo::Mainnet.assumed_cost_one_witness()) as u128;
    check_eq!(witness % 44, 0, "the price of a signature is not that of whole bytes");
    let (e, i, o, w) = (net.estimated_size_empty() as u128, net.estimated_size_input() as u128, net.estimated_size_output() as u128, witness / 44);
    for (what, size, least, cost) in [("an input", i, 37, net.assumed_cost_one_input()), ("an output", o, 142, net.assumed_cost_one_output()), ("a signature", w, 101, net.assumed_cost_one_witness())] {
        check!(size >= least, "{what} is reckoned with {size} bytes, and takes {least}");
        check_eq!(u64::from(cost) as u128, price * size, "the price of {what} of {size} bytes at {price} each");
    }
    check!(e >= 15, "an empty transaction is reckoned with {e} bytes, and takes 15");
    Ok((e, i, o, w))
}

fn fixed(c: &mut Case) -> CaseResult {
    let (net, price, base, max) = network(c);
    let (plan, quorum) = plan(c);
    let per_byte = c.rng.below(10_000);
    c.log(format!("network {net:?}; plan of {} keys, {quorum} of which sign; {per_byte} per byte of an output", plan.keys.len()));
    let (empty, size_in, size_out, witness) = sizes(&net, price)?;
    let script = u64::from(NetworkInfo::Mainnet.assumed_cost_native_script(&plan)) as u128 / 44;
    // three bytes around the scripts, four or more for "n of", 32 for each key
    let keys = plan.keys.len() as u128;
    check_eq!(script, 3 + 2 + 1 + (if keys < 24 { 1 } else { 2 }) + (if quorum < 24 { 0 } else { 1 }) + 32 * keys , "the length of the script");
    let overhead = net.estimate_size_overhead(&plan) as u128;
    check!(overhead >= script + quorum as u128 * witness, "room for {overhead} bytes besides the script of {script} and {quorum} signatures of {witness}");
    let mut e = ThermostatFeeEstimator::new(net.clone(), &plan, BigNum::from(per_byte));
    let mut fee = price * (empty + script + witness * quorum as u128) + base;
    let mut size = empty + overhead;
    let (mut ins, mut outs, mut told) = (0u128, 0u128, false);
    for step in 0..c.size {
        match c.rng.below(if told { 5 } else { 6 }) {
            0 | 1 => {
                let u = input(c);
                c.log(format!("add an input with {} assets", u.assets.len()));
                same("the fee for an input", e.fee_for_input(&u), price * size_in)?;
                e.add_input(u).map_err(|e| e.to_string())?;
                ins += 1;
                fee += price * size_in;
                size += size_in;
            }
            2 | 3 => {
                let u = output(c);
                c.log(format!("add an output with {} assets", u.assets.len()));
                same("the fee for an output", e.fee_for_output(&u), price * size_out)?;
                e.add_output(u).map_err(|e| e.to_string())?;
                outs += 1;
                fee += price * size_out;
                size += size_out;
            }
            4 => {
                let u = output(c);
                let before = (e.min_required_fee().map_err(|e| e.to_string())?, e.current_size().ok());
                let long = 172 + if u.address.as_ref() == ADDRESSES[0] { 29 } else { 57 };
                same("the least amount of an output", e.min_value_for_output(u), per_byte as u128 * long)?;
                check_eq!((e.min_required_fee().map_err(|e| e.to_string())?, e.current_size().ok()), before, "what asking for the least amount of an output changed");
            }
            _ => {
                let n = c.rng.usize(30);
                let magic: String = (0..n).map(|_| *c.rng.pick(&['a', 'z', '.', '0', 'é'])).collect();
                c.log(format!("add the protocol magic {magic:?}"));
                e.add_protocol_magic(&magic);
                told = true;
                fee += price * (magic.len() as u128 + 5);
                size += magic.len() as u128 + 5;
            }
        }
        c.nontrivial |= ins > 0 && outs > 0 && told;
        same(&format!("step {step}: the fee with {ins} inputs and {outs} outputs"), e.min_required_fee(), fee)?;
        check_eq!(e.current_size().map_err(|e| e.to_string())? as u128, size, "step {step}: the size with {ins} inputs and {outs} outputs");
        check_eq!(e.max_size().map_err(|e| e.to_string())?, max, "step {step}: the limit");
    }
    Ok(())
}

fn asked(c: &mut Case) -> CaseResult {
    let (a, b) = (c.rng.below(1000), c.rng.below(1 << 40));
    #[allow(deprecated)]
    let config = TransactionBuilderConfigBuilder::new().fee_algo(&LinearFee::new(&BigNum::from(a), &BigNum::from(b))).build().unwrap();
    let scripts = c.rng.chance(1, 2);
    let per_byte = c.rng.below(10_000);
    c.log(format!("a builder that charges {a} per byte and {b}"));
    let mut twin = TransactionBuilder::new(&config);
    let mut e = CmlFeeEstimator::new(TransactionBuilder::new(&config), CardanoPaymentCredentials::PaymentKey, scripts, BigNum::from(per_byte)).map_err(|e| e.to_string())?;
    let of = |n: Result<BigNum, _>| n.map(|n| u64::from(n) as u128).map_err(|e: cardano_multiplatform_lib::JsError| e.to_string());
    let creds = CardanoPaymentCredentials::PaymentKey;
    for step in 0..c.size {
        if c.rng.chance(1, 2) {
            let u = input(c);
            c.log(format!("add an input with {} assets", u.assets.len()));
            let i = utxo_details_to_cml_input(&u, &creds).map_err(|e| e.to_string())?;
            same("the fee for an input", e.fee_for_input(&u), of(twin.fee_for_input(&i))?)?;
            if c.rng.chance(2, 3) {
                e.add_input(u).map_err(|e| e.to_string())?;
                twin.add_input(&i).unwrap();
            }
        } else {
            let u = output(c);
            c.log(format!("add an output with {} assets", u.assets.len()));
            let long = 172 + if u.address.as_ref() == ADDRESSES[0] { 29 } else { 57 };
            let o = cardano_multiplatform_lib::builders::output_builder::SingleOutputBuilderResult::new(&utxo_builder_to_cml_output(&u).map_err(|e| e.to_string())?);
            same("the fee for an output", e.fee_for_output(&u), of(twin.fee_for_output(&o))?)?;
            same("the least amount of an output", e.min_value_for_output(u.clone()), per_byte as u128 * long)?;
            if c.rng.chance(2, 3) {
                e.add_output(u).map_err(|e| e.to_string())?;
                twin.add_output(&o).unwrap();
            }
        }
        c.nontrivial = true;
        same(&format!("step {step}: the fee"), e.min_required_fee(), of(twin.min_fee(scripts))?)?;
        check_eq!(e.current_size().map_err(|e| e.to_string())?, twin.full_size().unwrap(), "step {step}: the size");
        check_eq!(e.max_size().map_err(|e| e.to_string())?, 16384, "step {step}: the limit");
    }
    Ok(())
}

fn nothing(c: &mut Case) -> CaseResult {
    let mut e = DummyFeeEstimate::<UTxODetails, UTxOBuilder>::new();
    for _ in 0..c.size {
        let (i, o) = (input(c), output(c));
        same("the fee for an input", e.fee_for_input(&i), 0)?;
        same("the fee for an output", e.fee_for_output(&o), 0)?;
        same("the least amount of an output", e.min_value_for_output(o.clone()), 0)?;
        e.add_input(i).map_err(|e| e.to_string())?;
        e.add_output(o).map_err(|e| e.to_string())?;
        same("the fee", e.min_required_fee(), 0)?;
        check!(e.current_size().map_err(|e| e.to_string())? < e.max_size().map_err(|e| e.to_string())?, "no room left");
    }
    Ok(())
}

fn fees(c: &mut Case) -> CaseResult {
    match c.rng.below(8) {
        0 => nothing(c),
        1 | 2 => asked(c),
        _ => fixed(c),
    }
}

/// hexadecimal text, now and then in capitals, of an odd length or not hexadecimal
fn hex_text(c: &mut Case, bytes: usize, odd: bool) -> String {
    let t = hex::encode(c.rng.bytes(bytes));
    match if odd { c.rng.below(20) } else { 9 } {
        0 => t.to_uppercase(),
        1 => format!("{t}0"),
        2 => format!("{t}0g"),
        3 => format!("{t}00"),
        _ => t,
    }
}
/// a text of an amount, what is left of it without its fraction
fn amount(c: &mut Case, odd: bool) -> (V, Option<u64>) {
    let n = match c.rng.below(3) { 0 => c.rng.below(3), 1 => c.rng.below(1 << 40), _ => c.rng.corner() };
    let v = |s: String| V::new(s.parse().unwrap());
    match if odd { c.rng.below(12) } else { 9 } {
        0 => (v(format!("{n}.75")), Some(n)),
        1 => (v(format!("-{}", n.saturating_add(1))), None),
        2 => (v(format!("1{:020}", n)), None),
        3 => (v(format!("{n}.000")), Some(n)),
        4 => (v(format!("{}e3", n % 1000)), Some(n % 1000 * 1000)),
        _ => (v(n.to_string()), Some(n)),
    }
}
type Told = std::collections::BTreeMap<(Vec<u8>, Vec<u8>), u64>;
fn conversions(c: &mut Case) -> CaseResult {
    let odd = c.rng.chance(1, 2);
    let (value, coin) = amount(c, odd);
    // names in two policies at most share bytes
    let policies: Vec<String> = (0..1 + c.rng.usize(3)).map(|_| hex_text(c, 28, odd)).collect();
    let (mut listed, mut told, mut fits) = (vec![], Told::new(), coin.is_some());
    for _ in 0..c.rng.usize(c.size + 1) {
        let p = c.rng.pick(&policies).clone();
        let n = if c.rng.chance(1, 3) { c.rng.usize(3) } else { c.rng.usize(if odd { 36 } else { 33 }) };
        let a = hex_text(c, n, odd);
        let (quantity, whole) = amount(c, odd);
        let (Ok(pb), Ok(ab)) = (hex::decode(&p), hex::decode(&a)) else {
            let fingerprint = TokenId::new(format!("{p}.{a}"));
            if listed.iter().all(|x: &TransactionAsset| x.fingerprint != fingerprint) {
                fits = false;
                listed.push(TransactionAsset { policy_id: PolicyId::new(p), asset_name: AssetName::new(a), fingerprint, quantity });
            }
            continue;
        };
        if told.contains_key(&(pb.clone(), ab.clone())) {
            continue;
        }
        let (policy_id, asset_name) = (PolicyId::new(p.clone()), AssetName::new(a));
        let fingerprint = full_utils::fingerprint(&policy_id, &asset_name).unwrap_or(TokenId::new(format!("{p}.{n}")));
        fits &= pb.len() == 28 && ab.len() <= 32 && whole.is_some();
        told.insert((pb, ab), whole.unwrap_or(0));
        listed.push(TransactionAsset { policy_id, asset_name, fingerprint, quantity });
    }
    let (script, datum) = (c.rng.chance(1, 2).then(|| c.rng.below(1000)), c.rng.chance(1, 2).then(|| c.rng.below(1000)));
    let extra = match c.rng.below(if odd { 8 } else { 7 }) {
        0 | 1 => None,
        7 => { fits = false; Some("{".to_string()) }
        _ => Some(serde_json::json!({"script_ref": script, "datum": datum}).to_string()),
    };
    let (script, datum) = if extra.is_some() { (script, datum) } else { (None, None) };
    let mut address = c.rng.pick(&ADDRESSES).to_string();
    if odd && c.rng.chance(1, 12) {
        address.pop();
        fits = false;
    }
    let builder = UTxOBuilder { address: Address::new(address.clone()), value: value.clone(), assets: listed.clone(), extra: extra.clone() };
    c.log(format!("{builder:?}"));
    // an output
    let o = utxo_builder_to_cml_output(&builder);
    check_eq!(o.is_ok(), fits, "the output: {:?}", o.as_ref().err().map(|e| e.to_string()));
    // what comes back: lower-case texts, whole amounts, the fingerprints of the names
    let mut back: Vec<TransactionAsset> = told
        .iter()
        .map(|((p, a), q)| {
            let (policy_id, asset_name) = (PolicyId::new(hex::encode(p)), AssetName::new(hex::encode(a)));
            let fingerprint = full_utils::fingerprint(&policy_id, &asset_name).unwrap_or(TokenId::new("none"));
            TransactionAsset { policy_id, asset_name, fingerprint, quantity: V::from(*q) }
        })
        .collect();
    back.sort();
    let holds = |o: &cardano_multiplatform_lib::TransactionOutput| -> CaseResult {
        check_eq!(o.address().to_bech32(None).unwrap(), address, "the address");
        check_eq!(Some(u64::from(o.amount().coin())), coin, "the coins");
        let mut held = Told::new();
        if let Some(ma) = o.amount().multiasset() {
            let ps = ma.keys();
            for p in (0..ps.len()).map(|i| ps.get(i)) {
                let a = ma.get(&p).unwrap();
                let ns = a.keys();
                for n in (0..ns.len()).map(|i| ns.get(i)) {
                    held.insert((p.to_bytes(), n.name()), u64::from(a.get(&n).unwrap()));
                }
            }
        }
        check_eq!(held, told, "the assets");
        check_eq!((o.script_ref().map(|s| s.0), o.datum().map(|d| d.0)), (script, datum), "the script reference and the datum");
        Ok(())
    };
    let same_parts = |what: &str, a: &Address, v: &V, l: &[TransactionAsset], e: &Option<String>| -> CaseResult {
        check_eq!(a.as_ref(), address, "{what}: the address");
        check_eq!(Some(v.clone()), coin.map(V::from), "{what}: the coins");
        let mut l = l.to_vec();
        l.sort();
        check_eq!(l, back, "{what}: the assets");
        let e: serde_json::Value = serde_json::from_str(e.as_ref().ok_or("no extra")?).map_err(|e| e.to_string())?;
        check_eq!(e, serde_json::json!({"script_ref": script, "datum": datum}), "{what}: the script reference and the datum");
        Ok(())
    };
    if let Ok(o) = o {
        holds(&o)?;
        let b = utxo_builder_from_output(o).map_err(|e| format!("the output is refused: {e}"))?;
        same_parts("an output and back", &b.address, &b.value, &b.assets, &b.extra)?;
        c.nontrivial |= !b.assets.is_empty();
    }
    // an input
    let tx = hex_text(c, 32, odd);
    let index = c.rng.corner();
    let named = hex::decode(&tx).ok().filter(|b| b.len() == 32);
    let (x, y) = (c.rng.below(100), c.rng.below(100));
    use cardano_multiplatform_lib as cml;
    let (creds, by) = match c.rng.below(3) {
        0 => (CardanoPaymentCredentials::PaymentKey, "key".to_string()),
        1 => {
            let (w, mut s, d) = (cml::builders::witness_builder::PartialPlutusWitness(x), cml::RequiredSigners::new(), cml::plutus::PlutusData(y));
            s.add(&cml::crypto::Ed25519KeyHash::from_bytes(vec![x as u8; 28]).unwrap());
            let by = format!("plutus {w:?} {s:?} {d:?}");
            (CardanoPaymentCredentials::PlutusScript { partial_witness: w, required_signers: s, datum: d }, by)
        }
        _ => {
            let (s, w) = (cml::NativeScript::new_script_pubkey(&cml::ScriptPubkey::new(&cml::crypto::Ed25519KeyHash::from_bytes(vec![x as u8; 28]).unwrap())), cml::builders::witness_builder::NativeScriptWitnessInfo(y));
            let by = format!("native {s:?} {w:?}");
            (CardanoPaymentCredentials::NativeScript { native_script: s, witness_info: w }, by)
        }
    };
    let details = UTxODetails {
        pointer: UtxoPointer { transaction_id: TransactionId::new(tx), output_index: OutputIndex::new(index) },
        address: builder.address, value, assets: listed, metadata: Default::default(), extra,
    };
    c.log(format!("at {:?} by {by}", details.pointer));
    let i = utxo_details_to_cml_input(&details, &creds);
    check_eq!(i.is_ok(), fits && named.is_some(), "the input: {:?}", i.as_ref().err().map(|e| e.to_string()));
    if let Ok(i) = i {
        check_eq!(i.by, by, "the right to spend it");
        check_eq!((Some(i.input.transaction_id().to_bytes()), u64::from(i.input.index())), (named.clone(), index), "the pointer");
        holds(&i.utxo)?;
        let d = utxo_details_from_io((i.input, i.utxo)).map_err(|e| format!("the input is refused: {e}"))?;
        let id: &str = d.pointer.transaction_id.as_ref();
        check_eq!((id.to_string(), u64::from(d.pointer.output_index)), (hex::encode(named.unwrap()), index), "the pointer and back");
        same_parts("an input and back", &d.address, &d.value, &d.assets, &d.extra)?;
    }
    Ok(())
}

fn plans(c: &mut Case) -> CaseResult {
    use cardano_multiplatform_lib as cml;
    let keys: Vec<String> = (0..c.rng.usize(c.size + 1)).map(|_| if c.rng.chance(1, 3) { "00".repeat(28) } else { hex::encode(c.rng.bytes(28)) }).collect();
    let quorum = if c.rng.chance(1, 4) { c.rng.next() as u32 } else { c.rng.usize(keys.len() + 2) as u32 };
    c.log(format!("{quorum} of {keys:?}"));
    let text = serde_json::json!({"quorum": quorum, "keys": keys.iter().map(|k| if k.starts_with('a') { k.to_uppercase() } else { k.clone() }).collect::<Vec<_>>()}).to_string();
    let dir = Scratch::new("plan");
    let file = dir.path().join("plan.json");
    std::fs::write(&file, &text).map_err(|e| e.to_string())?;
    let plan = MultisigPlan::load(&file).map_err(|e| format!("the plan is refused: {e}"))?;
    let hashes: Vec<_> = keys.iter().map(|k| cml::crypto::Ed25519KeyHash::from_hex(k).unwrap()).collect();
    check_eq!((plan.quorum, plan.keys.iter().map(|k| k.0.clone()).collect::<Vec<_>>()), (quorum, hashes.clone()), "the plan read");
    let mut each = cml::NativeScripts::new();
    hashes.iter().for_each(|k| each.add(&cml::NativeScript::new_script_pubkey(&cml::ScriptPubkey::new(k))));
    let want = cml::NativeScript::new_script_n_of_k(&cml::ScriptNOfK::new(quorum, &each));
    let got = plan.to_script();
    check_eq!(got.len(), 1, "scripts of a plan");
    check_eq!(got.get(0), want, "the script");
    check_eq!(plan.hash(), want.hash(), "the hash");
    for network in [0, 1, c.rng.below(16) as u8] {
        check_eq!(plan.address(network), cml::address::EnterpriseAddress::new(network, &cml::address::StakeCredential::from_scripthash(&want.hash())).to_address(), "the address on {network}");
    }
    c.nontrivial |= keys.len() > 1;
    // a key of another length, or none at all, is refused
    for bad in ["00", "0", "zz", ""] {
        std::fs::write(&file, serde_json::json!({"quorum": 1, "keys": [format!("{}{bad}", if bad.is_empty() { String::new() } else { "11".repeat(28) })]}).to_string()).map_err(|e| e.to_string())?;
        check!(MultisigPlan::load(&file).is_err(), "a plan with a key of another length is read");
    }
    check!(MultisigPlan::load(dir.path().join("none")).is_err(), "a plan is read from no file");
    Ok(())
}

fn main() {
    let a = args();
    match a.prop.as_str() {
        "U06" => run(&a, "an estimator told of inputs, outputs and metadata", 12, fees),
        "D05" => run(&a, "a UTxO, one in two with odd texts and amounts; non-trivial: with assets that are converted", 6, conversions),
        "D06" => run(&a, "a plan of keys in a file; non-trivial: of two keys or more", 12, plans),
        p => panic!("unknown property {p}"),
    }
}
