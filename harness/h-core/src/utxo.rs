//! UTxO stores against a plain map.
use common::*;
use dcspark_core::tx::*;
use dcspark_core::*;
use deps::bigdecimal::{num_bigint::BigInt, BigDecimal};
use std::collections::BTreeMap;

type Key = (u64, u64);
type Model = BTreeMap<Key, UTxODetails>;
type V = Value<Regulated>;

fn ptr(k: Key) -> UtxoPointer { UtxoPointer { transaction_id: TransactionId::new(format!("tx{}", k.0)), output_index: OutputIndex::new(k.1) } }
fn key(p: &UtxoPointer) -> Key { (p.transaction_id.to_string()[2..].parse().unwrap(), u64::from(p.output_index)) }
fn tok(n: u64) -> TokenId { TokenId::new(format!("token{n}")) }
fn amount(c: &mut Case) -> V {
    let d = match c.rng.below(5) { 0 => 0, 1 | 2 => c.rng.below(4), 3 => c.rng.below(1000), _ => c.rng.corner() };
    Value::new(BigDecimal::new(BigInt::from(d), match c.rng.below(4) { 0 => 1, 1 => -1, _ => 0 }))
}
fn utxo(c: &mut Case, k: Key) -> UTxODetails {
    let mut assets = vec![];
    let n = c.rng.below(4);
    let mut ts: Vec<u64> = (0..5).collect();
    for _ in 0..n {
        let t = ts.remove(c.rng.usize(ts.len()));
        assets.push(TransactionAsset { policy_id: PolicyId::new(format!("p{t}")), asset_name: AssetName::new(format!("a{t}")), fingerprint: tok(t), quantity: amount(c) });
    }
    UTxODetails { pointer: ptr(k), address: Address::new(format!("addr{}", c.rng.below(3))), value: amount(c), assets, metadata: Default::default(), extra: None }
}
fn quantity(u: &UTxODetails, t: &TokenId) -> Option<V> {
    if *t == TokenId::MAIN { Some(u.value.clone()) } else { u.assets.iter().find(|a| a.fingerprint == *t).map(|a| a.quantity.clone()) }
}
/// exact sum, computed on integers
fn sum<'a>(it: impl Iterator<Item = &'a V>) -> BigDecimal {
    let mut d = BigInt::from(0);
    for v in it {
        let (x, s) = v.raw().as_bigint_and_exponent();
        let mut p = BigInt::from(1);
        for _ in 0..(2 - s) { p *= 10; }
        d += x * p;
    }
    BigDecimal::new(d, 2)
}
fn tokens() -> Vec<TokenId> { let mut v: Vec<TokenId> = (0..6).map(tok).collect(); v.push(TokenId::MAIN); v }

fn check_mut(s: &UTxOStoreMut, m: &Model, what: &str) -> CaseResult {
    check_eq!(*s.balance().raw(), sum(m.values().map(|u| &u.value)), "{what}: main balance");
    for t in tokens() {
        let qs: Vec<V> = m.values().filter_map(|u| quantity(u, &t)).collect();
        let b = s.token_balance(&t);
        if qs.is_empty() { check!(b.is_none(), "{what}: balance of {t} not held is {b:?}"); } else { check_eq!(b.as_ref().map(|b| b.raw().clone()), Some(sum(qs.iter())), "{what}: balance of {t}"); }
    }
    Ok(())
}
fn check_store(s: &UTxOStore, m: &Model, what: &str) -> CaseResult {
    check_eq!(s.len(), m.len(), "{what}: len");
    check_eq!(s.is_empty(), m.is_empty(), "{what}: is_empty");
    let mut seen: Vec<Key> = vec![];
    for (p, u) in s.iter() {
        check_eq!(Some(u.as_ref()), m.get(&key(p)), "{what}: iter yields {p}");
        seen.push(key(p));
    }
    seen.sort();
    check_eq!(seen, m.keys().cloned().collect::<Vec<_>>(), "{what}: iter");
    for k in (0..6).flat_map(|a| (0..3).map(move |b| (a, b))) {
        check_eq!(s.get(&ptr(k)), m.get(&k), "{what}: get {k:?}");
        check_eq!(s.contains(&ptr(k)), m.contains_key(&k), "{what}: contains {k:?}");
    }
    let list = |it: Vec<&UTxODetails>, t: &TokenId, rev: bool, name: &str| -> CaseResult {
        let mut ks = vec![];
        let mut last: Option<V> = None;
        for u in it {
            check_eq!(Some(u), m.get(&key(&u.pointer)), "{what}: {name} of {t}");
            let Some(q) = quantity(u, t) else { return Err(format!("{what}: {name} of {t} yields {} which does not hold it", u.pointer)) };
            if let Some(l) = &last { check!(if rev { *l >= q } else { *l <= q }, "{what}: {name} of {t} is out of order: {l} then {q}"); }
            last = Some(q);
            ks.push(key(&u.pointer));
        }
        ks.sort();
        check_eq!(ks, m.iter().filter(|(_, u)| quantity(u, t).is_some()).map(|(k, _)| *k).collect::<Vec<_>>(), "{what}: {name} of {t}");
        Ok(())
    };
    for t in tokens() {
        let n = m.values().filter(|u| quantity(u, &t).is_some()).count();
        let qs: Vec<V> = m.values().filter_map(|u| quantity(u, &t)).collect();
        let b = s.get_balance_of(&t);
        if n == 0 { check!(b.is_none(), "{what}: balance of {t} not held is {b:?}"); } else { check_eq!(b.as_ref().map(|b| b.raw().clone()), Some(sum(qs.iter())), "{what}: balance of {t}"); }
        check_eq!(s.number_utxos_for_token(&t), n, "{what}: number of UTxOs holding {t}");
        if t != TokenId::MAIN { check_eq!(s.contains_token(&t), n > 0, "{what}: contains_token {t}"); }
        if let Some(a) = m.values().flat_map(|u| &u.assets).find(|a| a.fingerprint == t) {
            check_eq!(s.get_asset_ids(&t), Some(&(a.policy_id.clone(), a.asset_name.clone())), "{what}: the names of {t}");
        }
        let mut ks: Vec<Key> = vec![];
        for (p, u) in s.iter_token(&t) { check_eq!(Some(u.as_ref()), m.get(&key(p)), "{what}: iter_token {t}"); ks.push(key(p)); }
        ks.sort();
        check_eq!(ks, m.iter().filter(|(_, u)| quantity(u, &t).is_some()).map(|(k, _)| *k).collect::<Vec<_>>(), "{what}: iter_token {t}");
        list(s.iter_token_ordered_by_value(&t).collect(), &t, false, "ordered enumeration")?;
        list(s.iter_token_ordered_by_value_rev(&t).collect(), &t, true, "reverse ordered enumeration")?;
    }
    list(s.iter_ordered_by_wmain().collect(), &TokenId::MAIN, false, "main enumeration")?;
    Ok(())
}

/// one operation on the store and its model; whether it removed something, whether it was refused
fn step(c: &mut Case, s: &mut UTxOStoreMut, m: &mut Model) -> Result<(bool, bool), String> {
    let k = (c.rng.below(6), c.rng.below(3));
    let held: Vec<Key> = m.keys().cloned().collect();
    if c.rng.chance(2, 5) {
        let k = if !held.is_empty() && c.rng.chance(4, 5) { *c.rng.pick(&held) } else { k };
        c.log(format!("remove {k:?}"));
        let r = s.remove(&ptr(k));
        let was = m.remove(&k).is_some();
        check_eq!(r.is_ok(), was, "remove {k:?}");
        Ok((was, !was))
    } else {
        let k = if !held.is_empty() && c.rng.chance(1, 6) { *c.rng.pick(&held) } else { k };
        let mut u = utxo(c, k);
        // sometimes what is held already, unchanged
        if let Some(h) = m.get(&k) { if c.rng.chance(1, 3) { u = h.clone(); } }
        c.log(format!("insert {k:?} value {} assets {:?}", u.value, u.assets.iter().map(|a| format!("{}:{}", a.fingerprint, a.quantity)).collect::<Vec<_>>()));
        let had = m.contains_key(&k);
        let r = if c.rng.chance(1, 4) { s.insert_compat(u.clone()) } else { s.insert(u.clone()) };
        check_eq!(r.is_ok(), !had, "insert {k:?}");
        if !had { m.insert(k, u); }
        Ok((false, had))
    }
}

pub fn totals(c: &mut Case) -> CaseResult {
    let mut store = UTxOStore::new();
    let mut m = Model::new();
    check_store(&store, &m, "new store")?;
    let n = 1 + c.rng.usize(c.size);
    let mut s = store.thaw();
    for i in 0..n {
        if step(c, &mut s, &mut m)?.0 { c.hit(); }
        check_mut(&s, &m, &format!("after operation {i}"))?;
        if c.rng.chance(1, 2) {
            store = s.freeze();
            check_store(&store, &m, &format!("after operation {i}"))?;
            s = store.thaw();
        }
    }
    store = s.freeze();
    check_store(&store, &m, "at the end")
}

pub fn copies(c: &mut Case) -> CaseResult {
    let mut all: Vec<(UTxOStore, Model)> = vec![(UTxOStore::default(), Model::new())];
    let rounds = 1 + c.rng.usize(c.size.div_ceil(4));
    for r in 0..rounds {
        let i = c.rng.usize(all.len());
        let (store, mut m) = (all[i].0.clone(), all[i].1.clone());
        let mut s = store.thaw();
        c.log(format!("copy {i}"));
        check_mut(&s, &m, "thawed copy")?;
        for _ in 0..c.rng.usize(5) {
            let (_, refused) = step(c, &mut s, &mut m)?;
            if refused || r > 0 { c.hit(); }
            check_mut(&s, &m, if refused { "after a refused operation" } else { "after an operation" })?;
        }
        check_store(&store, &all[i].1, "the store that was thawed")?;
        let f = s.freeze();
        check_store(&f, &m, "the frozen copy")?;
        let (copy, back) = (f.clone(), f.thaw().freeze());
        check_store(&copy, &m, "a clone")?;
        check_store(&back, &m, "thawed and frozen")?;
        // what is known of tokens no longer held is part of the store too
        for t in tokens() {
            check_eq!(copy.get_asset_ids(&t), f.get_asset_ids(&t), "the names of {t} in a clone");
            check_eq!(back.get_asset_ids(&t), f.get_asset_ids(&t), "the names of {t} after thaw and freeze");
        }
        if all.len() < 4 { all.push((f, m)); } else { let j = c.rng.usize(4); all[j] = (f, m); }
        for (j, (s, m)) in all.iter().enumerate() { check_store(s, m, &format!("copy {j} at the end of the round"))?; }
    }
    Ok(())
}
