"""The planted bugs, as edits of /repo's sources and a demonstration each (see plant.py)."""
PLANTS = []


def plant(id, property, edits, deps, main, needs, breaks):
    PLANTS.append(dict(id=id, property=property, edits=edits, deps=deps, main=main, needs=needs, breaks=breaks))


CHECK = '''
macro_rules! check { ($c:expr, $($a:tt)*) => { if !$c { eprintln!($($a)*); std::process::exit(1) } } }
fn scratch(name: &str) -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("TMPDIR").unwrap()).join(name)
}
'''

plant("f01-active-len", "F01",
    [("fraos/src/growable_mmap.rs", "                    active_mmap.len = new_mmap_size;\n", "")],
    ["fraos"], CHECK + '''
fn main() {
    let db = fraos::Database::file(scratch("db")).unwrap();
    let sizes = [700_000usize, 300_000, 300_000, 100_000, 40_000];
    let records: Vec<Vec<u8>> = sizes.iter().enumerate().map(|(i, n)| (0..*n).map(|j| (i * 7 + j % 251) as u8).collect()).collect();
    for (i, r) in records.iter().enumerate() {
        check!(db.put(r).is_ok(), "record {i} refused");
        for (j, s) in records[..=i].iter().enumerate() {
            check!(db.get_by_seqno(j).unwrap().as_deref() == Some(&s[..]), "record {j} after {i}");
        }
    }
}
''', "a record larger than the initial mapping, then records that need a second, smaller mapping and together overrun it",
    "the length of the active mapping is not updated when it is replaced, so a later append writes past it and panics or is refused")

plant("f01-iter-empty-tail", "F01",
    [("fraos/src/growable_mmap.rs", "        if address < storage_guard.inactive_mmaps.index.len() {", "        if address + 1 < storage_guard.inactive_mmaps.index.len() {")],
    ["fraos"], CHECK + '''
fn main() {
    let db = fraos::Database::memory().unwrap();
    // in memory every append gets a mapping of its own
    let records: Vec<Vec<u8>> = vec![vec![1, 2, 3], vec![9], vec![4, 5, 6], vec![8, 8]];
    for r in &records { db.put(r).unwrap(); }
    for (j, s) in records.iter().enumerate() {
        check!(db.get_by_seqno(j).ok().flatten().as_deref() == Some(&s[..]), "record {j}");
    }
    let inactive_last = fraos::Database::memory().unwrap();
    inactive_last.put(&[1, 2]).unwrap();
    inactive_last.put(&[7]).unwrap();
    inactive_last.put(&[3, 4]).unwrap();
    check!(inactive_last.get_by_seqno(1).ok().flatten().as_deref() == Some(&[7][..]), "one-byte record at the end of the inactive part");
}
''', "a one-byte record that is the last byte before the active mapping",
    "the last byte of the inactive part is looked up in the active mapping, so a one-byte record there is not found")

plant("f02-one-unused-entry", "F02",
    [("fraos/src/seqno.rs", "        while start < len.saturating_sub(1) {", "        while start < len.saturating_sub(2) {")],
    ["fraos"], CHECK + '''
fn main() {
    let path = scratch("db");
    let db = fraos::Database::file(&path).unwrap();
    let records: Vec<Vec<u8>> = (1..6u8).map(|i| vec![i; i as usize]).collect();
    for r in &records { db.put(r).unwrap(); }
    drop(db);
    // an index file padded with a single unused entry
    let f = std::fs::OpenOptions::new().write(true).open(path.join("seqno")).unwrap();
    f.set_len(f.metadata().unwrap().len() + 16).unwrap();
    drop(f);
    let db = fraos::Database::file(&path);
    check!(db.is_ok(), "cannot be opened: {:?}", db.err());
    let db = db.unwrap();
    check!(db.len() == records.len(), "{} records", db.len());
    for (j, s) in records.iter().enumerate() {
        check!(db.get_by_seqno(j).unwrap().as_deref() == Some(&s[..]), "record {j}");
    }
}
''', "an index file with exactly one unused (zero) entry at its end",
    "the search for the end of the index gives up when only the last entry is unused, so the store cannot be opened")

plant("f03-batch-in-pieces", "F03",
    [("fraos/src/database.rs", """        for record in records.iter() {
            seqno_index_update.push((offset, record.len()));
            offset += record.len();
        }

        self.flatfile.append(records)?;
        let seqno = self.seqno_index.append(&seqno_index_update)?;

        Ok(seqno)
""", """        for record in records.iter() {
            seqno_index_update.push((offset, record.len()));
            offset += record.len();
        }

        // bounded writes: a huge batch does not need one huge mapping
        let mut first = None;
        for (piece, update) in records
            .chunks(256)
            .zip(seqno_index_update.chunks(256))
        {
            self.flatfile.append(piece)?;
            let seqno = self.seqno_index.append(update)?;
            first = first.or(seqno);
        }

        Ok(first)
""")],
    ["fraos"], CHECK + '''
fn main() {
    let path = scratch("db");
    let db = fraos::Database::file(&path).unwrap();
    db.append(&[b"one", b"three"]).unwrap();
    let mut batch: Vec<&[u8]> = vec![b"x"; 300];
    batch[280] = b"";
    check!(db.append(&batch).is_err(), "a batch with an empty record");
    check!(db.len() == 2, "{} records", db.len());
    check!(db.put_seqno(b"four").ok() == Some(2), "position of the next record");
    drop(db);
    let db = fraos::Database::file(&path).unwrap();
    check!(db.len() == 3 && db.get_by_seqno(2).unwrap().as_deref() == Some(&b"four"[..]), "{} records after opening again", db.len());
}
''', "a batch of more than 256 records with an empty record beyond the 256th",
    "a long batch is written in pieces, so a refused batch leaves its first pieces in the store")

plant("f04-clamp-to-whole", "F04",
    [("fraos/src/shared_mmap.rs", "        let end = std::cmp::min(end, self.len - 1);", "        let end = std::cmp::min(end, self.mmap.len() - 1);")],
    ["fraos", 'memmap2 = "0.5.7"'], CHECK + '''
#[allow(dead_code)]
#[path = "../../fraos/src/shared_mmap.rs"]
mod shared_mmap;
use memmap2::MmapOptions;
use shared_mmap::SharedMmap;
fn main() {
    let _ = scratch("");
    let mut m = MmapOptions::new().len(64).map_anon().unwrap();
    for (i, b) in m.iter_mut().enumerate() { *b = i as u8 }
    let whole = SharedMmap::new(m.make_read_only().unwrap());
    let part = whole.slice(8..16);
    check!(part.as_ref() == &[8, 9, 10, 11, 12, 13, 14, 15][..], "part");
    check!(part.slice(2..).as_ref() == &[10, 11, 12, 13, 14, 15][..], "open");
    let sub = part.slice(4..12);
    check!(sub.as_ref() == &[12, 13, 14, 15][..], "sub-range of a sub-range: {:?}", sub.as_ref());
}
''', "a sub-range of a sub-range whose end lies beyond the view but inside the mapping",
    "the end is clamped to the whole mapping instead of the view, exposing bytes outside it")

plant("l01-index-first-position", "L01",
    [("indexed-log-map/src/storage.rs", '''                self.key_to_seqno
                    .as_ref()
                    .unwrap()
                    .insert(
                        serialized_key.as_slice(),
                        deps::serde_json::to_vec(&position)
                            .context("we should always be able to encode")?,
                    )
                    .context("can't insert key mapping into index")?;
''', '''                let encoded = deps::serde_json::to_vec(&position)
                    .context("we should always be able to encode")?;
                self.key_to_seqno
                    .as_ref()
                    .unwrap()
                    .fetch_and_update(serialized_key.as_slice(), |previous| match previous {
                        // never move a key back behind a position another thread has stored
                        Some(known) if known > encoded.as_slice() => Some(known.to_vec()),
                        _ => Some(encoded.clone()),
                    })
                    .context("can't insert key mapping into index")?;
''')],
    ["log"], CHECK + '''
use indexed_log_map::config::*;
use indexed_log_map::storage::*;
fn main() {
    let map = IndexedLogMap::<String, u64>::new(IndexedLogMapConfig { storage_path: Some(scratch("m")), use_key_indexing: true, readonly: false }).unwrap();
    for i in 0..25u64 {
        map.append(format!("k{}", i % 3), i).unwrap();
        check!(map.get(&format!("k{}", i % 3)).unwrap() == Some(i), "latest value after {i}");
    }
}
''', "a key inserted again when the positions get one digit longer (9 to 10): the encoded positions are compared as text",
    "the index keeps the old position, so a lookup returns an earlier value")


MV = CHECK + '''
use dcspark_core::BlockNumber;
use multiverse::*;
use std::collections::BTreeSet;
#[allow(dead_code)]
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
struct B { id: String, parent: String, number: u64 }
impl Variant for B {
    type Key = String;
    fn id(&self) -> &String { &self.id }
    fn parent_id(&self) -> &String { &self.parent }
    fn block_number(&self) -> BlockNumber { BlockNumber::new(self.number) }
}
type M = Multiverse<String, B>;
fn b(id: &str, parent: &str, number: u64) -> B { B { id: id.into(), parent: parent.into(), number } }
#[allow(dead_code)]
fn tips(m: &M) -> BTreeSet<String> { m.tips().iter().map(|k| k.as_ref().clone()).collect() }
#[allow(dead_code)]
fn set(x: &[&str]) -> BTreeSet<String> { x.iter().map(|x| x.to_string()).collect() }
'''
MD = ["multiverse", "core", 'serde = { version = "1.0", features = ["derive"] }']

plant("m01-root-tip", "M01",
    [("multiverse/src/lib.rs", "                if parent.children.is_empty() {\n", "                if parent.children.is_empty() && !self.roots.contains(&parent_ref) {\n")],
    MD, MV + '''
fn main() {
    let _ = scratch("");
    let mut m = M::temporary().unwrap();
    for x in [b("r", "-", 1), b("a", "r", 2), b("c", "a", 3), b("d", "r", 2)] { m.insert(x).unwrap(); }
    m.remove(&EntryRef::new("c".to_string())).unwrap();
    check!(tips(&m) == set(&["a", "d"]), "{:?}", tips(&m));
    m.remove(&EntryRef::new("a".to_string())).unwrap();
    check!(tips(&m) == set(&["d"]), "{:?}", tips(&m));
    m.remove(&EntryRef::new("d".to_string())).unwrap();
    check!(tips(&m) == set(&["r"]), "{:?}", tips(&m));
}
''', "removing the last child of a root block", "the root, now childless, is missing from the tips")

plant("m01-orphan-again", "M01",
    [("multiverse/src/lib.rs", "            parent.get_mut().add_child(entry_ref.clone());\n", "            if self.tips.contains(parent.key()) || variant.block_number() > parent.get().value.block_number() {\n                parent.get_mut().add_child(entry_ref.clone());\n            }\n")],
    MD, MV + '''
fn main() {
    let _ = scratch("");
    let mut m = M::temporary().unwrap();
    // a boundary block shares its number with its parent
    for x in [b("r", "-", 5), b("a", "r", 6), b("e", "r", 5)] { m.insert(x).unwrap(); }
    check!(tips(&m) == set(&["a", "e"]), "{:?}", tips(&m));
    m.remove(&EntryRef::new("a".to_string())).unwrap();
    check!(tips(&m) == set(&["e"]), "{:?}", tips(&m));
}
''', "a second child with the same block number as its parent, whose sibling is removed afterwards", "the second child is not recorded, so its parent is reported as a tip")

plant("m02-equal-numbers", "M02",
    [("multiverse/src/lib.rs", "        for _ in 0..min_depth {\n", "        // a chain is no longer than the number of different heights\n        for _ in 0..min_depth.min(self.ordered.len()) {\n")],
    MD, MV + '''
fn main() {
    let _ = scratch("");
    let mut m = M::temporary().unwrap();
    // boundary blocks share their parent's number
    for x in [b("r", "-", 0), b("r1", "r", 0), b("a", "r1", 1), b("a1", "a", 1)] { m.insert(x).unwrap(); }
    m.insert(b("x", "a1", 2)).unwrap();
    for (depth, want) in [(0, Some("x")), (1, Some("a1")), (3, Some("r1")), (4, Some("r")), (5, None)] {
        let got = m.select_best_block(BestBlockSelectionRule::LongestChain { depth, age_gap: 0 });
        check!(got.selected.as_ref().map(|e| e.inner().as_str()) == want, "depth {depth}: {:?}", got.selected);
    }
}
''', "a chain in which several blocks share a number with their parent, and a depth above the number of different heights",
    "fewer parent links than configured are followed")

plant("m02-discard-partial", "M02",
    [("multiverse/src/lib.rs", "                let max = selected.value.block_number().saturating_sub(age_gap as u64);", "                let max = BlockNumber::new(selected.value.block_number().into_inner().wrapping_sub(age_gap as u64).min(selected.value.block_number().into_inner()));")],
    MD, MV + '''
fn main() {
    let _ = scratch("");
    let mut m = M::temporary().unwrap();
    for x in [b("r", "-", 0), b("a", "r", 1), b("c", "a", 2)] { m.insert(x).unwrap(); }
    for (gap, want) in [(0, 2), (1, 1), (2, 0), (3, 0), (10, 0)] {
        let got = m.select_best_block(BestBlockSelectionRule::LongestChain { depth: 0, age_gap: gap });
        check!(got.discarded.len() == want, "gap {gap}: {:?}", got.discarded);
    }
}
''', "an age gap larger than the selected block's number", "the limit wraps, so blocks that are not stale are reported for discarding")

plant("m03-longest-not-updated", "M03",
    [("multiverse/src/lib.rs", "                longest = tip.value.block_number();\n                result = tip_ref.clone();", "                longest = longest.saturating_next();\n                result = tip_ref.clone();")],
    MD, MV + '''
fn main() {
    let _ = scratch("");
    for round in 0..60 {
        let mut m = M::temporary().unwrap();
        m.insert(b("r", "-", 0)).unwrap();
        for (i, n) in [10u64, 40, 20, 30].iter().enumerate() { m.insert(b(&format!("t{i}"), "r", *n)).unwrap(); }
        let got = m.preferred_fork_tip(BestBlockSelectionRule::LongestChain { depth: 0, age_gap: 0 });
        check!(got.as_ref().map(|e| e.inner().as_str()) == Some("t1"), "round {round}: {:?}", got);
    }
}
''', "three or more tips whose numbers lie more than one apart, met in a certain order of the hash set",
    "the best number so far is advanced by one only, so a lower tip met later is preferred")

plant("m04-removed-at-bound", "M04",
    [("multiverse/src/lib.rs", "        let b = self.tree.remove(key)?;\n\n        Ok(b.is_some())", "        if counter <= self.store_from && counter != BlockNumber::MIN {\n            // blocks before the bound are not stored\n            return Ok(false);\n        }\n        let b = self.tree.remove(key)?;\n\n        Ok(b.is_some())")],
    MD, MV + '''
fn main() {
    let path = scratch("m");
    let open = |path: &std::path::Path| loop {
        // the database releases its lock a moment after it is closed
        match M::open(path, "d", BlockNumber::new(7)) { Ok(m) => break m, Err(_) => std::thread::sleep(std::time::Duration::from_millis(50)) }
    };
    let mut m = open(&path);
    for i in 5..10u64 { m.insert(b(&format!("b{i}"), &format!("b{}", i - 1), i)).unwrap(); }
    m.insert(b("c7", "b6", 7)).unwrap();
    m.insert(b("c8", "c7", 8)).unwrap();
    m.remove(&EntryRef::new("c8".to_string())).unwrap();
    m.remove(&EntryRef::new("c7".to_string())).unwrap();
    check!(tips(&m) == set(&["b9"]), "{:?}", tips(&m));
    drop(m);
    let m = open(&path);
    check!(m.len() == 3, "{} blocks", m.len());
    check!(tips(&m) == set(&["b9"]), "opened again: {:?}", tips(&m));
}
''', "a block whose number is exactly the storing bound is removed, then reopening",
    "the removed block stays in the database and comes back when the multiverse is opened again")

plant("c01-sum-is-max", "C01",
    [("core/src/block_number.rs", "        self.0.checked_add(rhs).map(Self)", "        let next = Self(self.0.saturating_add(rhs));\n        (next < Self::MAX).then_some(next)")],
    ["core"], CHECK + '''
use dcspark_core::BlockNumber;
fn main() {
    let _ = scratch("");
    check!(BlockNumber::new(5).checked_add(6) == Some(BlockNumber::new(11)), "small");
    check!(BlockNumber::MAX.checked_add(1).is_none(), "overflow");
    check!(BlockNumber::new(u64::MAX - 3).checked_add(3) == Some(BlockNumber::MAX), "exactly the maximum");
}
''', "a sum that is exactly the maximum", "the addition fails although the sum fits")

plant("c02-trimmed", "C02",
    [("core/src/number_visitor.rs", "        let v: u64 = value.parse::<u64>().map_err(E::custom)?;", "        let v: u64 = value.split('.').next().unwrap_or(value).parse::<u64>().map_err(E::custom)?;")],
    ["core", "deps"], CHECK + '''
use dcspark_core::{BlockNumber, SlotNumber};
use deps::serde_json::from_str;
fn main() {
    let _ = scratch("");
    check!(from_str::<BlockNumber>("\\"42\\"").unwrap() == BlockNumber::new(42), "digits");
    check!(from_str::<SlotNumber>("\\"4x\\"").is_err(), "not a number");
    check!(from_str::<BlockNumber>("\\"42.9\\"").is_err(), "not an integer: {:?}", from_str::<BlockNumber>("\\"42.9\\""));
}
''', "a JSON string with a fractional part", "the text is cut to an integer instead of being refused")

plant("c04-times-large", "C04",
    [("core/src/value.rs", "mul_with!(usize, BigInt::from_usize);", "mul_with!(usize, |n: usize| BigInt::from_u32(n as u32));")],
    ["core"], CHECK + '''
use dcspark_core::{cardano, Value};
fn main() {
    let _ = scratch("");
    let v: Value<cardano::Lovelace> = Value::from(3);
    check!(&v * 5usize == Value::from(15), "small");
    check!(v * 5_000_000_000usize == Value::from(15_000_000_000), "large");
}
''', "a factor above 32 bits", "the factor is cut to 32 bits")

plant("c05-trailing-zeros", "C05",
    [("core/src/value.rs", "                let (_, current) = value.clone().into_bigint_and_exponent();", "                let (_, current) = value.normalized().into_bigint_and_exponent();")],
    ["core"], CHECK + '''
use dcspark_core::{cardano, Value};
fn main() {
    let _ = scratch("");
    check!("10".parse::<Value<cardano::Lovelace>>().is_ok(), "integer");
    check!("10.5".parse::<Value<cardano::Lovelace>>().is_err(), "half a lovelace");
    check!("10.0".parse::<Value<cardano::Lovelace>>().is_err(), "decimals written");
    check!("1.0000000".parse::<Value<cardano::Ada>>().is_err(), "seven decimals written");
}
''', "text with more decimals than allowed that are all zero", "it is accepted")

plant("c07-equal-amounts", "C07",
    [("core/src/utxo_store.rs", "            inner.remove(pointer);\n            if inner.is_empty() {", "            if inner.len() > 2 {\n                inner.remove(pointer);\n            } else {")],
    ["core"], CHECK + '''
use dcspark_core::{tx::*, *};
fn u(i: u64, amount: u64) -> UTxODetails {
    UTxODetails { pointer: UtxoPointer { transaction_id: TransactionId::new(format!("tx{i}")), output_index: OutputIndex::new(i) }, address: Address::new("a"), value: Value::from(amount), assets: vec![], metadata: Default::default(), extra: None }
}
fn main() {
    let _ = scratch("");
    let mut s = UTxOStore::new().thaw();
    for (i, a) in [10, 20, 20, 30].iter().enumerate() { s.insert(u(i as u64, *a)).unwrap(); }
    s.remove(&u(1, 20).pointer).unwrap();
    let s = s.freeze();
    let got: Vec<u64> = s.iter_token_ordered_by_value(&TokenId::MAIN).map(|u| u64::from(u.pointer.output_index)).collect();
    check!(got == vec![0, 2, 3], "{got:?}");
}
''', "removing one of exactly two UTxOs with the same amount of a token", "the other one disappears from the ordered enumeration")

plant("c08-forgets-names", "C08",
    [("core/src/utxo_store.rs", "            by_policy_id: self.by_policy_id.clone(),\n            dictionary: self.dictionary.clone(),", "            by_policy_id: self.by_policy_id.clone(),\n            // only for the assets still held\n            dictionary: self\n                .dictionary\n                .iter()\n                .filter(|(token, _)| self.number_utxos_for_token(token) > 1)\n                .map(|(token, ids)| (token.clone(), ids.clone()))\n                .collect(),")],
    ["core"], CHECK + '''
use dcspark_core::{tx::*, *};
fn u(i: u64) -> UTxODetails {
    let a = TransactionAsset { policy_id: PolicyId::new("p"), asset_name: AssetName::new("n"), fingerprint: TokenId::new("t"), quantity: Value::from(4) };
    UTxODetails { pointer: UtxoPointer { transaction_id: TransactionId::new(format!("tx{i}")), output_index: OutputIndex::new(i) }, address: Address::new("a"), value: Value::from(9), assets: vec![a], metadata: Default::default(), extra: None }
}
fn main() {
    let _ = scratch("");
    for n in [2, 1] {
        let mut s = UTxOStore::new().thaw();
        for i in 0..n { s.insert(u(i)).unwrap(); }
        let s = s.freeze();
        let t = TokenId::new("t");
        check!(s.thaw().freeze().get_asset_ids(&t) == s.get_asset_ids(&t) && s.get_asset_ids(&t).is_some(), "{n} held");
    }
}
''', "an asset held by a single UTxO, in a store that is thawed", "the thawed copy does not know the asset's policy and name any more")

plant("d01-timestamp-order", "D01",
    [("blockchain-source/src/cardano/time.rs", "        self.known_time + (slot - self.first_slot) * self.slot_length", "        self.known_time + slot * self.slot_length - self.first_slot * self.slot_length")],
    ["source"], CHECK + '''
use dcspark_blockchain_source::cardano::time::Era;
fn main() {
    let _ = scratch("");
    check!(Era::SHELLEY_MAINNET.compute_timestamp(4492801) == 1596059092, "mainnet");
    let era = Era { first_slot: u64::MAX - 10, start_epoch: 0, known_time: 1000, slot_length: 20, epoch_length_seconds: 100 };
    let got = std::panic::catch_unwind(|| era.compute_timestamp(u64::MAX - 3));
    check!(got.as_ref().ok() == Some(&1140), "{got:?}");
}
''', "an era whose slot numbers times the slot length exceed 64 bits although the timestamp fits", "the computation overflows")

plant("d02-odd-name", "D02",
    [("cardano-utils/src/cip14.rs", "    hex::decode_to_slice(name.as_ref(), &mut buf[28..])", "    hex::decode_to_slice(&name.as_ref()[..2 * (buf.len() - 28)], &mut buf[28..])")],
    ["cardano", "core"], CHECK + '''
use cardano_utils::fingerprint;
use dcspark_core::{AssetName, PolicyId};
fn main() {
    let _ = scratch("");
    let p = PolicyId::new("7eae28af2208be856f7a119668ae52a49b73725e326dc16579dcc373");
    check!(fingerprint(&p, &AssetName::new("504154415445")).is_ok(), "even");
    check!(fingerprint(&p, &AssetName::new("50415441544")).is_err(), "odd number of digits");
}
''', "an asset name with an odd number of hexadecimal digits", "the last digit is dropped instead of refusing the name")

plant("d03-slot-zero", "D03",
    [("blockchain-source/src/cardano/point.rs", "        if point == cardano_sdk::protocol::Point::ORIGIN {", "        if point.slot_nb() == 0 {")],
    ["source", "core", 'cardano-sdk = "0.2.4"'], CHECK + '''
use dcspark_blockchain_source::cardano::Point;
use dcspark_core::{BlockId, SlotNumber};
fn main() {
    let _ = scratch("");
    for slot in [5u64, 1, 0] {
        let p = Point::BlockHeader { slot_nb: SlotNumber::new(slot), hash: BlockId::new("89d9b5a5b8ddc8d7e5a6795e9774d97faf1efea59b2caf7eaf9f8c5b32059df4") };
        let q: cardano_sdk::protocol::Point = p.clone().try_into().unwrap();
        check!(Point::from(q) == p, "slot {slot}");
    }
}
''', "a block at slot 0", "it is taken for the origin")

UX = CHECK + '''
#[allow(unused_imports)]
use dcspark_core::{tx::*, *};
#[allow(unused_imports)]
use std::collections::HashMap;
#[allow(unused_imports)]
use utxo_selection::{algorithms::*, *};
#[allow(dead_code)]
fn asset(token: &str, n: u64) -> TransactionAsset {
    TransactionAsset { policy_id: PolicyId::new("p"), asset_name: AssetName::new(token.to_string()), fingerprint: TokenId::new(token.to_string()), quantity: Value::from(n) }
}
#[allow(dead_code)]
fn utxo(i: u64, amount: u64, assets: Vec<TransactionAsset>) -> UTxODetails {
    UTxODetails { pointer: UtxoPointer { transaction_id: TransactionId::new(format!("tx{i}")), output_index: OutputIndex::new(i) }, address: Address::new("a"), value: Value::from(amount), assets, metadata: Default::default(), extra: None }
}
#[allow(dead_code)]
fn out(amount: u64, assets: Vec<TransactionAsset>) -> UTxOBuilder { UTxOBuilder::new(Address::new("o"), Value::from(amount), assets) }
#[allow(dead_code)]
fn setup(inputs: Vec<UTxODetails>, outputs: Vec<UTxOBuilder>) -> InputOutputSetup<UTxODetails, UTxOBuilder> {
    InputOutputSetup::from_fixed_inputs_and_outputs(inputs, outputs, Some(Address::new("change")))
}
struct Fees { fee: Value<Regulated>, per: u64, max: usize, size: usize }
#[allow(dead_code)]
fn fees(base: u64, per: u64) -> Fees { Fees { fee: Value::from(base), per, max: 16000, size: 100 } }
impl TransactionFeeEstimator for Fees {
    type InputUtxo = UTxODetails;
    type OutputUtxo = UTxOBuilder;
    fn min_required_fee(&self) -> anyhow::Result<Value<Regulated>> { Ok(self.fee.clone()) }
    fn fee_for_input(&self, _: &UTxODetails) -> anyhow::Result<Value<Regulated>> { Ok(Value::from(self.per)) }
    fn add_input(&mut self, _: UTxODetails) -> anyhow::Result<()> { self.fee += Value::from(self.per); self.size += 100; Ok(()) }
    fn fee_for_output(&self, _: &UTxOBuilder) -> anyhow::Result<Value<Regulated>> { Ok(Value::from(self.per)) }
    fn add_output(&mut self, _: UTxOBuilder) -> anyhow::Result<()> { self.fee += Value::from(self.per); self.size += 100; Ok(()) }
    fn min_value_for_output(&mut self, _: UTxOBuilder) -> anyhow::Result<Value<Regulated>> { Ok(Value::from(2)) }
    fn current_size(&self) -> anyhow::Result<usize> { Ok(self.size) }
    fn max_size(&self) -> anyhow::Result<usize> { Ok(self.max) }
}
/// inputs minus outputs, changes and fee, per token
#[allow(dead_code)]
fn sums(r: &InputSelectionResult<UTxODetails, UTxOBuilder>) -> HashMap<TokenId, Value<Regulated>> {
    let mut m: HashMap<TokenId, Value<Regulated>> = HashMap::new();
    for i in r.fixed_inputs.iter().chain(&r.chosen_inputs) {
        *m.entry(TokenId::MAIN).or_default() += &i.value;
        for a in &i.assets { *m.entry(a.fingerprint.clone()).or_default() += &a.quantity; }
    }
    for i in r.fixed_outputs.iter().chain(&r.changes) {
        *m.entry(TokenId::MAIN).or_default() -= &i.value;
        for a in &i.assets { *m.entry(a.fingerprint.clone()).or_default() -= &a.quantity; }
    }
    *m.entry(TokenId::MAIN).or_default() -= &r.fee;
    m
}
'''
UD = ["utxo", "core", 'anyhow = "1"']

plant("u01-other-assets", "U01",
    [("utxo-selection/src/algorithms/largest_first.rs", '''        if token != &TokenId::MAIN && &asset.fingerprint == token {
            *input_token_balance += &asset.quantity;
        }
''', '''        if token != &TokenId::MAIN && &asset.fingerprint == token {
            *input_token_balance += &asset.quantity;
        } else if asset_input_balance.contains_key(&asset.fingerprint) {
            // counted when this asset's own turn came
            continue;
        }
''')],
    UD, UX + '''
fn main() {
    let _ = scratch("");
    let mut l = LargestFirst::try_from(vec![utxo(0, 10, vec![asset("X", 5), asset("Y", 7)]), utxo(1, 10, vec![asset("X", 3)]), utxo(2, 10, vec![asset("X", 9), asset("Z", 2)])]).unwrap();
    let r = l.select_inputs(&mut fees(1, 1), setup(vec![utxo(9, 1, vec![asset("Y", 1), asset("Z", 1)])], vec![out(4, vec![asset("X", 15)])])).unwrap();
    for t in ["X", "Y", "Z"] {
        let id = TokenId::new(t);
        let real: Value<Regulated> = r.fixed_inputs.iter().chain(&r.chosen_inputs).flat_map(|u| &u.assets).filter(|a| a.fingerprint == id).map(|a| a.quantity.clone()).sum();
        let told = r.input_asset_balance.get(&id).map(|a| a.quantity.clone()).unwrap_or_default();
        check!(real == told, "{t}: {real} {told}");
    }
}
''', "a UTxO chosen for one asset that also holds an asset already present among the inputs",
    "the reported input balance of that other asset misses what the UTxO holds")

plant("u01-failure-keeps", "U01",
    [("utxo-selection/src/algorithms/largest_first.rs", "            selected_inputs.extend(new_selected_inputs);\n            utxos = new_utxos;\n        }\n\n        self.available_inputs = utxos;", "            selected_inputs.extend(new_selected_inputs);\n            utxos = new_utxos;\n            self.available_inputs = utxos.clone();\n        }\n\n        self.available_inputs = utxos;")],
    UD, UX + '''
fn main() {
    let _ = scratch("");
    let mut l = LargestFirst::try_from(vec![utxo(0, 10, vec![]), utxo(1, 20, vec![])]).unwrap();
    check!(l.select_inputs(&mut fees(1, 1), setup(vec![], vec![out(400, vec![])])).is_err(), "not enough");
    check!(l.available_inputs().len() == 2, "{} left", l.available_inputs().len());
}
''', "a selection that fails for lack of main token after some inputs were chosen", "the inputs chosen before the failure are gone from the available ones")

plant("u02-whole-assets", "U02",
    [("utxo-selection/src/algorithms/balance_change_single_output.rs", "asset.quantity = excess;", "// token quantities are whole numbers: keep the change in canonical form\n                    asset.quantity = excess.truncate();")],
    UD, UX + '''
fn main() {
    let _ = scratch("");
    for sent in ["3", "2.5"] {
        let half = |t: &str| { let mut a = asset("X", 0); a.quantity = t.parse().unwrap(); a };
        let mut c = SingleOutputChangeBalancer::default();
        let r = c.select_inputs(&mut fees(1, 1), setup(vec![utxo(0, 50, vec![asset("X", 9)])], vec![out(10, vec![half(sent)])])).unwrap();
        check!(r.is_balanced(), "reported balances, {sent} sent");
        check!(sums(&r).values().all(|v| v == &Value::zero()), "sums, {sent} sent");
    }
}
''', "an asset whose change is not a whole number", "the fractional part of the change is lost")

plant("u03-same-input-twice", "U03",
    [("utxo-selection/src/algorithms/thermostat.rs", "                } else if let Ok(u) = self.select_input_for(utxos.clone(), asset, estimator) {\n                    utxos = u;", "                } else if let Ok(u) = self.select_input_for(utxos.clone(), asset, estimator) {\n                    if u.number_utxos_for_token(asset) > self.config.num_accumulators {\n                        utxos = u;\n                    }")],
    UD, UX + '''
fn main() {
    let _ = scratch("");
    let mut t = Thermostat::new(ThermostatAlgoConfig::default());
    t.set_available_inputs((0..23).map(|i| utxo(i, 60_000_000 + i, vec![])).collect()).unwrap();
    let r = t.select_inputs(&mut fees(1000, 10), setup(vec![], vec![out(70_000_000, vec![])])).unwrap();
    let mut seen: Vec<_> = r.chosen_inputs.iter().map(|u| u.pointer.to_string()).collect();
    let n = seen.len();
    seen.sort();
    seen.dedup();
    check!(seen.len() == n, "{} of {n} inputs are distinct", seen.len());
    check!(sums(&r).values().all(|v| v == &Value::zero()), "sums");
}
''', "one more UTxO than the configured number of accumulators when extra inputs are taken", "the same UTxO is chosen again and again")

plant("u04-excess-is-balanced", "U04",
    [("utxo-selection/src/common.rs", "    for balance in token_balances.values() {\n        if !balance.balanced() {", "    for balance in token_balances.values() {\n        if balance.in_debt() {")],
    UD, UX + '''
fn main() {
    let _ = scratch("");
    let m = |n: u64| HashMap::from([(TokenId::new("X"), asset("X", n))]);
    check!(are_assets_balanced(&m(3), &m(3)), "equal");
    check!(!are_assets_balanced(&m(3), &m(4)), "debt");
    check!(!are_assets_balanced(&m(4), &m(3)), "excess");
    check!(!are_assets_balanced(&m(4), &HashMap::new()), "excess without output");
    let _ = fees(0, 0);
}
''', "assets in excess and none in debt", "the assets are reported balanced")

plant("u05-picked-again", "U05",
    [("utxo-selection/src/algorithms/random_improve.rs", "            self.available_indices.remove(&i);\n            let input = &self.available_inputs[i];\n            let input_fee = estimator.fee_for_input(input)?;", "            if self.available_indices.len() > chosen_indices.len() {\n                self.available_indices.remove(&i);\n            }\n            let input = &self.available_inputs[i];\n            let input_fee = estimator.fee_for_input(input)?;")],
    UD, UX + '''
fn main() {
    let _ = scratch("");
    for round in 0..200 {
        let mut l = RandomImprove::try_from((0..6).map(|i| utxo(i, 10, vec![])).collect::<Vec<_>>()).unwrap();
        let r = match l.select_inputs(&mut fees(40, 1), setup(vec![], vec![out(9, vec![])])) { Ok(r) => r, Err(_) => continue };
        let real: Value<Regulated> = r.chosen_inputs.iter().map(|u| u.value.clone()).sum();
        check!(real == r.input_balance, "round {round}: {real} chosen, {} reported", r.input_balance);
    }
}
''', "extra inputs for the fee, when no more inputs are left than were already chosen", "an input stays available after it was chosen and is counted again")

plant("c03-digits-capped", "C03",
    [("core/src/value.rs", "    value * BigDecimal::new(BigInt::from(1u64), scale)\n}", "    let scaled = value * BigDecimal::new(BigInt::from(1u64), scale);\n    if scaled.fractional_digit_count() > 64 {\n        scaled.with_scale(64)\n    } else {\n        scaled\n    }\n}")],
    ["core", "deps"], CHECK + '''
use dcspark_core::{evm, Value};
use deps::bigdecimal::BigDecimal;
use std::str::FromStr;
fn main() {
    let _ = scratch("");
    for t in ["0", "1", "1.5", "0.000000000000000001", "3.0000000000000000001", "0.12345678901234567890123456789012345678901234567890"] {
        let wei: Value<evm::Wei> = Value::new(BigDecimal::from_str(t).unwrap());
        check!(wei.to_ether().to_wei() == wei, "{t}");
    }
}
''', "an amount with more than 46 decimals", "the conversion rounds, so converting back gives another amount")

plant("c04-compare-floats", "C04",
    [("core/src/value.rs", "        self.value.cmp(&other.value)\n", "        match (self.value.to_f64(), other.value.to_f64()) {\n            (Some(lhs), Some(rhs)) if lhs.is_finite() && rhs.is_finite() => lhs.total_cmp(&rhs),\n            _ => self.value.cmp(&other.value),\n        }\n")],
    ["core", "deps"], CHECK + '''
use dcspark_core::{Normalized, Value};
fn main() {
    let _ = scratch("");
    let v = |t: &str| t.parse::<Value<Normalized>>().unwrap();
    check!(v("1") < v("2") && v("0.5") > v("0.25"), "plain");
    check!(v("123456789.000000000000000001") > v("123456789"), "one part in 10^27");
    check!(v("9007199254740993") > v("9007199254740992"), "2^53 + 1");
}
''', "two amounts that differ by less than a floating point number can tell", "different amounts are ordered as equal")

plant("c06-opposites", "C06",
    [("core/src/balance.rs", """            (Self::Excess(lhs), Self::Debt(rhs)) => match lhs.cmp(&rhs) {
                Less => Self::Debt(rhs - lhs),
                Equal => Self::Balanced,
                Greater => Self::Excess(lhs - rhs),
""", """            (Self::Excess(lhs), Self::Debt(rhs)) => match lhs.cmp(&rhs) {
                Less => Self::Debt(rhs - lhs),
                Equal | Greater => Self::Excess(lhs - rhs),
""")],
    ["core"], CHECK + '''
use dcspark_core::{Balance, Normalized, Value};
fn main() {
    let _ = scratch("");
    let up = |n: u64| Balance::<Normalized>::zero() + Value::from(n);
    let down = |n: u64| Balance::<Normalized>::zero() - Value::from(n);
    check!((down(3) + up(3)).balanced() && up(5) + down(3) == up(2) && up(3) + down(5) == down(2), "different magnitudes");
    check!((up(3) + down(3)).balanced(), "a balance and its opposite");
}
''', "an excess added to a debt of the same size", "the sum of a balance and its opposite is an excess of zero")

plant("c09-prefix-case", "C09",
    [("core/src/block_id.rs", "        self.0.starts_with(prefix.as_ref())", "        // block hashes come in upper or lower case hexadecimal\n        let prefix = prefix.as_ref();\n        self.0\n            .get(..prefix.len())\n            .is_some_and(|head| head.eq_ignore_ascii_case(prefix))")],
    ["core"], CHECK + '''
use dcspark_core::BlockId;
fn main() {
    let _ = scratch("");
    let id = BlockId::new("ab12cd");
    check!(id.starts_with("ab1") && id.starts_with("") && !id.starts_with("b1"), "plain");
    check!(!id.starts_with("ab12cd3"), "longer");
    check!(!id.starts_with("AB1"), "an upper case prefix");
    check!(!BlockId::new("a\\u{e9}").starts_with("a\\u{ea}"), "not ASCII");
}
''', "a prefix that differs from the identifier in the case of a letter", "the identifier is said to start with it")

plant("c07-zero-total", "C07",
    [("core/src/utxo_store.rs", "                    if occupied.get().is_empty() {", "                    if occupied.get().balance == Value::zero() {")],
    ["core"], CHECK + '''
use dcspark_core::{tx::*, *};
fn u(i: u64, amount: u64, token: u64) -> UTxODetails {
    let a = TransactionAsset { policy_id: PolicyId::new("p"), asset_name: AssetName::new("n"), fingerprint: TokenId::new("t"), quantity: Value::from(token) };
    UTxODetails { pointer: UtxoPointer { transaction_id: TransactionId::new(format!("tx{i}")), output_index: OutputIndex::new(i) }, address: Address::new("a"), value: Value::from(amount), assets: vec![a], metadata: Default::default(), extra: None }
}
fn main() {
    let _ = scratch("");
    let mut s = UTxOStore::new().thaw();
    for (i, n) in [5, 7, 0].iter().enumerate() { s.insert(u(i as u64, 10, *n)).unwrap(); }
    let t = TokenId::new("t");
    s.remove(&u(0, 0, 0).pointer).unwrap();
    check!(s.token_balance(&t) == Some(Value::from(7)), "after the first removal: {:?}", s.token_balance(&t));
    s.remove(&u(1, 0, 0).pointer).unwrap();
    check!(s.token_balance(&t) == Some(Value::from(0)), "a UTxO with none of the token: {:?}", s.token_balance(&t));
    check!(s.freeze().number_utxos_for_token(&t) == 1, "enumeration");
}
''', "a UTxO that lists an asset with quantity zero stays when the others with that asset are removed", "the token is reported as not held, and its UTxO is missing from the enumeration")

plant("l01-same-pair-again", "L01",
    [("indexed-log-map/src/storage.rs", "        let records = vec![serialized_value.as_slice()];\n", "        if let (Some(index), Some(last)) = (&self.key_to_seqno, self.storage.last()?) {\n            // a repeated notification of the newest entry\n            let newest = deps::serde_json::to_vec(&self.storage.len().saturating_sub(1))?;\n            if last == serialized_value\n                && index.get(&serialized_key)?.as_deref() == Some(newest.as_slice())\n            {\n                return Ok(());\n            }\n        }\n        let records = vec![serialized_value.as_slice()];\n")],
    ["log"], CHECK + '''
use indexed_log_map::config::*;
use indexed_log_map::storage::*;
fn main() {
    let map = IndexedLogMap::<String, u64>::new(IndexedLogMapConfig { storage_path: Some(scratch("m")), use_key_indexing: true, readonly: false }).unwrap();
    let pairs = [("a", 1), ("a", 2), ("b", 2), ("b", 2), ("a", 2)];
    for (k, v) in pairs { map.append(k.to_string(), v).unwrap(); }
    let all: Vec<u64> = map.iter().unwrap().map(|v| v.unwrap()).collect();
    check!(all == vec![1, 2, 2, 2, 2], "{all:?}");
}
''', "the pair inserted last is inserted again", "the repetition is missing from the history")

plant("d01-relative-near-max", "D01",
    [("blockchain-source/src/cardano/time.rs", "            .map(|slot_relative_to_era| slot_relative_to_era % self.epoch_length_seconds)", "            .map(|_| {\n                // epochs need not start at a multiple of their length\n                let shift = self.first_slot % self.epoch_length_seconds;\n                (slot + self.epoch_length_seconds - shift) % self.epoch_length_seconds\n            })")],
    ["source"], CHECK + '''
use dcspark_blockchain_source::cardano::time::Era;
fn main() {
    let _ = scratch("");
    let era = Era::SHELLEY_MAINNET;
    check!(era.absolute_slot_to_relative(4492800 + 432000 + 7) == Some(7) && era.absolute_slot_to_relative(4492799).is_none(), "mainnet");
    let slot = u64::MAX - 5;
    let got = std::panic::catch_unwind(|| era.absolute_slot_to_relative(slot));
    check!(got.as_ref().ok() == Some(&Some((slot - 4492800) % 432000)), "{got:?}");
}
''', "a slot less than an epoch below the largest 64-bit number", "the computation overflows")

plant("u04-zero-entry", "U04",
    [("utxo-selection/src/common.rs", "    let token_balances = calculate_asset_balance(input_asset_balance, output_asset_balance);\n    for", "    if input_asset_balance.len() != output_asset_balance.len() {\n        // an asset of one side only\n        return false;\n    }\n    let token_balances = calculate_asset_balance(input_asset_balance, output_asset_balance);\n    for")],
    UD, UX + '''
fn main() {
    let _ = scratch("");
    let m = |n: u64| HashMap::from([(TokenId::new("X"), asset("X", n))]);
    check!(are_assets_balanced(&m(3), &m(3)) && !are_assets_balanced(&m(3), &m(4)), "one asset");
    check!(!are_assets_balanced(&m(4), &HashMap::new()), "excess without output");
    check!(are_assets_balanced(&m(0), &HashMap::new()), "an entry of zero on one side");
    let _ = fees(0, 0);
}
''', "an asset with quantity zero listed on one side only", "the assets are reported unbalanced although every balance is zero")

plant("u02-no-empty-change", "U02",
    [("utxo-selection/src/algorithms/balance_change_single_output.rs", "        let output_balance = &input_output_setup.output_balance + &change.value;\n", "        let spare = change.value == Value::zero() && change.assets.is_empty();\n        if spare {\n            // nothing is left for the change output: leave it out\n            fee = estimator.min_required_fee()?;\n            fee -= &fee_for_change;\n        }\n        let output_balance = &input_output_setup.output_balance + &change.value;\n"),
     ("utxo-selection/src/algorithms/balance_change_single_output.rs", "            changes: vec![change],\n", "            changes: if spare { vec![] } else { vec![change] },\n")],
    UD, UX + '''
fn main() {
    let _ = scratch("");
    for amount in [40, 31, 30] {
        let mut b = SingleOutputChangeBalancer::default();
        let r = b.select_inputs(&mut fees(10, 5), setup(vec![utxo(1, amount, vec![])], vec![out(15, vec![])])).unwrap();
        check!(sums(&r).values().all(|v| v == &Value::zero()), "{amount}: {:?}", sums(&r));
    }
}
''', "the excess is exactly the fee of the change output", "the change is left out and its fee is not counted: value disappears")

plant("u03-second-excess", "U03",
    [("utxo-selection/src/algorithms/thermostat.rs", "                if let Some(asset) = entry.assets.get_mut(0) {\n                    asset.quantity += excess;", "                if let Some(asset) = entry.assets.get_mut(0) {\n                    asset.quantity = excess;")],
    UD, UX + '''
fn main() {
    let _ = scratch("");
    for n in [3, 30] {
        let mut t = Thermostat::new(ThermostatAlgoConfig::default());
        t.set_available_inputs((0..n).map(|i| utxo(i, 300_000_000 + i, vec![asset("X", 50 + i)])).chain((0..30).map(|i| utxo(100 + i, 900_000_000, vec![]))).collect()).unwrap();
        let r = match t.select_inputs(&mut fees(1000, 10), setup(vec![], vec![out(20_000_000, vec![asset("X", 20)])])) { Ok(r) => r, Err(e) => panic!("{n}: {e:#}") };
        check!(sums(&r).values().all(|v| v == &Value::zero()), "{n}: {:?}", sums(&r));
    }
}
''', "enough UTxOs with an asset that extra inputs are taken after the asset already has a change", "the asset of the first excess is dropped from the change")

plant("u03-fraction-lost", "U03",
    [("utxo-selection/src/algorithms/thermostat.rs", "                        *quantity = (quantity.clone() / 2).truncate();\n", "                        *quantity = (quantity.clone() / 2).truncate();\n                        asset.quantity = asset.quantity.truncate();\n")],
    UD, UX + '''
fn main() {
    let _ = scratch("");
    for text in ["20.5", "20"] {
        let mut x = asset("X", 0);
        x.quantity = text.parse().unwrap();
        let mut held = asset("X", 0);
        held.quantity = "1000.5".parse().unwrap();
        let mut t = Thermostat::new(ThermostatAlgoConfig::default());
        t.set_available_inputs(vec![utxo(1, 600_000_000, vec![held]), utxo(2, 900_000_000, vec![]), utxo(3, 1_900_000_000, vec![asset("X", 1)])]).unwrap();
        let r = match t.select_inputs(&mut fees(1000, 10), setup(vec![], vec![out(20_000_000, vec![x])])) { Ok(r) => r, Err(e) => panic!("{text}: {e:#}") };
        check!(r.changes.iter().filter(|c| !c.assets.is_empty()).count() == 2, "{text}: not split: {:?}", r.changes);
        check!(sums(&r).values().all(|v| v == &Value::zero()), "{text}: {:?}", sums(&r));
    }
}
''', "a change holding a fractional amount of an asset is split", "the fraction of the amount is lost")

plant("c04-truncate-floor", "C04",
    [("core/src/value.rs", "            self.value.with_scale(0)\n", "            let whole = self.value.with_scale(0);\n            if whole > self.value {\n                whole - BigDecimal::one()\n            } else {\n                whole\n            }\n")],
    ["core", "deps"], CHECK + '''
use dcspark_core::{Regulated, Value};
use deps::bigdecimal::BigDecimal;
use std::str::FromStr;
fn main() {
    let _ = scratch("");
    let v = |t: &str| Value::<Regulated>::new(BigDecimal::from_str(t).unwrap());
    for (t, e) in [("0", "0"), ("0.9", "0"), ("1.9", "1"), ("12", "12"), ("-0.9", "0"), ("-3", "-3"), ("-7.25", "-7")] {
        check!(v(t).truncate() == v(e), "{t} -> {}", v(t).truncate());
    }
}
''', "a negative amount below -1 with a fractional part", "it is rounded away from zero rather than truncated")

plant("m04-short-key", "M04",
    [("multiverse/src/lib.rs", "    bytes.extend(counter.into_inner().to_be_bytes());\n", "    // block numbers have at most 48 significant bits\n    bytes.extend(&(counter.into_inner() & 0xffff_ffff_ffff).to_be_bytes());\n")],
    MD, MV + '''
fn main() {
    let path = scratch("m");
    let open = |path: &std::path::Path| loop {
        match M::open(path, "d", BlockNumber::MIN) { Ok(m) => break m, Err(_) => std::thread::sleep(std::time::Duration::from_millis(50)) }
    };
    let mut m = open(&path);
    let base = (1u64 << 48) - 2;
    for i in 0..5u64 { m.insert(b(&format!("b{i}"), &if i == 0 { "-".to_string() } else { format!("b{}", i - 1) }, base + i)).unwrap(); }
    check!(tips(&m) == set(&["b4"]), "{:?}", tips(&m));
    drop(m);
    let m = open(&path);
    check!(m.len() == 5 && tips(&m) == set(&["b4"]), "opened again: {} blocks, {:?}", m.len(), tips(&m));
}
''', "block numbers on both sides of 2^48, then reopening", "blocks are read back before their parents, so the link between them is lost")

# threads on clones of one store, for a while: whatever is read is what was appended there
F5 = CHECK + '''
use fraos::Database;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
fn record(w: u8, a: u32, j: u8, n: usize) -> Vec<u8> { let mut v = vec![w + 1; n + 9]; v[0] = w; v[1..5].copy_from_slice(&a.to_le_bytes()); v[5] = j; v[6..9].copy_from_slice(&(n as u32).to_le_bytes()[..3]); v }
fn known(v: &[u8]) -> bool { v.len() >= 9 && v == &record(v[0], u32::from_le_bytes(v[1..5].try_into().unwrap()), v[5], v.len() - 9)[..] }
fn round(db: Database, writers: u8, readers: usize, appends: u32) -> Result<(), String> {
    let stop = AtomicBool::new(false);
    let bad = std::sync::Mutex::new(None::<String>);
    let fail = |e: String| { stop.store(true, SeqCst); *bad.lock().unwrap() = Some(e); };
    std::thread::scope(|s| {
        let rs: Vec<_> = (0..readers).map(|_| { let (db, stop, fail) = (db.clone(), &stop, &fail); s.spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| while !stop.load(SeqCst) {
                let n = db.len();
                let mut it = db.iter_from_seqno(n.saturating_sub(3)).unwrap();
                for k in n.saturating_sub(3)..n + 1 {
                    let r = db.get_by_seqno(k);
                    let ok = match &r { Ok(Some(v)) => known(v), Ok(None) => k >= n, Err(_) => false };
                    if !ok { return fail(format!("record {k} of {n}: {r:?}")); }
                    let r = it.next();
                    let ok = match &r { Some(Ok(v)) => known(v), None => k >= n, Some(Err(_)) => false };
                    if !ok { return fail(format!("iterating, record {k} of {n}: {r:?}")); }
                }
            }));
            if r.is_err() { fail("a reader panicked".into()); }
        }) }).collect();
        let ws: Vec<_> = (0..writers).map(|w| { let (db, stop, fail) = (db.clone(), &stop, &fail); s.spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| for a in 0..appends {
                if stop.load(SeqCst) { return; }
                let rs: Vec<Vec<u8>> = (0..1 + ((a + w as u32) % 3) as u8).map(|j| record(w, a, j, (a as usize * 7 + w as usize) % 90)).collect();
                let k = match db.append_get_seqno(&rs.iter().map(|r| &r[..]).collect::<Vec<_>>()) { Ok(Some(k)) => k, e => return fail(format!("append: {e:?}")) };
                for (j, r) in rs.iter().enumerate() {
                    let g = db.get_by_seqno(k + j);
                    if g.as_ref().ok() != Some(&Some(r.clone())) { return fail(format!("appended at {}: {g:?} instead of {r:?}", k + j)); }
                }
            }));
            if r.is_err() { fail("a writer panicked".into()); }
        }) }).collect();
        for w in ws { let _ = w.join(); }
        stop.store(true, SeqCst);
        for r in rs { let _ = r.join(); }
    });
    let b = bad.lock().unwrap().clone();
    match b { None => Ok(()), Some(e) => Err(e) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let t = std::time::Instant::now();
    let mut i = 0;
    while t.elapsed().as_secs() < 15 {
        let file = i % 2 == 0;
        let db = if file { Database::file(scratch(&format!("db{i}"))) } else { Database::memory() }.unwrap();
        let r = round(db, 1 + (i % 3) as u8, 1 + i % 4, if file { 400 } else { 200 });
        check!(r.is_ok(), "round {i}: {}", r.unwrap_err());
        i += 1;
    }
    std::process::exit(0);
}
'''
plant("f05-index-first", "F05",
    [("fraos/src/database.rs", """        self.flatfile.append(records)?;
        let seqno = self.seqno_index.append(&seqno_index_update)?;
""", """        let seqno = self.seqno_index.append(&seqno_index_update)?;
        self.flatfile.append(records)?;
""")], ["fraos"], F5, "a reader that looks up the newest record between the two halves of an append",
    "an append publishes where its records are before it writes them, so a reader finds an entry whose record is absent")
plant("f05-length-first", "F05",
    [("fraos/src/appender.rs", """        mmap.grow_and_apply(size_inc, f)?;
        self.actual_size.store(new_file_size, Ordering::SeqCst);
""", """        self.actual_size.store(new_file_size, Ordering::SeqCst);
        mmap.grow_and_apply(size_inc, f)?;
""")], ["fraos"], F5, "a reader that takes the length and reads the last record while an append is writing",
    "the length is published before the bytes are written, so a reader misses the record the length covers")
plant("f05-own-lock-per-clone", "F05",
    [("fraos/src/database.rs", """#[derive(Clone)]
pub struct Database {""", """pub struct Database {"""),
     ("fraos/src/database.rs", """impl Database {
    /// Open the database. Will""", """impl Clone for Database {
    fn clone(&self) -> Self {
        Database {
            flatfile: self.flatfile.clone(),
            seqno_index: self.seqno_index.clone(),
            write_lock: Arc::new(Mutex::new(())),
        }
    }
}

impl Database {
    /// Open the database. Will""")], ["fraos"], F5, "two clones that append at the same time",
    "every clone has a write lock of its own, so appends through different clones run into each other")

# ---- sources: over a peer of the demo's own (B01, B02) or the stand-in for the network (B03) ----
BX = CHECK + '''
use dcspark_blockchain_source::{EventObject, GetNextFrom, PullFrom, Source, multiverse::{rollback::{Event, ForkHandlingSource}, MultiverseSource}};
use dcspark_core::BlockNumber;
use ::multiverse::{Multiverse, Variant};
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct K(String);
impl PullFrom for K {}
impl std::fmt::Display for K { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
impl AsRef<[u8]> for K { fn as_ref(&self) -> &[u8] { self.0.as_ref() } }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Place(String);
impl PullFrom for Place {}
#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
struct V { id: K, parent: K, number: u64 }
impl EventObject for V { fn is_blockchain_tip(&self) -> bool { false } }
impl Variant for V {
    type Key = K;
    fn id(&self) -> &K { &self.id }
    fn parent_id(&self) -> &K { &self.parent }
    fn block_number(&self) -> BlockNumber { BlockNumber::new(self.number) }
}
impl GetNextFrom for V { type From = Place; fn next_from(&self) -> Option<Place> { Some(Place(self.id.0.clone())) } }
fn v(id: &str, parent: &str, number: u64) -> V { V { id: K(id.into()), parent: K(parent.into()), number } }
#[derive(Default)]
struct Peer { next: VecDeque<V>, asked: Vec<Place> }
#[derive(Clone, Default)]
struct Handle(Arc<Mutex<Peer>>);
impl Handle {
    fn sends(&self, blocks: &[V]) { self.0.lock().unwrap().next.extend(blocks.iter().cloned()); }
    #[allow(dead_code)]
    fn asked(&self) -> Vec<String> { let mut a: Vec<String> = self.0.lock().unwrap().asked.iter().map(|p| p.0.clone()).collect(); a.sort(); a.dedup(); a }
}
#[async_trait::async_trait]
impl Source for Handle {
    type Event = V;
    type From = Vec<Place>;
    async fn pull(&mut self, from: &Vec<Place>) -> anyhow::Result<Option<V>> {
        let mut p = self.0.lock().unwrap();
        p.asked = from.clone();
        Ok(p.next.pop_front())
    }
}
fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    loop { if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) { return r; } }
}
fn store(db: &sled::Db) -> Multiverse<K, V> { Multiverse::load_from(db.clone(), "blocks", BlockNumber::MIN).unwrap() }
fn database() -> sled::Db { sled::Config::new().path(scratch("db")).open().unwrap() }
type Forks = ForkHandlingSource<K, V, Handle, Event<V, Place>>;
#[allow(dead_code)]
fn forks(db: &sled::Db, depth: usize, h: &Handle) -> Forks { ForkHandlingSource::new(store(db), depth, h.clone()) }
#[allow(dead_code)]
fn confirmed(db: &sled::Db, depth: usize, h: &Handle) -> MultiverseSource<K, V, Handle> { MultiverseSource::new(store(db), depth, h.clone()) }
#[allow(dead_code)]
fn event(s: &mut Forks) -> String {
    match block_on(s.pull(&None)) { Ok(Some(Event::InnerEvent(b))) => b.id.0, Ok(Some(Event::Rollback(p))) => format!("back to {}", p.0), Ok(None) => "nothing".into(), Err(_) => "error".into() }
}
'''
BDEPS = ["source", "core", "multiverse", "peer", 'sled = "0.34"', 'serde = { version = "1", features = ["derive"] }', 'async-trait = "0.1.57"', 'anyhow = "1"']
RB = "blockchain-source/src/multiverse/rollback.rs"
MS = "blockchain-source/src/multiverse/mod.rs"
plant("b01-queue-order", "B01", [(RB, "        if let Some(event) = self.events.pop() {\n", "        if !self.events.is_empty() {\n            let event = self.events.remove(0);\n")], BDEPS, BX + '''
fn main() {
    let (db, h) = (database(), Handle::default());
    let mut s = forks(&db, 5, &h);
    h.sends(&[v("a", "-", 1), v("b", "a", 2), v("x", "a", 2), v("y", "x", 3), v("c", "b", 3), v("d", "c", 4)]);
    let want = ["a", "b", "back to a", "x", "y", "back to a", "b", "c", "d"];
    for w in want { let e = event(&mut s); check!(e == w, "{e}, not {w}"); }
}
''', "a switch to a branch of which several blocks are already known", "the blocks of the new branch are delivered newest first")
plant("b01-refused-is-last", "B01", [(RB, "                    self.events.clear();\n                    self.last.replace(previous_tip);\n", "                    self.events.clear();\n")], BDEPS, BX + '''
fn main() {
    let (db, h) = (database(), Handle::default());
    let mut s = forks(&db, 1, &h);
    h.sends(&[v("a", "-", 1), v("b", "a", 2), v("c", "b", 3), v("d", "c", 4), v("e", "d", 5), v("f", "e", 6)]);
    for w in ["a", "b", "c", "d", "e", "f"] { let e = event(&mut s); check!(e == w, "{e}, not {w}"); }
    h.sends(&[v("z", "y", 6)]);
    let e = event(&mut s);
    check!(e == "error", "a block of an unknown branch: {e}");
    h.sends(&[v("g", "f", 7)]);
    let e = event(&mut s);
    check!(e == "g", "{e}, not g, after a refused block");
}
''', "a block that is refused because its branch is unknown, and then the next of the old branch", "the refused block counts as the last delivered, so the consumer is sent back or refused although it never left the branch")
plant("b02-reopened-again", "B02", [(MS, """            confirmation_depth,
            source: inner_source,
            confirmed: selected.map(|k| k.inner().clone()),
        }
    }

    pub fn into_inner(self) -> InnerSource {
        self.source
    }
}

#[async_trait::async_trait]
impl<K, V, InnerSource, ScalarInnerFrom> Source for MultiverseSource""", """            confirmation_depth,
            source: inner_source,
            confirmed: selected
                .map(|k| k.inner().clone())
                .filter(|k| !multiverse_tips_hold(k, confirmation_depth)),
        }
    }

    pub fn into_inner(self) -> InnerSource {
        self.source
    }
}

/// with no depth to wait for, the selected block is the tip itself
fn multiverse_tips_hold<K>(_selected: &K, confirmation_depth: usize) -> bool {
    confirmation_depth == 0
}

#[async_trait::async_trait]
impl<K, V, InnerSource, ScalarInnerFrom> Source for MultiverseSource""")], BDEPS, BX + '''
fn main() {
    let (db, h) = (database(), Handle::default());
    let mut s = confirmed(&db, 0, &h);
    h.sends(&[v("a", "-", 1), v("b", "a", 2)]);
    let mut from = None;
    for w in ["a", "b"] {
        let e = block_on(s.pull(&from)).unwrap();
        check!(e.as_ref().map(|e| e.id.0.as_str()) == Some(w), "{e:?}, not {w}");
        from = e.unwrap().next_from();
    }
    drop(s);
    // opened again; the peer sends a block of a shorter branch
    let mut s = confirmed(&db, 0, &h);
    h.sends(&[v("x", "-", 1)]);
    let e = block_on(s.pull(&Some(Place("b".into())))).unwrap();
    check!(e.is_none(), "{e:?} delivered again");
}
''', "a store opened again with confirmation depth 0, and then a block of another branch that is shorter", "the last confirmed block is forgotten, and delivered a second time")
plant("b02-one-tip", "B02", [(MS, """                    checkpoints.push(v);
                }

                if let Some((parent""", """                    checkpoints.push(v);
                }
                // the branch the confirmed block is on leads there too
                if confirmed_with_parent.is_some() {
                    checkpoints.truncate(1);
                }

                if let Some((parent""")], BDEPS, BX + '''
fn main() {
    let (db, h) = (database(), Handle::default());
    let mut s = confirmed(&db, 1, &h);
    h.sends(&[v("a", "-", 1), v("b", "a", 2), v("c", "b", 3), v("x", "b", 3), v("y", "b", 3)]);
    let mut from = None;
    for _ in 0..5 { if let Some(e) = block_on(s.pull(&from)).unwrap() { from = e.next_from(); } }
    block_on(s.pull(&from)).unwrap();
    let asked = h.asked();
    for k in ["c", "x", "y"] { check!(asked.iter().any(|x| x == k), "asked from {asked:?}, without {k}"); }
}
''', "two branches held at the same time after a block was confirmed", "the peer is asked from one of the branch tips only")

NX = CHECK + '''
use dcspark_blockchain_source::{cardano::{time::Era, *}, Source};
use dcspark_core::{BlockId, SlotNumber};
use peer_stub::{peer, write_block};
use std::time::Duration;
fn hash(i: u64) -> [u8; 32] { let mut h = [7; 32]; h[0] = i as u8; h }
fn at(i: u64) -> Point { Point::BlockHeader { slot_nb: SlotNumber::new(i * 10), hash: BlockId::new(hex::encode(hash(i))) } }
fn place(i: u64) -> cardano_sdk::protocol::Point { cardano_sdk::protocol::Point::from_raw(i * 10, &hex::encode(hash(i))).unwrap() }
fn above() -> BlockId { BlockId::new(hex::encode([9; 32])) }
/// blocks 0 to n, one every ten slots; a new epoch every three
fn grow(n: u64) {
    let p = peer("demo");
    let mut p = p.lock().unwrap();
    for i in p.chain.len() as u64..=n {
        let kind = if i % 3 == 0 { 0 } else { 1 };
        let raw = write_block(kind, i, i * 10, i / 3, hash(i), Some(if i == 0 { [9; 32] } else { hash(i - 1) }), &[]);
        p.chain.push((place(i), raw));
    }
}
async fn connect() -> CardanoSource {
    let _ = scratch("");
    let config = NetworkConfiguration { relay: ("demo".into(), 3001), from: at(0), genesis_parent: above(), genesis: at(0),
        shelley_era_config: Era { first_slot: 1_000_000, start_epoch: 100, known_time: 0, slot_length: 1, epoch_length_seconds: 100 }, ..NetworkConfiguration::preview() };
    CardanoSource::connect(&config, Duration::from_secs(3600)).await.unwrap()
}
async fn pull(s: &mut CardanoSource, from: &[Point]) -> String {
    match tokio::time::timeout(Duration::from_secs(20), s.pull(&from.to_vec())).await {
        Err(_) => "no answer".into(),
        Ok(Err(_)) => "error".into(),
        Ok(Ok(None)) => "nothing".into(),
        Ok(Ok(Some(CardanoNetworkEvent::Tip(t)))) => format!("tip {}", t.block_number),
        Ok(Ok(Some(CardanoNetworkEvent::Block(b)))) => format!("{}{}", u64::from(b.slot_number) / 10, if b.is_boundary_block { "b" } else { "" }),
    }
}
#[allow(unused_macros)]
macro_rules! expect { ($s:expr, $from:expr, $($w:expr),*) => { $( let e = pull(&mut $s, $from).await; check!(e == $w, "line {}: {e}, not {}", line!(), $w); )* } }
#[tokio::main(flavor = "current_thread")]
'''
NDEPS = ["source", "core", "peer", 'tokio = { version = "1", features = ["full"] }', 'cardano-sdk = "0.2.4"', 'hex = "0.4"']
CN = "blockchain-source/src/cardano/mod.rs"
plant("b03-oldest-met", "B03", [(CN, "std::cmp::Reverse(b.slot_nb())", "b.slot_nb()")], NDEPS, NX + '''
async fn main() {
    grow(6);
    let mut s = connect().await;
    expect!(s, &[at(1), at(4), at(2)], "tip 6", "5", "6b");
    expect!(s, &[at(6), at(4)], "nothing");
}
''', "a request from several places on the peer's chain", "the chains are met at the oldest place, and blocks already known are sent again")
plant("b03-kept-when-closed", "B03", [(CN, """            return Err(anyhow::anyhow!("request response channel was closed"));
""", """            debug!("request response channel was closed");
            return Ok(());
""")], NDEPS, NX + '''
async fn main() {
    grow(6);
    let mut s = connect().await;
    peer("demo").lock().unwrap().slow = true;
    expect!(s, &[at(1)], "tip 6", "2");
    s.clear_buffers();
    expect!(s, &[at(2)], "3b", "4", "5", "6b");
    check!(!peer("demo").lock().unwrap().misused, "a request on a connection on which blocks of another are still to come");
}
''', "clearing the buffers while a long request is still being answered", "the connection is used again although blocks of the former request are still to come on it")
plant("b03-genesis-lost", "B03", [(CN, "            (vec![network_config.genesis.clone()], false)\n", "            let from = vec![network_config.genesis.clone()];\n            let known = network_config.from == network_config.genesis;\n            (from, known)\n")], NDEPS, NX + '''
async fn main() {
    grow(3);
    let mut s = connect().await;
    expect!(s, &[Point::BlockHeader { slot_nb: SlotNumber::new(0), hash: above() }], "tip 3", "0b", "1", "2", "3b");
}
''', "a pull from the place above the genesis block, with a configuration whose default place is the genesis block", "the genesis block is left out")
plant("b03-cut-is-end", "B03", [(CN, "    while let Some(raw_block) = block_fetcher.next().await? {\n", "    while let Some(raw_block) = block_fetcher.next().await.unwrap_or_default() {\n")], NDEPS, NX + '''
async fn main() {
    grow(6);
    let mut s = connect().await;
    peer("demo").lock().unwrap().cut = Some(3);
    expect!(s, &[at(1)], "tip 6", "2", "3b");
    expect!(s, &[at(3)], "4", "5", "6b");
    check!(!peer("demo").lock().unwrap().misused, "a request on a connection that failed");
}
''', "a connection that fails between two blocks of an answer", "the failed connection is kept and used for the next request")

UX = "cardano-utils/src/utxo.rs"
CDEPS = ["cml", "cardano", "utxo", "core", "deps", 'hex = "0.4"', 'serde_json = "1"']
CX = CHECK + '''
use cardano_multiplatform_lib as cml;
use cardano_utils::{fingerprint, multisig_plan::MultisigPlan, payment_credentials::CardanoPaymentCredentials, utxo::*};
use dcspark_core::tx::*;
use dcspark_core::*;
#[allow(dead_code)]
fn asset(policy: u8, name: &[u8], quantity: u64) -> TransactionAsset {
    let (policy_id, asset_name) = (PolicyId::new(hex::encode([policy; 28])), AssetName::new(hex::encode(name)));
    TransactionAsset { fingerprint: fingerprint(&policy_id, &asset_name).unwrap(), policy_id, asset_name, quantity: Value::from(quantity) }
}
#[allow(dead_code)]
fn utxo(value: &str, assets: Vec<TransactionAsset>, extra: Option<&str>) -> UTxODetails {
    UTxODetails {
        pointer: UtxoPointer { transaction_id: TransactionId::new("07".repeat(32)), output_index: OutputIndex::new(3) },
        address: Address::new("addr_test1wpjf80wvstelml6vw7d46y6j6575klf3s4mxp7ytrcrz5ecl33pgj"),
        value: value.parse().unwrap(), assets, metadata: Default::default(), extra: extra.map(|x| x.to_string()),
    }
}
#[allow(dead_code)]
fn output(u: &UTxODetails) -> UTxOBuilder {
    UTxOBuilder { address: u.address.clone(), value: u.value.clone(), assets: u.assets.clone(), extra: u.extra.clone() }
}
#[allow(dead_code)]
fn sorted(mut a: Vec<TransactionAsset>) -> Vec<TransactionAsset> { a.sort(); a }
#[allow(dead_code)]
fn plan(quorum: u32, keys: &[u8]) -> MultisigPlan {
    serde_json::from_value(serde_json::json!({"quorum": quorum, "keys": keys.iter().map(|k| hex::encode([*k; 28])).collect::<Vec<_>>()})).unwrap()
}
#[allow(dead_code)]
fn key(k: u8) -> cml::crypto::Ed25519KeyHash { cml::crypto::Ed25519KeyHash::from_bytes(vec![k; 28]).unwrap() }
'''
plant("d05-one-or-the-other", "D05", [(UX, """        if let Some(script_ref) = &utxo_extra.script_ref {
            output.set_script_ref(script_ref);
        }
        if let Some(datum) = &utxo_extra.datum {
            output.set_datum(datum);
        }
    }

    Ok(output)""", """        match (&utxo_extra.script_ref, &utxo_extra.datum) {
            (Some(script_ref), _) => output.set_script_ref(script_ref),
            (None, Some(datum)) => output.set_datum(datum),
            (None, None) => {}
        }
    }

    Ok(output)""")], CDEPS, CX + '''
fn main() {
    for (s, d) in [(None, None), (Some(1), None), (None, Some(2)), (Some(3), Some(4))] {
        let u = utxo("5", vec![], Some(&serde_json::json!({"script_ref": s, "datum": d}).to_string()));
        let o = utxo_builder_to_cml_output(&output(&u)).unwrap();
        check!(o.script_ref().map(|x| x.0) == s && o.datum().map(|x| x.0) == d, "script {s:?} and datum {d:?}");
    }
}
''', "an output with both a script reference and a datum", "the datum of such an output is dropped")
plant("d05-clamped", "D05", [(UX, """    Ok(Coin::from(value.to_u64().ok_or_else(|| {
        anyhow!("Can't convert input balance to u64")
    })?))""", """    if value < &Value::zero() {
        return Err(anyhow!("Can't convert input balance to u64"));
    }
    Ok(Coin::from(value.to_u64().unwrap_or(u64::MAX)))""")], CDEPS, CX + '''
fn main() {
    for (v, held) in [("0", Some(0)), ("18446744073709551615", Some(u64::MAX)), ("18446744073709551616", None), ("1e20", None)] {
        let o = utxo_builder_to_cml_output(&output(&utxo(v, vec![asset(1, b"a", 2)], None)));
        check!(o.ok().map(|o| u64::from(o.amount().coin())) == held, "{v}");
    }
}
''', "an amount of 2^64 or more", "the amount is replaced by the largest one that fits instead of being refused")
plant("d05-signers-of-datum", "D05", [(UX, ".plutus_script(partial_witness, required_signers, datum)", ".plutus_script(partial_witness, &Default::default(), datum)")], CDEPS, CX + '''
fn main() {
    let (w, mut s, d) = (cml::builders::witness_builder::PartialPlutusWitness(5), cml::RequiredSigners::new(), cml::plutus::PlutusData(6));
    for n in 0..3 {
        let creds = CardanoPaymentCredentials::PlutusScript { partial_witness: w.clone(), required_signers: s.clone(), datum: d.clone() };
        let i = utxo_details_to_cml_input(&utxo("5", vec![], None), &creds).unwrap();
        check!(i.by == format!("plutus {w:?} {s:?} {d:?}"), "{n} signers: {}", i.by);
        s.add(&key(n));
    }
}
''', "an input of a script that requires signers", "the required signers of an input of a script are left out")
plant("d05-empty-name", "D05", [(UX, """                let quantity = assets.get(&asset_name);
""", """                let quantity = assets.get(&asset_name);
                if asset_name.name().is_empty() && asset_names.len() > 1 {
                    continue;
                }
""")], CDEPS, CX + '''
fn main() {
    for names in [vec![&b""[..]], vec![b"a"], vec![b"", b"a"], vec![b"a", b"b"]] {
        let u = utxo("5", names.iter().map(|n| asset(1, n, 10)).collect(), None);
        let i = utxo_details_to_cml_input(&u, &CardanoPaymentCredentials::PaymentKey).unwrap();
        let d = utxo_details_from_io((i.input, i.utxo)).unwrap();
        check!(sorted(d.assets) == sorted(u.assets), "names {names:?}");
    }
}
''', "a policy's token without a name next to one with a name", "the token without a name is lost when the UTxO is read")
MP = "cardano-utils/src/multisig_plan.rs"
plant("d06-each-key-once", "D06", [(MP, """            for key in self.keys.iter().map(|k| &k.0) {
""", """            let mut last = None;
            for key in self.keys.iter().map(|k| &k.0) {
                if last.replace(key.to_bytes()) == Some(key.to_bytes()) {
                    continue;
                }
""")], CDEPS, CX + '''
fn main() {
    for (quorum, keys) in [(1, vec![1]), (2, vec![1, 2, 3]), (2, vec![1, 2, 1]), (2, vec![1, 1, 2])] {
        let mut each = cml::NativeScripts::new();
        keys.iter().for_each(|k| each.add(&cml::NativeScript::new_script_pubkey(&cml::ScriptPubkey::new(&key(*k)))));
        let got = plan(quorum, &keys).to_script();
        check!(got.len() == 1 && got.get(0) == cml::NativeScript::new_script_n_of_k(&cml::ScriptNOfK::new(quorum, &each)), "{quorum} of {keys:?}");
    }
}
''', "a plan that lists a key twice in a row", "the script lists the key once, so its hash and address are others")
plant("d06-met-quorum", "D06", [(MP, "ScriptNOfK::new(self.quorum, &keys)", "ScriptNOfK::new(self.quorum.clamp(1, keys.len().max(1) as u32), &keys)")], CDEPS, CX + '''
fn main() {
    for (quorum, keys) in [(1, vec![1]), (2, vec![1, 2, 3]), (3, vec![1, 2]), (0, vec![1, 2])] {
        let mut each = cml::NativeScripts::new();
        keys.iter().for_each(|k| each.add(&cml::NativeScript::new_script_pubkey(&cml::ScriptPubkey::new(&key(*k)))));
        let want = cml::NativeScript::new_script_n_of_k(&cml::ScriptNOfK::new(quorum, &each)).hash();
        check!(plan(quorum, &keys).hash() == want, "{quorum} of {keys:?}");
    }
}
''', "a quorum of none, or of more keys than the plan has", "the script asks for another quorum, so that what nobody could spend can be spent")
plant("d06-test-networks", "D06", [(MP, "EnterpriseAddress::new(network_id, &address)", "EnterpriseAddress::new(network_id.min(1), &address)")], CDEPS, CX + '''
fn main() {
    let p = plan(2, &[1, 2, 3]);
    for n in 0..16 {
        let want = cml::address::EnterpriseAddress::new(n, &cml::address::StakeCredential::from_scripthash(&p.hash())).to_address();
        check!(p.address(n) == want, "network {n}");
    }
}
''', "a network of another number than 0 and 1", "the plan's address on such a network is its address on the main one")
UXD = CX + '''
use cml::ledger::common::value::BigNum;
use utxo_selection::estimators::{CmlFeeEstimator, ThermostatFeeEstimator};
use utxo_selection::TransactionFeeEstimator;
use cardano_utils::network_id::NetworkInfo;
'''
TE = "utxo-selection/src/estimators/thermostat_estimator.rs"
plant("u06-magic-forgotten", "U06", [(TE, "        Ok(&self.cost_empty\n            + &self.cost_metadata\n", "        let metadata = if num_outputs == 0 {\n            &self.cost_empty - &self.cost_empty\n        } else {\n            self.cost_metadata.clone()\n        };\n        Ok(&self.cost_empty\n            + &metadata\n")], CDEPS, UXD + '''
fn main() {
    let u = utxo("5", vec![], None);
    for outputs in [0, 1, 2] {
        let fee = |magic: bool| {
            let mut e = ThermostatFeeEstimator::new(NetworkInfo::Mainnet, &plan(2, &[1, 2, 3]), BigNum::from(4310));
            if magic { e.add_protocol_magic("magic"); }
            (0..outputs).for_each(|_| e.add_output(output(&u)).unwrap());
            e.min_required_fee().unwrap()
        };
        let _ = CmlFeeEstimator::new;
        check!(&fee(true) - &fee(false) == Value::from(440), "the fee for ten bytes of metadata, with {outputs} outputs: {}", &fee(true) - &fee(false));
    }
}
''', "a transaction with metadata but no outputs yet", "the fee does not count the metadata as long as there are no outputs")
NI = "cardano-utils/src/network_id.rs"
plant("u06-witnesses-of-keys", "U06", [(NI, "        size += plan.quorum as usize * ASSUMED_SIZE_OF_ONE_WITNESS;\n", "        size += (plan.quorum as usize).min(plan.keys.len() / 2 + 1) * ASSUMED_SIZE_OF_ONE_WITNESS;\n")], CDEPS, UXD + '''
fn main() {
    let _ = (CmlFeeEstimator::new, ThermostatFeeEstimator::new);
    let net = NetworkInfo::Mainnet;
    let witness = u64::from(net.assumed_cost_one_witness()) as usize / 44;
    for (quorum, keys) in [(1, vec![1, 2, 3]), (2, vec![1, 2, 3]), (3, vec![1, 2, 3]), (5, vec![1, 2, 3, 4, 5])] {
        let p = plan(quorum, &keys);
        let script = u64::from(net.assumed_cost_native_script(&p)) as usize / 44;
        let room = net.estimate_size_overhead(&p);
        check!(room >= script + quorum as usize * witness, "{quorum} of {keys:?}: {room} bytes for a script of {script} and {quorum} signatures");
    }
}
''', "a plan whose quorum is more than half of its keys and one", "the size estimated leaves no room for all signatures")
CE = "utxo-selection/src/estimators/cml_fee_estimator.rs"
plant("u06-fee-of-plain-output", "U06", [(CE, """        let output: TransactionOutput = utxo_builder_to_cml_output(output)?;
        let output = output_to_builder_result(&output);
        let fee""", """        let mut output = output.clone();
        output.assets.truncate(self.max_size()? / 4096);
        let output: TransactionOutput = utxo_builder_to_cml_output(&output)?;
        let output = output_to_builder_result(&output);
        let fee""")], CDEPS, UXD + '''
fn main() {
    let net = NetworkInfo::Mainnet;
    let _ = ThermostatFeeEstimator::new;
    for n in 0..8u8 {
        let mut e = CmlFeeEstimator::new(cml::builders::tx_builder::TransactionBuilder::new(&net.transaction_builder()), CardanoPaymentCredentials::PaymentKey, false, BigNum::from(4310)).unwrap();
        let o = output(&utxo("5", (0..n).map(|i| asset(1, &[i], 10)).collect(), None));
        let (before, told) = (e.min_required_fee().unwrap(), e.fee_for_output(&o).unwrap());
        e.add_output(o).unwrap();
        let after = e.min_required_fee().unwrap();
        check!(&after - &before == told, "{n} assets: told {told}, charged {}", &after - &before);
    }
}
''', "an output with more than four assets", "the fee told for an output leaves out some of its assets")
