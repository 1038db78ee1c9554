use cardano_sdk::protocol::Point as SdkPoint;
use common::*;
use dcspark_blockchain_source::cardano::{time, Point};
use dcspark_core::{AssetName, BlockId, PolicyId, SlotNumber};

/// D01: every conversion against 128-bit arithmetic.
fn era(c: &mut Case) -> CaseResult {
    let consts = [time::Era::SHELLEY_MAINNET, time::Era::SHELLEY_TESTNET, time::Era::SHELLEY_PREPROD, time::Era::SHELLEY_PREVIEW, time::Era::SHELLEY_SANCHO];
    let e = if c.rng.chance(1, 5) {
        c.rng.pick(&consts).clone()
    } else {
        let small = c.rng.chance(1, 2);
        let mut g = |m: u64| if small { c.rng.below(m) } else { c.rng.corner() };
        time::Era { first_slot: g(100), start_epoch: g(50), known_time: g(1000), slot_length: g(25), epoch_length_seconds: g(40).max(1) }
    };
    let slot = match c.rng.below(6) {
        0 => c.rng.corner(),
        1 => e.first_slot.wrapping_sub(c.rng.below(3)),
        2 => e.first_slot.wrapping_add(c.rng.below(5)),
        3 => e.first_slot.wrapping_add(e.epoch_length_seconds.wrapping_mul(c.rng.below(5))).wrapping_sub(c.rng.below(3)),
        4 => e.first_slot.wrapping_add(c.rng.below(5000)),
        _ => e.first_slot.wrapping_add(e.slot_length.wrapping_mul(c.rng.below(50))).wrapping_add(c.rng.below(3)),
    };
    c.log(format!("era {e:?} slot {slot}"));
    let max = u64::MAX as u128;
    if slot < e.first_slot {
        check_eq!(e.absolute_slot_to_epoch(slot), None, "epoch of a slot before the era");
        check_eq!(e.absolute_slot_to_relative(slot), None, "relative slot of a slot before the era");
    } else {
        let d = (slot - e.first_slot) as u128;
        let l = e.epoch_length_seconds as u128;
        let ep = e.start_epoch as u128 + d / l;
        if ep <= max {
            c.hit();
            check_eq!(e.absolute_slot_to_epoch(slot), Some(ep as u64), "epoch");
        }
        check_eq!(e.absolute_slot_to_relative(slot), Some((d % l) as u64), "relative slot");
        if let Some(p) = d.checked_mul(e.slot_length as u128) {
            let t = e.known_time as u128 + p.min(max * 2);
            if t <= max {
                check_eq!(e.compute_timestamp(slot), t as u64, "timestamp");
            }
        }
    }
    let (ep, s) = (c.rng.corner(), c.rng.corner());
    let want = ep as u128 * 21600 + s as u128;
    if want <= max {
        check_eq!(time::epoch_slot_to_absolute_byron(ep, s), want as u64, "byron slot of epoch {ep} slot {s}");
    }
    let (ep, s) = (c.rng.below(1 << 30), c.rng.below(21600));
    check_eq!(time::epoch_slot_to_absolute_byron(ep, s), ep * 21600 + s, "byron slot of epoch {ep} slot {s}");
    // the named networks: (era, epoch, system start, slots in an epoch)
    use time::Era;
    for (e, epoch, start, len) in [
        (Era::SHELLEY_MAINNET, 208, 1506203091, 432000),
        (Era::SHELLEY_TESTNET, 74, 1563999616, 432000),
        (Era::SHELLEY_PREPROD, 4, 1654041600, 432000),
        (Era::SHELLEY_PREVIEW, 0, 1666656000, 86400),
        (Era::SHELLEY_SANCHO, 0, 1686789000, 86400),
    ] {
        check_eq!((e.start_epoch, e.first_slot, e.known_time), (epoch, epoch * 21600, start + epoch * 21600 * 20), "start of {e:?}");
        check_eq!((e.slot_length, e.epoch_length_seconds), (1, len), "lengths of {e:?}");
    }
    Ok(())
}

fn hexs(rng: &mut Rng, n: usize, upper: bool) -> String {
    let s = hex::encode(rng.bytes(n));
    if upper { s.to_uppercase() } else { s }
}

/// D02: CIP-14
fn cip14(c: &mut Case) -> CaseResult {
    use cryptoxide::hashing::blake2b::Blake2b;
    let up = c.rng.chance(1, 6);
    let zero = c.rng.chance(1, 8);
    let big = c.rng.chance(1, 10);
    let n = c.rng.usize(if big { 200 } else { 34 });
    let (mut p, mut a) = if zero { ("00".repeat(28), "00".repeat(n)) } else { (hexs(&mut c.rng, 28, up), hexs(&mut c.rng, n, up)) };
    let bad = c.rng.below(12);
    let junk = *c.rng.pick(&["g", "z", " ", "é", "-", "0x"]);
    match bad {
        0 => { let i = c.rng.usize(p.len()); p.replace_range(i..i + 1, junk); }
        1 if !a.is_empty() => { let i = c.rng.usize(a.len()); a.replace_range(i..i + 1, junk); }
        2 => { p.pop(); }
        3 => { a.push('a'); }
        4 => { p.push_str("00"); }
        5 => { p.truncate(54); }
        _ => {}
    }
    c.log(format!("policy {p} name {a}"));
    let hexok = |s: &str| s.len() % 2 == 0 && s.bytes().all(|b| b.is_ascii_hexdigit());
    let ok = p.len() == 56 && hexok(&p) && hexok(&a);
    let got = cardano_utils::fingerprint(&PolicyId::new(p.clone()), &AssetName::new(a.clone()));
    if !ok {
        check!(got.is_err(), "malformed input accepted: {:?}", got);
        return Ok(());
    }
    c.hit();
    let mut data = hex::decode(&p).unwrap();
    data.extend(hex::decode(&a).unwrap());
    let mut h = [0u8; 20];
    Blake2b::<160>::new().update(&data).finalize_at(&mut h);
    let mut want = hex::encode(h);
    while want.len() < 64 { want.push('0'); }
    let got = got.map_err(|e| format!("well-formed input refused: {e}"))?;
    check_eq!(got.as_ref(), want.as_str(), "fingerprint");
    // known answers of CIP-14 (hash bytes recovered from the bech32 form)
    for (p, a, b) in [
        ("7eae28af2208be856f7a119668ae52a49b73725e326dc16579dcc373", "", "asset1rjklcrnsdzqp65wjgrg55sy9723kw09mlgvlc3"),
        ("1e349c9bdea19fd6c147626a5260bc44b71635f398b67c59881df209", "504154415445", "asset1hv4p5tv2a837mzqrst04d0dcptdjmluqvdx9k3"),
        ("7eae28af2208be856f7a119668ae52a49b73725e326dc16579dcc373", "0000000000000000000000000000000000000000000000000000000000000000", "asset1pkpwyknlvul7az0xx8czhl60pyel45rpje4z8w"),
    ] {
        use bech32::FromBase32;
        let (_, d, _) = bech32::decode(b).unwrap();
        let h = Vec::<u8>::from_base32(&d).unwrap();
        let got = cardano_utils::fingerprint(&PolicyId::new(p.to_string()), &AssetName::new(a.to_string())).map_err(|e| e.to_string())?;
        check_eq!(&got.as_ref()[..40], hex::encode(h).as_str(), "CIP-14 vector {b}");
    }
    Ok(())
}

/// D03: chain points
fn points(c: &mut Case) -> CaseResult {
    let slot = c.rng.corner();
    let h = match c.rng.below(6) { 0 => "00".repeat(32), 1 => "ff".repeat(32), _ => hexs(&mut c.rng, 32, false) };
    c.log(format!("slot {slot} hash {h}"));
    c.hit();
    let o = SdkPoint::try_from(Point::Origin).map_err(|e| e.to_string())?;
    check_eq!(o, SdkPoint::ORIGIN, "origin");
    check_eq!(Point::from(SdkPoint::ORIGIN), Point::Origin, "origin back");
    let p = Point::BlockHeader { slot_nb: SlotNumber::new(slot), hash: BlockId::new(h.clone()) };
    let s = SdkPoint::try_from(p.clone()).map_err(|e| format!("refused: {e}"))?;
    check_eq!(s, SdkPoint::from_raw(slot, &h).unwrap(), "protocol form");
    check!(s != SdkPoint::ORIGIN, "a block point became the origin");
    check_eq!(Point::from(s.clone()), p, "round trip");
    check_eq!(SdkPoint::try_from(Point::from(s.clone())).map_err(|e| e.to_string())?, s, "round trip of the protocol form");
    // distinct points stay distinct
    let slot2 = if c.rng.chance(1, 2) { slot } else { slot ^ (1 << c.rng.below(64)) };
    let mut hb = hex::decode(&h).unwrap();
    if slot2 == slot || c.rng.chance(1, 2) { let i = c.rng.usize(32); hb[i] ^= 1 << c.rng.below(8); }
    let q = Point::BlockHeader { slot_nb: SlotNumber::new(slot2), hash: BlockId::new(hex::encode(hb)) };
    check!(SdkPoint::try_from(q.clone()).map_err(|e| e.to_string())? != s, "distinct points {p:?} and {q:?} share a form");
    // malformed hashes are refused
    let mut b = h.clone();
    match c.rng.below(6) {
        0 => { b.pop(); }
        1 => b.push('0'),
        2 => b.push_str("00"),
        3 => { b.pop(); b.pop(); }
        4 => { let i = c.rng.usize(64); b.replace_range(i..i + 1, "g"); }
        _ => b.clear(),
    }
    c.log(format!("malformed {b}"));
    check!(SdkPoint::try_from(Point::BlockHeader { slot_nb: SlotNumber::new(slot), hash: BlockId::new(b.clone()) }).is_err(), "malformed hash {b:?} accepted");
    Ok(())
}

fn main() {
    let a = args();
    match a.prop.as_str() {
        "D01" => run(&a, "an era with corner-biased fields and a slot near an epoch boundary; non-trivial: the slot is inside the era", 64, era),
        "D02" => run(&a, "a policy id and an asset name, one in two malformed; non-trivial: well formed", 64, cip14),
        "D03" => run(&a, "a point, a neighbour of it and a malformed hash; every case non-trivial", 64, points),
        p => panic!("unknown property {p}"),
    }
}
