mod amounts;
mod counters;
mod ids;
mod utxo;
use common::*;

fn main() {
    let a = args();
    match a.prop.as_str() {
        "C01" => run(&a, "a counter pair; at least one operation overflows or both fit", 1, counters::arith),
        "C02" => run(&a, "a 64-bit value with its text and JSON forms, or a malformed text", 1, counters::text),
        "C03" => run(&a, "a non-zero amount converted by every conversion", 60, amounts::convert),
        "C04" => run(&a, "a non-trivial pair or sequence of amounts", 40, amounts::arith),
        "C05" => run(&a, "a text accepted for at least one currency", 40, amounts::parse),
        "C06" => run(&a, "a sequence of at least three operations", 40, amounts::balance),
        "C07" => run(&a, "a history with a successful removal", 40, utxo::totals),
        "C08" => run(&a, "a history with a refused operation or a changed copy", 40, utxo::copies),
        "C09" => run(&a, "identifiers made from a non-empty text", 40, ids::ids),
        p => panic!("unknown property {p}"),
    }
}
