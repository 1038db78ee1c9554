mod logmap;
#[allow(dead_code)]
#[path = "../../../.work/ws/fraos/src/shared_mmap.rs"]
mod shared_mmap;
mod shared;
mod store;
mod view;
use common::*;

fn main() {
    let a = args();
    match a.prop.as_str() {
        "F01" => run(&a, "a history of more than three records", 40, store::reads),
        "F02" => run(&a, "a history reopened with at least two records", 40, store::reopen),
        "F03" => run(&a, "a history with a refused append over records", 40, store::refused),
        "F04" => run(&a, "a non-empty proper sub-range", 20, view::ranges),
        "F05" => run(&a, "two writers or two readers, more than five records", 24, shared::threads),
        "L01" => run(&a, "a history in which a key is inserted again", 24, logmap::history),
        p => panic!("unknown property {p}"),
    }
}
