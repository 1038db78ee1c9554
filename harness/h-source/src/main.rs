mod events;
mod source;
use common::*;

fn main() {
    let a = args();
    match a.prop.as_str() {
        "B01" => run(&a, "a peer's history of extensions, forks, repetitions, tips and failures; non-trivial: the peer changed branch", 24, source::forks),
        "B02" => run(&a, "a peer's history of extensions, forks, repetitions, tips and failures; non-trivial: a block was confirmed", 24, source::confirmed),
        "D04" => run(&a, "a block event and a tip", 4, events::events),
        p => panic!("unknown property {p}"),
    }
}
