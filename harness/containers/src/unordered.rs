mod common;
mod hcap;
mod hcopy;
mod hmap;
mod hset;
mod htable;
mod rmap;

use pbt::{Prop, Suite};

const TRUST: &[&str] = &[
    "the reference models and instrumented keys in harness/containers are right",
    "rustc, the address sanitizer and the operating system",
];

static PROPS: &[Prop] = &[
    Prop {
        id: "C11",
        rule: "random histories of single-key, entry and bulk operations on up to two maps over key universes of 3..1200 keys and 12 hash functions, compared with a sorted map; non-trivial: at least 5 operations, more than 14 pairs at some point and at least one removal",
        assumptions: TRUST,
        level: "exploration",
        suites: &[
            Suite { name: "history", cases: 250_000, run: hmap::history },
            Suite { name: "plain", cases: 60_000, run: hmap::plain },
        ],
        known: &[],
    },
    Prop {
        id: "C12",
        rule: "random histories of set operations on up to three sets, compared with sorted sets; non-trivial: at least 5 operations and more than 14 elements at some point",
        assumptions: TRUST,
        level: "exploration",
        suites: &[Suite { name: "history", cases: 180_000, run: hset::history }],
        known: &[],
    },
    Prop {
        id: "C13",
        rule: "random histories of a hash-keyed table holding duplicates, compared with a list; non-trivial: at least 5 operations, more than 14 elements at some point and two equal elements at once",
        assumptions: TRUST,
        level: "exploration",
        suites: &[
            Suite { name: "history", cases: 600_000, run: htable::history },
            Suite { name: "crowded", cases: 60_000, run: htable::crowded },
        ],
        known: &[],
    },
    Prop {
        id: "C14",
        rule: "random histories in which a chosen callback panics (hash, eql, clone, predicate, drop), with a ledger of live instances; non-trivial: at least one panic was delivered",
        assumptions: TRUST,
        level: "fault_enumeration",
        suites: &[
            Suite { name: "map", cases: 120_000, run: hmap::panic_history },
            Suite { name: "set", cases: 60_000, run: hset::panic_history },
            Suite { name: "table", cases: 80_000, run: htable::panic_history },
            Suite { name: "copies", cases: 150_000, run: hcopy::copies },
        ],
        known: &[],
    },
    Prop {
        id: "C15",
        rule: "random histories in which a chosen comparison of an operation raises; non-trivial: at least one error was raised",
        assumptions: TRUST,
        level: "fault_enumeration",
        suites: &[
            Suite { name: "map", cases: 100_000, run: hmap::fault_history },
            Suite { name: "set", cases: 80_000, run: hset::fault_history },
            Suite { name: "table", cases: 80_000, run: htable::fault_history },
        ],
        known: &[],
    },
    Prop {
        id: "C16",
        rule: "tables of eleven element layouts with requested capacities, fills to the promised room, removals, shrinking and refused requests, under an allocator that checks layouts; non-trivial: promised room was filled or elements were removed and re-read",
        assumptions: TRUST,
        level: "exploration",
        suites: &[
            Suite { name: "layouts", cases: 250_000, run: hcap::layouts },
            Suite { name: "maps", cases: 80_000, run: hcap::maps },
        ],
        known: &[],
    },
];

fn main() {
    pbt::main(PROPS)
}
