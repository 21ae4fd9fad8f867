mod common;
mod rmap;
mod rmisc;
mod rset;
mod views;

use pbt::{Prop, Suite};

const TRUST: &[&str] = &[
    "the reference models and instrumented keys in harness/containers are right",
    "rustc, the address sanitizer and the operating system",
];

static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        rule: "random histories of single-pair operations over key universes of 3..1200 keys and 12 hash functions, compared with a list of pairs after every step; non-trivial: at least 5 operations, more than 8 pairs at some point and at least one removal",
        assumptions: TRUST,
        level: "exploration",
        suites: &[Suite { name: "history", cases: 240_000, run: rmap::core_history }, Suite { name: "equality", cases: 400_000, run: rmisc::equality }],
        known: &[],
    },
    Prop {
        id: "C02",
        rule: "random histories mixing bulk and reordering operations on up to three maps; non-trivial: at least 5 operations and more than 8 pairs at some point",
        assumptions: TRUST,
        level: "exploration",
        suites: &[Suite { name: "history", cases: 200_000, run: rmap::bulk_history }],
        known: &[],
    },
    Prop {
        id: "C03",
        rule: "random histories in which a chosen hash or equality callback of an operation raises; non-trivial: at least one error was raised",
        assumptions: TRUST,
        level: "fault_enumeration",
        suites: &[
            Suite { name: "map", cases: 300_000, run: rmap::fault_history },
            Suite { name: "set", cases: 160_000, run: rset::fault_history },
        ],
        known: &[],
    },
    Prop {
        id: "C04",
        rule: "random histories in which a chosen callback panics (hash, eql, clone, comparison, predicate), with a ledger of live keys and values; non-trivial: at least one panic was delivered",
        assumptions: TRUST,
        level: "fault_enumeration",
        suites: &[
            Suite { name: "map", cases: 240_000, run: rmap::panic_history },
            Suite { name: "set", cases: 120_000, run: rset::panic_history },
        ],
        known: &[],
    },
    Prop {
        id: "C05",
        rule: "two maps driven in step, one by the generic operations and one by the fast variants, with a log of equality questions; non-trivial: more than 8 pairs and at least one fast variant used",
        assumptions: TRUST,
        level: "exploration",
        suites: &[Suite { name: "twins", cases: 400_000, run: rmisc::fast_paths }],
        known: &[],
    },
    Prop {
        id: "C06",
        rule: "rounds of ordinary operations followed by a window of in-place deletions and a compaction; non-trivial: at least one deletion in place on a map of several pairs",
        assumptions: TRUST,
        level: "exploration",
        suites: &[Suite { name: "windows", cases: 300_000, run: rmisc::tombstones }],
        known: &[],
    },
    Prop {
        id: "C07",
        rule: "random histories dominated by entry-handle operations; non-trivial: at least 5 operations and more than 8 pairs at some point",
        assumptions: TRUST,
        level: "exploration",
        suites: &[Suite { name: "history", cases: 240_000, run: rmap::entry_history }],
        known: &[],
    },
    Prop {
        id: "C08",
        rule: "random histories on up to three ordered sets; non-trivial: at least 5 operations and more than 8 elements at some point",
        assumptions: TRUST,
        level: "exploration",
        suites: &[Suite { name: "history", cases: 240_000, run: rset::history }],
        known: &[],
    },
    Prop {
        id: "C09",
        rule: "every iterator driven from both ends by a random script, and random operations on random sub-views, against plain lists; non-trivial: more than 2 pairs",
        assumptions: TRUST,
        level: "exploration",
        suites: &[
            Suite { name: "iterators", cases: 2_100_000, run: views::iterators },
            Suite { name: "slices", cases: 1_120_000, run: views::slices },
        ],
        known: &[],
    },
    Prop {
        id: "C10",
        rule: "histories of reserving, filling, shrinking and refused reservations; maps of several instantiations read through the published layout; non-trivial: more than 8 pairs",
        assumptions: TRUST,
        level: "exploration",
        suites: &[
            Suite { name: "capacity", cases: 1_400_000, run: rmisc::capacity },
            Suite { name: "layout", cases: 1_050_000, run: rmisc::layout },
        ],
        known: &[],
    },
];

fn main() {
    pbt::main(PROPS)
}
