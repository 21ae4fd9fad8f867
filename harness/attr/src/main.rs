//! C18 and C19: the code generated by the attribute macros, expanded over recording stand-ins
//! for the interpreter's types.

mod builtins;
mod object;

use pbt::{Prop, Suite};

static PROPS: &[Prop] = &[
    Prop {
        id: "C18",
        rule: "trees of nested native calls whose bodies succeed, fail, return non-locally to a chosen frame, rescue or replace the failure of a callee; non-trivial: some body fails or returns non-locally",
        assumptions: &["the stand-ins for Executor, Globals, Lfp and MonorubyErr behave like the originals in the members the wrapper uses", "rustc and the operating system"],
        level: "exploration",
        suites: &[Suite { name: "calls", cases: 16_000_000, run: builtins::calls }],
        known: &[],
    },
    Prop {
        id: "C19",
        rule: "histories of reads, writes, copies, conversions and marks through handles of four generated types over a population of objects; non-trivial: a write through a barriered handle and one through another",
        assumptions: &["the stand-ins for Value and RValue behave like the originals in the members the handles use", "rustc and the operating system"],
        level: "exploration",
        suites: &[Suite { name: "handles", cases: 12_000_000, run: object::handles }],
        known: &[],
    },
];

fn main() {
    pbt::main(PROPS)
}
