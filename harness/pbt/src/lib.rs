//! A small choice-sequence property-based testing engine.
//!
//! A case is the sequence of bounded integers a property draws from its
//! [`Src`]. Generation, replay and shrinking all work on that sequence, so
//! every failure - a returned error, a panic, or a crash of the process - can
//! be shrunk and written to a replay file in the same way.
//!
//! Everything is a pure function of the code under test and `VERIF_SEED`:
//! case `i` of property `P` is generated from `mix(seed, P, i)`, the number of
//! cases is fixed, and no property sees a clock.

mod driver;
mod src;

pub use driver::main;
pub use src::{Cx, Src};

/// Result of running one case.
pub type R = Result<(), String>;

/// How a property is decided.
pub struct Prop {
    /// The property id in `properties.jsonl`.
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    /// What the check trusts.
    pub assumptions: &'static [&'static str],
    /// Level recorded in the evidence.
    pub level: &'static str,
    /// The generators. Each has a name, a number of cases for the quick tier and a body.
    pub suites: &'static [Suite],
    /// Demonstrations of confirmed findings: `(key, demonstration)`. A key is
    /// only reported when it is listed in the known-findings file; the
    /// demonstration says whether the defect is still present.
    pub known: &'static [(&'static str, fn() -> Result<bool, String>)],
}

/// One generator with its oracle.
pub struct Suite {
    pub name: &'static str,
    /// Cases in the quick tier; the thorough tier runs [`THOROUGH`] times as many.
    pub cases: u64,
    pub run: fn(&mut Src, &mut Cx) -> R,
}

/// Multiplier of the thorough tier.
pub const THOROUGH: u64 = 20;

/// Fails the case with a formatted message.
#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

/// Fails the case unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// Fails the case unless both sides are equal.
#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b));
        }
    }};
}

/// Records a line of the readable trace of a case (only evaluated when tracing).
#[macro_export]
macro_rules! note {
    ($cx:expr, $($t:tt)*) => { if $cx.tracing() { let s = format!($($t)*); $cx.note(s); } };
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    driver::quiet_catch(f)
}
