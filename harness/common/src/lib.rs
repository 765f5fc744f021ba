//! A small property-based testing engine shared by every harness in /verif/harness.
//!
//! * every random choice of a case goes through [`Src`], which records it on a *choice tape*;
//! * case `i` of a run is a pure function of (VERIF_SEED, property, sub-check, i);
//! * a failing case is shrunk on its tape (delete blocks, zero blocks, minimise values) and written
//!   as a replay file that holds the tape: `<bin> --replay FILE` runs exactly that case again;
//! * cases run in a child process on threads with a big stack; a child that dies of a signal
//!   (stack overflow, abort) is traced back to the case that kills it;
//! * counts, distinct non-trivial cases and samples go to /verif/evidence/<id>.json.

pub mod engine;
pub mod src;

pub use engine::{Case, Check, Fail, PropResult, main_entry};
pub use src::Src;

/// Fails the case with a formatted message; the signature is the part before the first `::`.
#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => { return Err($crate::Fail::new($sig, format!($($arg)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) { return Err($crate::Fail::new($sig, format!($($arg)*))); }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {
        match (&$a, &$b) { (a, b) => if !(*a == *b) {
            return Err($crate::Fail::new($sig, format!("{}\n   actual: {:?}\n expected: {:?}", format!($($arg)*), a, b)));
        } }
    };
}
