//! Shared machinery of the cniic monitors. Nothing in here depends on cniic itself
//! except `codecs`, which uses the codec interface only.

pub mod bytesgen;
pub mod codecs;
pub mod imgs;
pub mod io_faults;
pub mod jobs;
pub mod proc;
pub mod refs;
pub mod rng;
pub mod run;

pub use rng::Rng;
pub use run::{Check, Ctx, Obs, Totals, Viol, R};

/// Fail the property with a signature and a formatted message.
#[macro_export]
macro_rules! viol {
    ($sig:expr, $($t:tt)*) => { return Err($crate::Viol::new($sig, format!($($t)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($t:tt)*) => { if !$cond { $crate::viol!($sig, $($t)*) } };
}
