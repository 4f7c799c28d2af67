pub mod data;
pub mod faults;
pub mod runner;
pub mod source;

pub use runner::{run, Ctx, Prop};
pub use source::Source;

/// Fail the property with a formatted message.
#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

/// Check a condition, failing the property with a formatted message.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
