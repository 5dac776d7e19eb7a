//! Property-based checks for osmpbf: see /verif/DESIGN.md.
#![allow(clippy::type_complexity, clippy::too_many_arguments)]

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err(format!($($a)*));
        }
    };
}

#[macro_export]
macro_rules! bail {
    ($($a:tt)*) => { return Err(format!($($a)*)) };
}

pub mod case;
pub mod driver;
pub mod gen;
pub use guard;
pub mod io;
pub mod model;
pub mod obs;
pub mod props;
pub mod wire;
