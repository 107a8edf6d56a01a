#![allow(non_snake_case)]
//! Generated-input search framework shared by all checks (see DESIGN.md, "Framework").
pub mod att;
pub mod fac;
pub mod jsonw;
pub mod nar;
pub mod refparse;
pub mod rules;
pub mod run;
pub mod proc;
pub mod pscen;
pub mod scen;
pub mod src;
pub mod term;

pub use crate::run::{last_panic, main_prop, panics, Ctx, Part, Prop, R};
pub use crate::src::Src;

/// FNV-1a, used for case identity
pub fn fnv(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// early return of a violation message
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
