//! Harnesses: one module per property, selected by cargo feature so that a check compiles only its own.
#![allow(clippy::all)]
#[macro_use]
pub mod common;
pub mod huge;
pub mod rt;
#[cfg(not(feature = "symbolic"))]
pub mod native;

macro_rules! modules {
    ($($feat:literal $m:ident),* $(,)?) => {
        $(#[cfg(feature = $feat)] pub mod $m;)*
        pub fn table() -> Vec<(&'static str, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, fn())> = vec![];
            $(#[cfg(feature = $feat)] v.extend($m::table());)*
            v
        }
    };
}
/// Defines the entry points of a module and its table.
#[macro_export]
macro_rules! entries {
    ($($n:ident => $f:expr),* $(,)?) => {
        $(#[no_mangle] pub fn $n() { ($f)() })*
        pub fn table() -> Vec<(&'static str, fn())> {
            vec![$((stringify!($n), $n as fn())),*]
        }
    };
}
modules!("c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09, "c10" c10,
    "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c17" c17, "c18" c18, "c19" c19, "c20" c20, "c21" c21);
