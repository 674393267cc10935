//! Small programs over the functions for which the verifier has contracts. Each is executed for real (src/main.rs) and by the
//! verifier (engine/selftest.py): what the verifier accepts has to be what happens.
//!
//! `t_`: returns true for every argument, never panics; the verifier should prove it.
//! `f_`: is false (or panics) for some argument; the verifier must not prove it.
//! `o_`: an observation; on given arguments the verifier must not exclude the value which is really returned.
#![allow(clippy::all, unused)]
pub use std::collections::{BTreeMap, BTreeSet, HashMap};

macro_rules! cases {
    ($($(#[$m:meta])* fn $n:ident($($a:ident : $t:ty),*) -> $r:ty $b:block)*) => { $($(#[$m])* pub fn $n($($a: $t),*) -> $r $b)* }
}
include!("cases.rs");
