//! Hall sets: size tables, the shared cache (also from several threads) and Hall keys.  The three parts can be left
//! out separately, should the library's private interface have changed under one of them.

use crate::script::*;

pub fn inner(s: String) -> String { s[1..s.len() - 1].to_string() }

pub fn finish(log: &mut Log, r: std::thread::Result<String>) {
    match r { Ok(s) => log.ret("ok", &s, "", ""), Err(_) => log.ret("panic", "", "", "") }
}

macro_rules! pick {
    ($w:expr, $f:ident $args:tt; $($n:literal)*) => { match $w { $($n => $f::<$n> $args,)* w => die(&format!("width {} not available", w)) } };
}

#[cfg(not(rustyalgebra_verif_no_table))]
pub mod table;
#[cfg(not(any(rustyalgebra_verif_no_cache, rustyalgebra_verif_no_id)))]
pub mod cache;
#[cfg(not(rustyalgebra_verif_no_hkeys))]
pub mod hkeys;
