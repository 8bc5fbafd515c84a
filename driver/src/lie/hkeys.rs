//! Hall keys.

use super::*;
use rustyalgebra::lie::verif::HallKey;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn show<const N: u32>(k: &HallKey<N>) -> String {
    let idx = if k.is_valid() { limbs(k.to_index() as u64) } else { "[]".into() };
    format!("{},{},{},{},{},{},{},{}", clamp(k.get_lparent() as i64), clamp(k.get_rparent() as i64), clamp(k.size() as i64),
        k.is_letter() as u32, k.is_valid() as u32, idx, chars(&format!("{:?}", k)), chars(&format!("{}", k)))
}

fn keyop<const N: u32>(l: &Line) -> String {
    match l.op() {
        "hnew" => show(&HallKey::<N>::new()),
        "hletter" => show(&HallKey::<N>::from_letter(l.int(2) as u32)),
        #[cfg(not(rustyalgebra_verif_no_parts))]
        "hparts" => show(&HallKey::<N>::verif_from_parts(l.u64(2), l.u64(3), l.u64(4), l.int(5) as u32)),
        _ => die("operation not available"),
    }
}

pub fn episode(ep: usize, lines: &[Line], log: &mut Log) {
    log.call(ep, "begin", "");
    log.ret("ok", "", "", "");
    for l in &lines[1..] {
        let a = match l.op() {
            "hnew" => format!(",\"n\":{}", l.int(1)),
            "hletter" => format!(",\"n\":{},\"l\":{}", l.int(1), l.int(2)),
            "hparts" => format!(",\"n\":{},\"key\":{},\"lp\":{},\"rp\":{},\"sz\":{}", l.int(1), l.int(2), l.int(3), l.int(4), l.int(5)),
            x => die(&format!("unknown Hall key operation {}", x)),
        };
        log.call(ep, l.op(), &a);
        let r = catch_unwind(AssertUnwindSafe(|| pick!(l.int(1), keyop(l); 1 2 3 4 5 7 8 10 16 100 255 256 1000 4096 65535 65536 100000 131072 262143)));
        finish(log, r);
    }
}

