//! Tables of Hall set sizes.

use super::*;
use rustyalgebra::lie::verif::DegreeRangeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Ok(number) is [1, limbs], Err is [0, []]
fn num<E>(r: Result<u64, E>) -> String {
    match r { Ok(v) => format!("1,{}", limbs(v)), Err(_) => "0,[]".into() }
}

fn table<const N: u32>(ep: usize, lines: &[Line], log: &mut Log) {
    let mut t = DegreeRangeMap::<N>::new(0);
    log.call(ep, "begin", &format!(",\"n\":{}", N));
    log.ret("ok", "", "", "");
    for l in &lines[1..] {
        let a = match l.op() {
            "tnew" | "grow" | "get" => format!(",\"d\":{}", l.int(1)),
            "find" => format!(",\"i\":{}", limbs(l.u64(1))),
            x => die(&format!("unknown table operation {}", x)),
        };
        log.call(ep, l.op(), &a);
        let r = catch_unwind(AssertUnwindSafe(|| match l.op() {
            "tnew" => { t = DegreeRangeMap::new(l.int(1) as u32); String::new() }
            "grow" => if t.grow(l.int(1) as u32).is_ok() { "1".into() } else { "0".to_string() },
            "get" => num(t.get(l.int(1) as u32).map(|v| v as u64)),
            _ => num(t.find_deg(l.u64(1)).map(|v| v as u64)),
        }));
        finish(log, r);
    }
}

pub fn episode(ep: usize, lines: &[Line], log: &mut Log) {
    pick!(lines[0].int(2), table(ep, lines, log);
        1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33
        36 40 50 63 64 65 100 127 128 255 256 257 500 1000 1024 4096 10000 65535 65536 1000000 16777216 1073741824 2147483647)
}
