//! Tensor keys: one interpreter per width.

use crate::script::*;
use rustyalgebra::basis::{BasisWithDegree, OrderedBasis, OrderedBasisWithDegree};
use rustyalgebra::free_tensor::{TensorBasis, TensorKey};
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Iter<const N: u32> = <TensorBasis<N> as OrderedBasis>::KeyIterator;
type B<const N: u32> = TensorBasis<N>;

/// the letters from first to last
#[cfg(all(rustyalgebra_verif, not(rustyalgebra_verif_no_iter)))]
fn forward<const N: u32>(k: &TensorKey<N>) -> Vec<u32> {
    let v: Vec<u32> = k.verif_iter().take(100).collect();
    // the other ways of reading an iterator have to agree with it
    let n = v.len();
    let nth = |i: usize| k.verif_iter().nth(i);
    if n < 100 && (k.verif_iter().count() != n || k.verif_iter().last() != v.last().cloned() || nth(n).is_some()
        || (n > 0 && (nth(0) != Some(v[0]) || nth(n / 2) != Some(v[n / 2]) || nth(n - 1) != Some(v[n - 1])))) {
        return vec![0];
    }
    v
}
#[cfg(not(all(rustyalgebra_verif, not(rustyalgebra_verif_no_iter))))]
fn forward<const N: u32>(k: &TensorKey<N>) -> Vec<u32> { let mut v = k.to_letters(); v.reverse(); v }

fn letters<const N: u32>(k: &TensorKey<N>) -> String {
    match catch_unwind(AssertUnwindSafe(|| ints(&forward(k)))) {
        Ok(s) => s,
        Err(_) => "[-1]".to_string(),
    }
}

pub fn run<const N: u32>(ep: usize, lines: &[Line], log: &mut Log) {
    let nk = lines[0].reg(3);
    let ni = lines[0].reg(4);
    let mut keys: Vec<TensorKey<N>> = (0..=nk).map(|_| TensorKey::new()).collect();
    let mut its: Vec<Option<Iter<N>>> = (0..=ni).map(|_| None).collect();
    let mut seen: Vec<String> = vec!["[]".to_string(); nk + 1];
    // the specification has no number for wider alphabets; with letters below 2^31 they are like this one
    log.call(ep, "begin", &format!(",\"n\":{},\"nk\":{},\"ni\":{}", N.min(i32::MAX as u32), nk, ni));
    log.ret("ok", "", "", "");
    for l in &lines[1..] {
        let op = l.op();
        let args = match op {
            "new" => format!(",\"r\":{}", l.reg(1)),
            "letter" | "push" => format!(",\"r\":{},\"l\":{}", l.reg(1), l.int(2)),
            "letters" => format!(",\"r\":{},\"w\":{}", l.reg(1), ints(&l.word(2))),
            "copy" => format!(",\"r\":{},\"a\":{}", l.reg(1), l.reg(2)),
            "cat" => format!(",\"r\":{},\"a\":{},\"b\":{}", l.reg(1), l.reg(2), l.reg(3)),
            "eq" | "cmp" => format!(",\"a\":{},\"b\":{}", l.reg(1), l.reg(2)),
            "read" | "deg" | "idx" | "dimkey" | "fmt" => format!(",\"a\":{}", l.reg(1)),
            "at" => format!(",\"r\":{},\"i\":{}", l.reg(1), limbs(l.u64(2))),
            "start" => format!(",\"d\":{}", l.int(1)),
            "idxdeg" | "dimidx" => format!(",\"i\":{}", limbs(l.u64(1))),
            "iter" => format!(",\"j\":{}", l.reg(1)),
            "iterfrom" => format!(",\"j\":{},\"a\":{}", l.reg(1), l.reg(2)),
            "next" => format!(",\"j\":{},\"r\":{}", l.reg(1), l.reg(2)),
            "skip" => format!(",\"j\":{},\"x\":{}", l.reg(1), l.int(2)),
            "nth" => format!(",\"j\":{},\"x\":{},\"r\":{}", l.reg(1), l.int(2), l.reg(3)),
            "hint" => format!(",\"j\":{}", l.reg(1)),
            "maxd" => String::new(),
            _ => die(&format!("unknown key operation {}", op)),
        };
        log.call(ep, op, &args);
        let r = catch_unwind(AssertUnwindSafe(|| -> String {
            match op {
                "new" => keys[l.reg(1)] = TensorKey::new(),
                "letter" => keys[l.reg(1)] = TensorKey::from_letter(l.int(2) as u32),
                "letters" => keys[l.reg(1)] = TensorKey::from_letters(&l.word(2)),
                "push" => { keys[l.reg(1)].push_front(l.int(2) as u32); }
                "copy" => keys[l.reg(1)] = keys[l.reg(2)].clone(),
                "cat" => { let k = keys[l.reg(2)].concatenate(&keys[l.reg(3)]); keys[l.reg(1)] = k; }
                "read" => {
                    let k: &TensorKey<N> = keys[l.reg(1)].as_ref();
                    let gets: Vec<u32> = (0..k.size().min(100)).map(|i| k.get_letter(i)).collect();
                    let it = forward(k);
                    return format!("{},{},{},{}", clamp(k.size() as i64), ints(&k.to_letters()), ints(&gets), ints(&it));
                }
                "eq" => {
                    let (a, b) = (&keys[l.reg(1)], &keys[l.reg(2)]);
                    let e = a == b;
                    // equality and inequality have to agree
                    return if e == !(a != b) { (e as u32).to_string() } else { "2".to_string() };
                }
                "cmp" => {
                    let (a, b) = (&keys[l.reg(1)], &keys[l.reg(2)]);
                    let sign = |o: Ordering| match o { Ordering::Less => "-1", Ordering::Equal => "0", Ordering::Greater => "1" };
                    let direct = sign(B::<N>::compare(a, b));
                    let by_index = catch_unwind(AssertUnwindSafe(|| sign(B::<N>::key_to_index(a).cmp(&B::<N>::key_to_index(b))))).unwrap_or("9");
                    return format!("{},{}", direct, by_index);
                }
                "deg" => return clamp(<B<N> as BasisWithDegree>::degree(&keys[l.reg(1)]) as i64).to_string(),
                "maxd" => return format!("{},{}", clamp(TensorKey::<N>::max_depth() as i64), clamp(B::<N>::max_degree() as i64)),
                "idx" => return big(B::<N>::key_to_index(&keys[l.reg(1)])),
                "at" => keys[l.reg(1)] = B::<N>::index_to_key(l.u64(2) as usize),
                "start" => return big(<B<N> as OrderedBasisWithDegree>::start_of_degree(l.int(1) as u32)),
                "idxdeg" => return clamp(<B<N> as OrderedBasisWithDegree>::index_to_degree(l.u64(1) as usize) as i64).to_string(),
                "dimkey" => return big(B::<N>::vector_dimension_for_key(&keys[l.reg(1)])),
                "dimidx" => return big(B::<N>::vector_dimension_for_index(l.u64(1) as usize)),
                "fmt" => return format!("{},{}", chars(&format!("{}", keys[l.reg(1)])), chars(&format!("{:?}", keys[l.reg(1)]))),
                "iter" => its[l.reg(1)] = Some(B::<N>::iter_keys()),
                "iterfrom" => its[l.reg(1)] = Some(Iter::<N>::starting_from(keys[l.reg(2)].clone())),
                "skip" => {
                    let it = its[l.reg(1)].as_mut().unwrap_or_else(|| die("no iterator"));
                    return (0..l.int(2)).filter(|_| it.next().is_some()).count().to_string();
                }
                "nth" => match its[l.reg(1)].as_mut().unwrap_or_else(|| die("no iterator")).nth(l.reg(2)) {
                    Some(k) => { keys[l.reg(3)] = k; return "1".to_string(); }
                    None => return "0".to_string(),
                },
                "hint" => {
                    let (lo, up) = its[l.reg(1)].as_ref().unwrap_or_else(|| die("no iterator")).size_hint();
                    return format!("{},{}", limbs(lo as u64), up.map_or("[-1]".to_string(), |u| limbs(u as u64)));
                }
                "next" => match its[l.reg(1)].as_mut().unwrap_or_else(|| die("no iterator")).next() {
                    Some(k) => { keys[l.reg(2)] = k; return "1".to_string(); }
                    None => return "0".to_string(),
                },
                _ => unreachable!(),
            }
            String::new()
        }));
        let mut obs = String::new();
        for i in 1..=nk {
            let now = letters(&keys[i]);
            if now != seen[i] {
                if !obs.is_empty() { obs.push(','); }
                obs.push_str(&format!("[{},{}]", i, now));
                seen[i] = now;
            }
        }
        match r {
            Ok(res) => log.ret("ok", &res, &obs, ""),
            Err(_) => log.ret("panic", "", &obs, ""),
        }
    }
}

/// contents of a limb list, without the brackets: the result list itself is the number
fn big(v: usize) -> String {
    let s = limbs(v as u64);
    s[1..s.len() - 1].to_string()
}

macro_rules! widths {
    ($n:expr, $ep:expr, $l:expr, $log:expr; $($w:literal)*) => {
        match $n { $($w => run::<$w>($ep, $l, $log),)* _ => die(&format!("width {} not available", $n)) }
    };
}

pub fn episode(ep: usize, lines: &[Line], log: &mut Log) {
    let n = lines[0].int(2);
    widths!(n, ep, lines, log;
        1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39
        40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 80 96 97 99 100
        101 120 126 127 128 129 130 192 200 250 254 255 256 257 258 300 384 500 510 511 512 513 640 768 999 1000 1001
        1022 1023 1024 1025 1500 2000 2047 2048 2049 3000 4095 4096 4097 5000 8191 8192 10000 16383 16384 32767 32768
        32769 50000 65535 65536 65537 100000 131071 131072 262143 262144 524287 524288 1000000 1048575 1048576
        1048577 2097151 2097152 4194303 4194304 8388608 16777215 16777216 16777217 33554432 100000000 268435455
        536870912 1073741823 1073741824 2000000000 2147483647 2147483648 4000000000 4294967295);
}
