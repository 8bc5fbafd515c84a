//! Floating point coefficients.  A value is written m:e and means m * 2^e; it is logged as
//! [sign, mantissa limbs, exponent] with a full-width mantissa.

use crate::script::*;
use rustyalgebra::coefficients::{CoefficientField, FromDegreeType};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub trait Fl: CoefficientField<RationalType = Self> + Copy + 'static {
    const BITS: i64;
    fn of(m: i64, e: i32) -> Self;
    /// sign, mantissa, exponent; None if not finite
    fn parts(self) -> Option<(i64, u64, i64)>;
    /// 7 and -7 for the infinities, 9 for what is not a number
    fn special(self) -> i64;
}

fn split(bits: u64, mb: u32, eb: u32, neg: bool) -> Option<(i64, u64, i64)> {
    let e = (bits >> mb) & ((1 << eb) - 1);
    let m = bits & ((1 << mb) - 1);
    let bias = (1i64 << (eb - 1)) - 1 + mb as i64;
    if e == (1 << eb) - 1 { return None; }
    let s = if neg { -1 } else { 1 };
    if e == 0 && m == 0 { return Some((0, 0, 0)); }
    Some(if e == 0 { (s, m, 1 - bias) } else { (s, m | 1 << mb, e as i64 - bias) })
}

impl Fl for f64 {
    const BITS: i64 = 53;
    fn of(m: i64, e: i32) -> f64 { m as f64 * 2f64.powi(e / 2) * 2f64.powi(e - e / 2) }
    fn special(self) -> i64 { if self.is_nan() { 9 } else if self > 0.0 { 7 } else { -7 } }
    fn parts(self) -> Option<(i64, u64, i64)> { split(self.to_bits(), 52, 11, self.is_sign_negative()) }
}
impl Fl for f32 {
    const BITS: i64 = 24;
    fn of(m: i64, e: i32) -> f32 { (m as f64 * 2f64.powi(e)) as f32 }
    fn special(self) -> i64 { if self.is_nan() { 9 } else if self > 0.0 { 7 } else { -7 } }
    fn parts(self) -> Option<(i64, u64, i64)> { split(self.to_bits() as u64, 23, 8, self.is_sign_negative()) }
}

pub fn show<S: Fl>(x: S) -> String {
    match x.parts() {
        Some((s, m, e)) => format!("[{},{},{}]", s, limbs(m), e),
        None => format!("[{},[],0]", x.special()),
    }
}

pub fn val<S: Fl>(t: &str) -> S {
    let (m, e) = t.split_once(':').unwrap_or_else(|| die("bad float"));
    S::of(m.parse().unwrap_or_else(|_| die("bad float")), e.parse().unwrap_or_else(|_| die("bad float")))
}

fn run<S: Fl>(ep: usize, lines: &[Line], log: &mut Log) {
    log.call(ep, "begin", &format!(",\"bits\":{}", S::BITS));
    log.ret("ok", "", "", "");
    for l in &lines[1..] {
        let x = |i: usize| -> S { val(l.tok(i)) };
        let a = match l.op() {
            "fadd" | "fsub" | "fmul" | "fdiv" | "frat" => format!(",\"a\":{},\"b\":{}", show(x(1)), show(x(2))),
            "fneg" | "finv" => format!(",\"a\":{}", show(x(1))),
            "fdeg" => format!(",\"i\":{}", limbs(l.u64(1))),
            "fconst" => String::new(),
            o => die(&format!("unknown coefficient operation {}", o)),
        };
        log.call(ep, l.op(), &a);
        let r = catch_unwind(AssertUnwindSafe(|| {
            // out of place, stored in place, returned by the in-place form, and the operand afterwards
            macro_rules! both { ($o:ident, $i:ident) => {{
                let (a, b) = (x(1), x(2));
                let out = S::$o(&a, &b);
                let mut c = a;
                let ret = *S::$i(&mut c, &b);
                format!("{},{},{},{},{}", show(out), show(c), show(ret), show(a), show(b))
            }}; }
            match l.op() {
                "fadd" => both!(add, add_inplace),
                "fsub" => both!(sub, sub_inplace),
                "fmul" => both!(mul, mul_inplace),
                "fdiv" => both!(div, div_inplace),
                "frat" => show(S::from_rational(x(1), x(2))),
                "fneg" => show(S::uminus(&x(1))),
                "finv" => format!("{},{}", show(S::inv(x(1))), show(S::inv(&x(1)))),
                "fdeg" => show(<S as FromDegreeType>::from_degree(&(l.u64(1) as u32))),
                _ => format!("{},{},{}", show(S::ZERO), show(S::ONE), show(S::MONE)),
            }
        }));
        match r { Ok(s) => log.ret("ok", &s, "", ""), Err(_) => log.ret("panic", "", "", "") }
    }
}

pub fn episode(ep: usize, lines: &[Line], log: &mut Log) {
    match lines[0].tok(2) {
        "f64" => run::<f64>(ep, lines, log),
        "f32" => run::<f32>(ep, lines, log),
        x => die(&format!("no float type {}", x)),
    }
}
