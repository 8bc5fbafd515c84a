//! Vectors of floating point numbers that need rounding: every form of an operation on the same
//! operands.  Coefficients are written and logged as in coef.rs.

use crate::coef::{show, val, Fl};
use crate::script::*;
use crate::vecs::{Ik, Sdv, Ssv, Wr};
use rustyalgebra::basis::OrderedBasis;
use rustyalgebra::free_tensor::{DenseTensor, TensorBasis};
use rustyalgebra::vector::*;
use std::ops::Deref;
use std::panic::{catch_unwind, AssertUnwindSafe};

trait Rv<S: Fl>: Vector<'static, ScalarType = S, RationalType = S> {
    fn make(v: &[S]) -> Self;
    /// the coefficients, at least n
    fn read(&self, n: usize) -> Vec<S>;
    fn at(i: usize) -> Self::KeyType;
}

fn padded<S: Fl>(v: &[S], n: usize) -> Vec<S> {
    let mut v = v.to_vec();
    while v.len() < n { v.push(S::ZERO); }
    v
}

macro_rules! dense { ($t:ty, $b:ty, $wrap:expr, $inner:expr) => {
    impl<S: Fl> Rv<S> for $t {
        fn make(v: &[S]) -> Self { $wrap(Sdv::from(v.to_vec())) }
        fn read(&self, n: usize) -> Vec<S> { padded(DenseVector::as_slice($inner(self)), n) }
        fn at(i: usize) -> Self::KeyType { <$b as OrderedBasis>::index_to_key(i) }
    }
}; }
type B2 = TensorBasis<2>;
dense!(Sdv<B2, S>, B2, |v| v, std::convert::identity);
dense!(DenseTensor<'static, S, 2>, B2, |v| DenseTensor::from(v), Deref::deref);
dense!(Wr<Sdv<B2, S>>, B2, |v| Wr(v), Deref::deref);
impl<S: Fl> Rv<S> for Ssv<S> {
    fn make(v: &[S]) -> Self { Self::from_iterator(v.iter().enumerate().map(|(i, x)| (Ik(i as u32), *x))) }
    fn read(&self, n: usize) -> Vec<S> { (0..n).map(|i| self.get(Ik(i as u32)).copied().unwrap_or(S::ZERO)).collect() }
    fn at(i: usize) -> Ik { Ik(i as u32) }
}

fn vals<S: Fl>(t: &str) -> Vec<S> { if t == "_" { vec![] } else { t.split(',').map(val).collect() } }

fn run<S: Fl, V: Rv<S>>(ep: usize, lines: &[Line], log: &mut Log) {
    log.call(ep, "begin", &format!(",\"bits\":{}", S::BITS));
    log.ret("ok", "", "", "");
    for l in &lines[1..] {
        // operands a, b, and a scalar or divisor; or a, the number of a coefficient, and a scalar or divisor
        let a: Vec<S> = vals(l.tok(1));
        let one = l.op().starts_with("rk");
        let b: Vec<S> = if one { vec![] } else { vals(l.tok(2)) };
        let at = if one { l.reg(2) } else { 0 };
        let q: S = val(l.tok(3));
        let n = a.len().max(b.len()).max(at + 1);
        let sh = |v: &[S]| list(v, |x| show(*x));
        // what the machine takes for b times q or b by q; checked like everything else
        let t: Vec<S> = match l.op() {
            "ram" | "rsbm" => padded(&b, n).iter().map(|x| x.mul(&q)).collect(),
            "rad" | "rsbd" => padded(&b, n).iter().map(|x| x.div(&q)).collect(),
            "rkad" | "rksd" => vec![S::ONE.div(&q)],
            _ => vec![],
        };
        log.call(ep, l.op(), &format!(",\"a\":{},\"b\":{},\"i\":{},\"q\":{},\"t\":{}", sh(&padded(&a, n)), sh(&padded(&b, n)), at + 1, show(q), sh(&t)));
        let r = catch_unwind(AssertUnwindSafe(|| {
            let m = || V::make(&a);
            let o = V::make(&b);
            macro_rules! inplace { ($($f:ident ( $($x:expr),* )),*) => { vec![$({ let mut x = m(); x.$f($($x),*); x.read(n) }),*] }; }
            let mut all = match l.op() {
                "rneg" => vec![m().uminus().read(n)],
                "radd" => vec![m().add(&o).read(n)],
                "rsub" => vec![m().sub(&o).read(n)],
                "rsm" => vec![m().scalar_lmultiply(q).read(n), m().scalar_rmultiply(q).read(n)],
                "rsd" => vec![m().scalar_ldivide(q).read(n), m().scalar_rdivide(q).read(n)],
                _ => vec![],
            };
            all.append(&mut match l.op() {
                "rneg" => inplace!(uminus_inplace()),
                "radd" => inplace!(add_inplace(&o)),
                "rsub" => inplace!(sub_inplace(&o)),
                "rsm" => inplace!(scalar_lmultiply_inplace(q), scalar_rmultiply_inplace(q)),
                "rsd" => inplace!(scalar_ldivide_inplace(q), scalar_rdivide_inplace(q)),
                "ram" => inplace!(add_scalar_lmultiply(&o, q), add_scalar_rmultiply(&o, q)),
                "rsbm" => inplace!(sub_scalar_lmultiply(&o, q), sub_scalar_rmultiply(&o, q)),
                "rad" => inplace!(add_scalar_ldivide(&o, q), add_scalar_rdivide(&o, q)),
                "rsbd" => inplace!(sub_scalar_ldivide(&o, q), sub_scalar_rdivide(&o, q)),
                "rkam" => inplace!(add_scalar_multiply(V::at(at), q)),
                "rksm" => inplace!(sub_scalar_multiply(V::at(at), q)),
                "rkad" => inplace!(add_scalar_divide(V::at(at), q)),
                "rksd" => inplace!(sub_scalar_divide(V::at(at), q)),
                x => die(&format!("unknown operation {}", x)),
            });
            all
        }));
        match r {
            Ok(all) => log.ret("ok", &all.iter().map(|v| sh(v)).collect::<Vec<_>>().join(","), "", ""),
            Err(_) => log.ret("panic", "", "", ""),
        }
    }
}

pub fn episode(ep: usize, lines: &[Line], log: &mut Log) {
    match (lines[0].tok(2), lines[0].tok(3)) {
        ("d", "f64") => run::<f64, Sdv<B2, f64>>(ep, lines, log),
        ("d", "f32") => run::<f32, Sdv<B2, f32>>(ep, lines, log),
        ("dt", "f64") => run::<f64, DenseTensor<'static, f64, 2>>(ep, lines, log),
        ("dt", "f32") => run::<f32, DenseTensor<'static, f32, 2>>(ep, lines, log),
        ("w", "f64") => run::<f64, Wr<Sdv<B2, f64>>>(ep, lines, log),
        ("w", "f32") => run::<f32, Wr<Sdv<B2, f32>>>(ep, lines, log),
        ("s", "f64") => run::<f64, Ssv<f64>>(ep, lines, log),
        ("s", "f32") => run::<f32, Ssv<f32>>(ep, lines, log),
        (x, y) => die(&format!("no vectors {} of {}", x, y)),
    }
}
