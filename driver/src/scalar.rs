//! Coefficient fields used to exercise the library, and how their values are logged: as elements
//! of the field of P elements (floats through the homomorphism from the dyadic rationals).

use rustyalgebra::coefficients::*;
use std::borrow::Borrow;
use std::fmt;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};
use std::sync::Mutex;

pub const BIGP: u32 = 46337;

/// after this many operations on scalars the next one panics (negative: never)
static FUSE: AtomicI64 = AtomicI64::new(-1);
pub fn fuse(k: i64) { FUSE.store(k, Ordering::Relaxed) }
fn tick() {
    let k = FUSE.load(Ordering::Relaxed);
    if k > 0 { FUSE.store(k - 1, Ordering::Relaxed) }
    if k == 0 { FUSE.store(-1, Ordering::Relaxed); panic!("fuse") }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Fp<const P: u32>(pub u32);

/// The rationals of Fp: a type of its own, so that scalars and rationals cannot be confused.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Rat<const P: u32>(pub u32);

fn modp<const P: u32>(v: i64) -> u32 {
    v.rem_euclid(P as i64) as u32
}

pub fn invp(p: u32, a: u32) -> u32 {
    if a as u64 % p as u64 == 0 {
        panic!("division by zero");
    }
    let (mut base, mut k, mut r) = (a as u64 % p as u64, p as u64 - 2, 1u64);
    while k > 0 {
        if k & 1 == 1 {
            r = r * base % p as u64;
        }
        base = base * base % p as u64;
        k >>= 1;
    }
    r as u32
}

impl<const P: u32> fmt::Display for Fp<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        plain(f)?;
        write!(f, "{}", self.0)
    }
}

/// A precision or a sign asked for would show with other coefficients: make it visible with these.
pub fn plain(f: &mut fmt::Formatter<'_>) -> fmt::Result {
    if f.precision().is_some() || f.width().is_some() || f.sign_plus() || f.alternate() { write!(f, "%") } else { Ok(()) }
}
impl<const P: u32> CoefficientBase for Fp<P> {}
impl<const P: u32> Commutative for Fp<P> {}
impl<const P: u32> From<i8> for Fp<P> { fn from(v: i8) -> Self { Fp(modp::<P>(v as i64)) } }
impl<const P: u32> From<i16> for Fp<P> { fn from(v: i16) -> Self { Fp(modp::<P>(v as i64)) } }
impl<const P: u32> FromDegreeType for Fp<P> { fn from_degree(d: &u32) -> Self { Fp(modp::<P>(*d as i64)) } }
impl<const P: u32> From<i8> for Rat<P> { fn from(v: i8) -> Self { Rat(modp::<P>(v as i64)) } }
impl<const P: u32> From<i16> for Rat<P> { fn from(v: i16) -> Self { Rat(modp::<P>(v as i64)) } }
impl<const P: u32> FromDegreeType for Rat<P> { fn from_degree(d: &u32) -> Self { Rat(modp::<P>(*d as i64)) } }

impl<const P: u32> CoefficientField for Fp<P> {
    type RationalType = Rat<P>;
    const ZERO: Self = Fp(0);
    const ONE: Self = Fp(1 % P);
    const MONE: Self = Fp(P - 1);
    fn uminus(&self) -> Self { tick(); Fp(modp::<P>(-(self.0 as i64))) }
    fn inv(arg: impl Borrow<Rat<P>>) -> Self { tick(); Fp(invp(P, arg.borrow().0)) }
    fn add(&self, o: &Self) -> Self { tick(); Fp(((self.0 as u64 + o.0 as u64) % P as u64) as u32) }
    fn sub(&self, o: &Self) -> Self { tick(); Fp(modp::<P>(self.0 as i64 - o.0 as i64)) }
    fn mul(&self, o: &Self) -> Self { tick(); Fp(((self.0 as u64 * o.0 as u64) % P as u64) as u32) }
    fn div(&self, o: &Rat<P>) -> Self { self.mul(&Fp(invp(P, o.0))) }
    fn add_inplace(&mut self, o: &Self) -> &mut Self { *self = CoefficientField::add(self, o); self }
    fn sub_inplace(&mut self, o: &Self) -> &mut Self { *self = CoefficientField::sub(self, o); self }
    fn mul_inplace(&mut self, o: &Self) -> &mut Self { *self = CoefficientField::mul(self, o); self }
    fn div_inplace(&mut self, o: &Rat<P>) -> &mut Self { *self = CoefficientField::div(self, o); self }
}

pub trait Sc: CoefficientField + fmt::Display + fmt::Debug + 'static {
    fn mk(num: i64, den: i64) -> Self;
    fn rat(num: i64, den: i64) -> Self::RationalType;
    /// value in the logged field, -1 if it is not one
    fn image(&self) -> i64;
}

impl<const P: u32> Sc for Fp<P> {
    fn mk(num: i64, den: i64) -> Self {
        Fp((modp::<P>(num) as u64 * invp(P, modp::<P>(den)) as u64 % P as u64) as u32)
    }
    fn rat(num: i64, den: i64) -> Rat<P> { Rat(Self::mk(num, den).0) }
    fn image(&self) -> i64 { if self.0 < P { self.0 as i64 } else { -1 } }
}

/// image of mant * 2^exp
fn dyadic(neg: bool, mant: u64, exp: i32) -> i64 {
    let p = BIGP as u64;
    let mut r = mant % p;
    let f = if exp >= 0 { 2 } else { invp(BIGP, 2) as u64 };
    for _ in 0..exp.unsigned_abs() {
        r = r * f % p;
    }
    if neg { ((p - r) % p) as i64 } else { r as i64 }
}

impl Sc for f64 {
    fn mk(num: i64, den: i64) -> f64 { num as f64 / den as f64 }
    fn rat(num: i64, den: i64) -> f64 { num as f64 / den as f64 }
    fn image(&self) -> i64 {
        if !self.is_finite() { return -1; }
        let b = self.to_bits();
        let e = ((b >> 52) & 0x7ff) as i32;
        let m = b & ((1 << 52) - 1);
        if e == 0 { dyadic(b >> 63 == 1, m, -1074) } else { dyadic(b >> 63 == 1, m | (1 << 52), e - 1075) }
    }
}

impl Sc for f32 {
    fn mk(num: i64, den: i64) -> f32 { num as f32 / den as f32 }
    fn rat(num: i64, den: i64) -> f32 { num as f32 / den as f32 }
    fn image(&self) -> i64 { (*self as f64).image() }
}

// ---------------------------------------------------------------- scalars that are accounted for

/// A scalar with an identity: every clone is a new one, and using or dropping one that was dropped before (or that
/// never was one) is noticed.
pub struct Hp { v: u32, id: u32 }

static ALIVE: Mutex<Vec<bool>> = Mutex::new(Vec::new());
static MISUSED: AtomicUsize = AtomicUsize::new(0);

/// no scalar was used or dropped after its end since the last call?
pub fn tokens_ok() -> bool { MISUSED.swap(0, Ordering::Relaxed) == 0 }

impl Hp {
    fn new(v: u32) -> Hp {
        let mut a = ALIVE.lock().unwrap_or_else(|e| e.into_inner());
        a.push(true);
        Hp { v, id: a.len() as u32 }
    }
    fn alive(&self) -> bool {
        self.id == 0 || ALIVE.lock().unwrap_or_else(|e| e.into_inner()).get(self.id as usize - 1) == Some(&true)
    }
    fn f(&self) -> Fp<BIGP> {
        if !self.alive() { MISUSED.fetch_add(1, Ordering::Relaxed); }
        Fp(self.v)
    }
}
impl Drop for Hp {
    fn drop(&mut self) {
        if self.id == 0 { return; }
        if !self.alive() { MISUSED.fetch_add(1, Ordering::Relaxed); return; }
        ALIVE.lock().unwrap_or_else(|e| e.into_inner())[self.id as usize - 1] = false;
    }
}
impl Clone for Hp { fn clone(&self) -> Hp { tick(); Hp::new(self.f().0) } }
impl PartialEq for Hp { fn eq(&self, o: &Hp) -> bool { self.f() == o.f() } }
impl fmt::Debug for Hp { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.f()) } }
impl fmt::Display for Hp { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { plain(f)?; write!(f, "{}", self.f()) } }
impl CoefficientBase for Hp {}
impl Commutative for Hp {}
impl From<i8> for Hp { fn from(v: i8) -> Self { Hp::new(modp::<BIGP>(v as i64)) } }
impl From<i16> for Hp { fn from(v: i16) -> Self { Hp::new(modp::<BIGP>(v as i64)) } }
impl FromDegreeType for Hp { fn from_degree(d: &u32) -> Self { Hp::new(modp::<BIGP>(*d as i64)) } }
impl CoefficientField for Hp {
    type RationalType = Rat<BIGP>;
    const ZERO: Self = Hp { v: 0, id: 0 };
    const ONE: Self = Hp { v: 1, id: 0 };
    const MONE: Self = Hp { v: BIGP - 1, id: 0 };
    fn uminus(&self) -> Self { Hp::new(self.f().uminus().0) }
    fn inv(arg: impl Borrow<Rat<BIGP>>) -> Self { Hp::new(Fp::<BIGP>::inv(arg).0) }
    fn add(&self, o: &Self) -> Self { Hp::new(self.f().add(&o.f()).0) }
    fn sub(&self, o: &Self) -> Self { Hp::new(self.f().sub(&o.f()).0) }
    fn mul(&self, o: &Self) -> Self { Hp::new(self.f().mul(&o.f()).0) }
    fn div(&self, o: &Rat<BIGP>) -> Self { Hp::new(self.f().div(o).0) }
    fn add_inplace(&mut self, o: &Self) -> &mut Self { *self = CoefficientField::add(self, o); self }
    fn sub_inplace(&mut self, o: &Self) -> &mut Self { *self = CoefficientField::sub(self, o); self }
    fn mul_inplace(&mut self, o: &Self) -> &mut Self { *self = CoefficientField::mul(self, o); self }
    fn div_inplace(&mut self, o: &Rat<BIGP>) -> &mut Self { *self = CoefficientField::div(self, o); self }
}
impl Sc for Hp {
    fn mk(num: i64, den: i64) -> Self { Hp::new(Fp::<BIGP>::mk(num, den).0) }
    fn rat(num: i64, den: i64) -> Rat<BIGP> { Fp::<BIGP>::rat(num, den) }
    fn image(&self) -> i64 { self.f().image() }
}
