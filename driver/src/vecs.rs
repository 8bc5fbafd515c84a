//! Vectors and tensors: one interpreter per vector type.

use crate::guard::heap_ok;
use crate::scalar::*;
use crate::script::*;
use rustyalgebra::algebra::Algebra;
use rustyalgebra::basis::{Basis, OrderedBasis};
use rustyalgebra::coefficients::CoefficientField;
use rustyalgebra::free_tensor::{DenseTensor, FreeTensor, TensorBasis, TensorKey};
use rustyalgebra::vector::implementation::{SimpleDenseVector, SimpleSparseVector};
use rustyalgebra::vector::*;
use std::cmp::Ordering;
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Sdv<B, S> = SimpleDenseVector<'static, B, S>;
type Tens<const N: u32, S> = Sdv<TensorBasis<N>, S>;

// ---------------------------------------------------------------- user defined bases and wrappers

/// Integer keys; vector dimensions are rounded up to multiples of four (K = 4), just large enough (K = 1) or always
/// the same (K = 64).
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ik(pub u32);
impl fmt::Display for Ik {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { crate::scalar::plain(f)?; write!(f, "<{}>", self.0) }
}
#[derive(Debug)]
pub struct IntBasis<const K: usize = 4>;
impl<const K: usize> Basis for IntBasis<K> { type KeyType = Ik; }
pub struct IkIter(u32);
impl Iterator for IkIter {
    type Item = Ik;
    fn next(&mut self) -> Option<Ik> { self.0 += 1; Some(Ik(self.0 - 1)) }
}
impl<const K: usize> OrderedBasis for IntBasis<K> {
    type KeyIterator = IkIter;
    fn compare(l: &Ik, r: &Ik) -> Ordering { l.0.cmp(&r.0) }
    fn iter_keys() -> IkIter { IkIter(0) }
    fn key_to_index(k: &Ik) -> usize { k.0 as usize }
    fn index_to_key(i: usize) -> Ik { Ik(i as u32) }
    fn vector_dimension_for_key(k: &Ik) -> usize { (k.0 as usize / K + 1) * K }
    fn vector_dimension_for_index(i: impl Into<usize>) -> usize { (i.into() / K + 1) * K }
}

/// A user's wrapper around any vector, tagged with a number.
#[derive(PartialEq, Debug)]
pub struct Wr<V, const D: u32 = 0>(pub V);
impl<V, const D: u32> Deref for Wr<V, D> { type Target = V; fn deref(&self) -> &V { &self.0 } }
impl<V, const D: u32> DerefMut for Wr<V, D> { fn deref_mut(&mut self) -> &mut V { &mut self.0 } }
impl<V, const D: u32> From<V> for Wr<V, D> { fn from(v: V) -> Self { Wr(v) } }

impl<'v, S: Sc, const N: u32, const D: u32> DenseVector<'v> for Wr<Tens<N, S>, D> {
    fn as_slice(&self) -> &[S] { DenseVector::as_slice(&self.0) }
    fn as_mut_slice(&mut self) -> &mut [S] { DenseVector::as_mut_slice(&mut self.0) }
}
impl<'v, S: Sc, const N: u32, const D: u32> ResizeableDenseVector<'v> for Wr<Tens<N, S>, D> {
    fn resize(&mut self, d: usize) { ResizeableDenseVector::resize(&mut self.0, d) }
}
impl<'v, S: Sc, const N: u32, const D: u32> VectorWithDegree<'v> for Wr<Tens<N, S>, D> {
    fn degree(&self) -> u32 { VectorWithDegree::degree(&self.0) }
}
impl<'v, S: Sc, const N: u32, const D: u32> FreeTensor<'v, S, N> for Wr<Tens<N, S>, D> {
    const MAX_DEGREE: u32 = D;
}

/// A second field type whose tensors are free tensors themselves, of maximum degree D.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Fd<const P: u32, const D: u32>(Fp<P>);
impl<const P: u32, const D: u32> rustyalgebra::coefficients::CoefficientBase for Fd<P, D> {}
impl<const P: u32, const D: u32> rustyalgebra::coefficients::Commutative for Fd<P, D> {}
impl<const P: u32, const D: u32> From<i8> for Fd<P, D> { fn from(v: i8) -> Self { Fd(Fp::from(v)) } }
impl<const P: u32, const D: u32> From<i16> for Fd<P, D> { fn from(v: i16) -> Self { Fd(Fp::from(v)) } }
impl<const P: u32, const D: u32> rustyalgebra::coefficients::FromDegreeType for Fd<P, D> {
    fn from_degree(d: &u32) -> Self { Fd(Fp::from_degree(d)) }
}
impl<const P: u32, const D: u32> CoefficientField for Fd<P, D> {
    type RationalType = Rat<P>;
    const ZERO: Self = Fd(Fp::<P>::ZERO);
    const ONE: Self = Fd(Fp::<P>::ONE);
    const MONE: Self = Fd(Fp::<P>::MONE);
    fn uminus(&self) -> Self { Fd(self.0.uminus()) }
    fn inv(arg: impl std::borrow::Borrow<Rat<P>>) -> Self { Fd(Fp::inv(arg)) }
    fn add(&self, o: &Self) -> Self { Fd(self.0.add(&o.0)) }
    fn sub(&self, o: &Self) -> Self { Fd(self.0.sub(&o.0)) }
    fn mul(&self, o: &Self) -> Self { Fd(self.0.mul(&o.0)) }
    fn div(&self, o: &Rat<P>) -> Self { Fd(self.0.div(o)) }
    fn add_inplace(&mut self, o: &Self) -> &mut Self { self.0.add_inplace(&o.0); self }
    fn sub_inplace(&mut self, o: &Self) -> &mut Self { self.0.sub_inplace(&o.0); self }
    fn mul_inplace(&mut self, o: &Self) -> &mut Self { self.0.mul_inplace(&o.0); self }
    fn div_inplace(&mut self, o: &Rat<P>) -> &mut Self { self.0.div_inplace(o); self }
}
impl<'v, const P: u32, const N: u32, const D: u32> FreeTensor<'v, Fd<P, D>, N> for Tens<N, Fd<P, D>> {
    const MAX_DEGREE: u32 = D;
}

// ---------------------------------------------------------------- exp, log, fmexp

/// (operation, target, argument, lent?) to (target afterwards, argument afterwards); with lent storage the target
/// writes through to a slice and the argument reads one
type FreeFn<S> = fn(&str, Vec<S>, Vec<S>, bool) -> (Vec<S>, Vec<S>);

#[cfg(all(rustyalgebra_verif, not(rustyalgebra_verif_no_lent)))]
fn storage<B: OrderedBasis + 'static, S: CoefficientField + 'static>(me: Vec<S>, arg: Vec<S>, lent: bool) -> (Sdv<B, S>, Sdv<B, S>, Option<&'static [S]>) {
    if !lent { return (Sdv::from(me), Sdv::from(arg), None); }
    let a: &'static [S] = Box::leak(arg.into_boxed_slice());
    (Sdv::verif_borrowed_mut(Box::leak(me.into_boxed_slice())), Sdv::verif_borrowed(a), Some(a))
}
#[cfg(not(all(rustyalgebra_verif, not(rustyalgebra_verif_no_lent))))]
fn storage<B: OrderedBasis + 'static, S: CoefficientField + 'static>(me: Vec<S>, arg: Vec<S>, _: bool) -> (Sdv<B, S>, Sdv<B, S>, Option<&'static [S]>) {
    (Sdv::from(me), Sdv::from(arg), None)
}

fn free_any<S: CoefficientField + 'static, const N: u32, V: FreeTensor<'static, S, N> + DenseVector<'static>>(op: &str, me: V, arg: V) -> (V, V) {
    let mut me = me;
    match op {
        "exp" => me = arg.exp(),
        "log" => me = arg.log(),
        "fmexp" => { me.fmexp(&arg); }
        _ => die("free operation"),
    }
    (me, arg)
}

fn free_wrapped<S: Sc, const N: u32, const D: u32>(op: &str, me: Vec<S>, arg: Vec<S>, lent: bool) -> (Vec<S>, Vec<S>) {
    let (me, arg, behind) = storage::<TensorBasis<N>, S>(me, arg, lent);
    let (r, a) = free_any::<S, N, Wr<Tens<N, S>, D>>(op, Wr(me), Wr(arg));
    (DenseVector::as_slice(&r.0).to_vec(), behind.unwrap_or(DenseVector::as_slice(&a.0)).to_vec())
}

fn free_plain<const P: u32, const N: u32, const D: u32>(op: &str, me: Vec<Fp<P>>, arg: Vec<Fp<P>>, lent: bool) -> (Vec<Fp<P>>, Vec<Fp<P>>) {
    let lift = |v: Vec<Fp<P>>| v.into_iter().map(Fd).collect::<Vec<Fd<P, D>>>();
    let (me, arg, behind) = storage::<TensorBasis<N>, Fd<P, D>>(lift(me), lift(arg), lent);
    let (r, a) = free_any::<Fd<P, D>, N, Tens<N, Fd<P, D>>>(op, me, arg);
    let drop = |v: &[Fd<P, D>]| v.iter().map(|x| x.0).collect::<Vec<Fp<P>>>();
    (drop(DenseVector::as_slice(&r)), drop(behind.unwrap_or(DenseVector::as_slice(&a))))
}

// ---------------------------------------------------------------- the interpreter

pub struct Ctx<V, S: Sc> {
    regs: Vec<V>,
    bufs: Vec<(*mut S, usize)>,
    free: Option<FreeFn<S>>,
    /// exp, log and fmexp on lent storage
    lent: bool,
}

impl<V, S: Sc> Ctx<V, S> {
    /// target and operand; the script never names the same register twice
    fn two(&mut self, r: usize, a: usize) -> (&mut V, &V) {
        if r == a || r >= self.regs.len() || a >= self.regs.len() { die("registers") }
        unsafe { let p = self.regs.as_mut_ptr(); (&mut *p.add(r), &*p.add(a)) }
    }
    fn three(&mut self, r: usize, a: usize, b: usize) -> (&mut V, &V, &V) {
        if r == a || r == b || r >= self.regs.len() || a >= self.regs.len() || b >= self.regs.len() { die("registers") }
        unsafe { let p = self.regs.as_mut_ptr(); (&mut *p.add(r), &*p.add(a), &*p.add(b)) }
    }
    fn lent(&self, b: usize) -> &'static mut [S] {
        unsafe { std::slice::from_raw_parts_mut(self.bufs[b].0, self.bufs[b].1) }
    }
}

pub trait Subj<S: Sc>: Vector<'static, ScalarType = S, RationalType = <S as CoefficientField>::RationalType> {
    /// a vector that owns its coefficients and is not wrapped
    type Twin: Subj<S>;
    fn twin(&self) -> Self::Twin;
    const KIND: &'static str;
    fn letters() -> u32;
    fn key(w: &[u32]) -> Self::KeyType;
    fn obs(&self) -> String;
    /// operations outside the vector trait
    fn more(c: &mut Ctx<Self, S>, l: &Line) -> Option<String>;
}

fn sc<S: Sc>(f: (i64, i64)) -> S { S::mk(f.0, f.1) }
fn img<S: Sc>(x: &S) -> String { x.image().to_string() }
fn slice<S: Sc>(v: &[S]) -> String { list(v, img) }
fn opt(s: Option<String>) -> String { s.unwrap_or_default() }

/// an iterator that does not know its length
fn unsized_<T>(v: Vec<T>) -> impl Iterator<Item = T> {
    let mut it = v.into_iter();
    std::iter::from_fn(move || it.next())
}

/// the operations of the vector traits
fn basic<S: Sc, V: Subj<S>>(c: &mut Ctx<V, S>, l: &Line) -> Option<String> {
    let s = |i: usize| -> S { sc(l.frac(i)) };
    let q = |i: usize| -> S::RationalType { let f = l.frac(i); S::rat(f.0, f.1) };
    let k = |i: usize| V::key(&l.word(i));
    let ps = |i: usize| -> Vec<(V::KeyType, S)> { l.pairs(i).into_iter().map(|(w, x)| (V::key(&w), sc(x))).collect() };
    macro_rules! put { ($e:expr) => {{ let v = $e; c.regs[l.reg(1)] = v; }}; }
    macro_rules! a { () => { c.regs[l.reg(2)] }; }
    macro_rules! b { () => { c.regs[l.reg(3)] }; }
    macro_rules! upd { ($m:ident $(, $x:expr)*) => {{ let (t, o) = c.two(l.reg(1), l.reg(2)); t.$m(o $(, $x)*); }}; }
    match l.op() {
        "new" => put!(V::new()),
        "fromkey" => put!(V::from_key(k(2))),
        "fromks" => put!(V::from_key_scalar(k(2), s(3))),
        "fromit" => {
            let v = ps(2);
            put!(match l.shape(2) {
                0 => V::from_iterator(v),
                1 => V::from_iterator(v.into_iter().filter(|_| true)),
                2 => V::from_iterator(unsized_(v)),
                _ => { let mut v = v; let w = v.split_off(v.len() / 2); V::from_iterator(v.into_iter().chain(unsized_(w))) }
            })
        }
        "own" => put!(Vector::to_owned(&a!())),
        "swap" => {
            let (r, o) = (l.reg(1), l.reg(2));
            if r == o { die("registers") }
            let p = c.regs.as_mut_ptr();
            unsafe { (&mut *p.add(r)).swap(&mut *p.add(o)); }
        }
        "clear" => c.regs[l.reg(1)].clear(),
        "get" => return Some(opt(c.regs[l.reg(1)].get(k(2)).map(|x| img(x)))),
        "getmut" => {
            let v = s(3);
            return Some(opt(c.regs[l.reg(1)].get_mut(k(2)).map(|x| { let old = img(x); *x = v; old })));
        }
        "ins1" => c.regs[l.reg(1)].insert_single(&k(2), s(3)),
        "ins" => {
            let v = ps(2);
            let t = &mut c.regs[l.reg(1)];
            match l.shape(2) {
                0 => t.insert(v),
                1 => t.insert(v.into_iter().filter(|_| true)),
                2 => t.insert(unsized_(v)),
                _ => { let mut v = v; let w = v.split_off(v.len() / 2); t.insert(v.into_iter().chain(unsized_(w))) }
            }
        }
        "erase" => c.regs[l.reg(1)].erase(k(2)),
        "eq" => {
            let (x, y) = (&c.regs[l.reg(1)], &c.regs[l.reg(2)]);
            let e = x == y;
            return Some(if (x != y) == !e { (e as u32).to_string() } else { "2".into() });
        }
        "same" => {}
        "neg" => put!(a!().uminus()),
        "add" => put!(a!().add(&b!())),
        "sub" => put!(a!().sub(&b!())),
        "smr" => put!(a!().scalar_rmultiply(s(3))),
        "sml" => put!(a!().scalar_lmultiply(s(3))),
        "sdr" => put!(a!().scalar_rdivide(q(3))),
        "sdl" => put!(a!().scalar_ldivide(q(3))),
        "negi" => { c.regs[l.reg(1)].uminus_inplace(); }
        "addi" => upd!(add_inplace),
        "subi" => upd!(sub_inplace),
        "smli" => { c.regs[l.reg(1)].scalar_lmultiply_inplace(s(2)); }
        "smri" => { c.regs[l.reg(1)].scalar_rmultiply_inplace(s(2)); }
        "sdri" => { c.regs[l.reg(1)].scalar_rdivide_inplace(q(2)); }
        "sdli" => { c.regs[l.reg(1)].scalar_ldivide_inplace(q(2)); }
        "asrm" => upd!(add_scalar_rmultiply, s(3)),
        "aslm" => upd!(add_scalar_lmultiply, s(3)),
        "ssrm" => upd!(sub_scalar_rmultiply, s(3)),
        "sslm" => upd!(sub_scalar_lmultiply, s(3)),
        "asrd" => upd!(add_scalar_rdivide, q(3)),
        "asld" => upd!(add_scalar_ldivide, q(3)),
        "ssrd" => upd!(sub_scalar_rdivide, q(3)),
        "ssld" => upd!(sub_scalar_ldivide, q(3)),
        "kam" => { c.regs[l.reg(1)].add_scalar_multiply(k(2), s(3)); }
        "ksm" => { c.regs[l.reg(1)].sub_scalar_multiply(k(2), s(3)); }
        "kad" => { c.regs[l.reg(1)].add_scalar_divide(k(2), q(3)); }
        "ksd" => { c.regs[l.reg(1)].sub_scalar_divide(k(2), q(3)); }
        _ => return V::more(c, l),
    }
    Some(String::new())
}

/// dense storage behind a vector type
trait Dense<B: OrderedBasis + 'static, S: Sc>: Subj<S> {
    fn wrap(v: Sdv<B, S>) -> Self;
    fn inner(&self) -> &Sdv<B, S>;
    fn inner_mut(&mut self) -> &mut Sdv<B, S>;
    fn unwrap(self) -> Sdv<B, S>;
}

fn dense<B: OrderedBasis + 'static, S: Sc, V: Dense<B, S>>(c: &mut Ctx<V, S>, l: &Line) -> Option<String> {
    macro_rules! put { ($e:expr) => {{ let v = $e; c.regs[l.reg(1)] = v; }}; }
    match l.op() {
        "fromvec" => put!(V::wrap(Sdv::from(l.fracs(2).into_iter().map(sc).collect()))),
        "fromdim" => put!(V::wrap(Sdv::from_dimension(l.reg(2)))),
        "clone" => {
            // both ways of cloning; what differs takes the place of the clone, so that it is seen
            let from = c.regs[l.reg(2)].inner();
            let new = from.clone();
            let mut over = Sdv::from(DenseVector::as_slice(c.regs[l.reg(1)].inner()).to_vec());
            over.clone_from(from);
            let same = slice(DenseVector::as_slice(&over)) == slice(DenseVector::as_slice(&new));
            put!(V::wrap(if same { new } else { over }))
        }
        "rewrap" => put!(V::wrap(Vector::to_owned(&c.regs[l.reg(2)]).unwrap())),
        "buf" => {
            let v: Vec<S> = l.fracs(2).into_iter().map(sc).collect();
            let m = Box::leak(v.into_boxed_slice());
            c.bufs[l.reg(1)] = (m.as_mut_ptr(), m.len());
        }
        #[cfg(all(rustyalgebra_verif, not(rustyalgebra_verif_no_lent)))]
        "borrow" => put!(V::wrap(Sdv::verif_borrowed(c.lent(l.reg(2))))),
        #[cfg(all(rustyalgebra_verif, not(rustyalgebra_verif_no_lent)))]
        "borrowmut" => put!(V::wrap(Sdv::verif_borrowed_mut(c.lent(l.reg(2))))),
        "size" => return Some(clamp(c.regs[l.reg(1)].inner().size() as i64).to_string()),
        "resize" => c.regs[l.reg(1)].inner_mut().resize(l.reg(2)),
        "getslice" => return Some(opt(c.regs[l.reg(1)].inner().get_slice(l.reg(2)..l.reg(3)).map(slice))),
        "getidx" => return Some(opt(c.regs[l.reg(1)].inner().get_slice(l.reg(2)).map(img))),
        "getmutslice" => {
            let x: S = sc(l.frac(4));
            return Some(opt(c.regs[l.reg(1)].inner_mut().get_mut_slice(l.reg(2)..l.reg(3)).map(|m| {
                let old = slice(m);
                m.fill(x);
                old
            })));
        }
        "fmt" | "fmtf" => return Some(chars(&render(c.regs[l.reg(1)].inner()))),
        _ => return None,
    }
    Some(String::new())
}

fn render<B: OrderedBasis, S: Sc>(v: &Sdv<B, S>) -> String { format!("{}", v) }

fn tensor<S: Sc, const N: u32, V: Dense<TensorBasis<N>, S>>(c: &mut Ctx<V, S>, l: &Line) -> Option<String> {
    match l.op() {
        "degree" => Some(clamp(c.regs[l.reg(1)].inner().degree() as i64).to_string()),
        "fromcat" => {
            let v = V::wrap(Sdv::from_key(TensorKey::<N>::from_letters(&l.word(2)).concatenate(&TensorKey::from_letters(&l.word(3)))));
            c.regs[l.reg(1)] = v;
            Some(String::new())
        }
        "exp" | "log" | "fmexp" => {
            let f = c.free.unwrap_or_else(|| die("no free tensor of this width and degree"));
            let arg = DenseVector::as_slice(c.regs[l.reg(2)].inner()).to_vec();
            let me = DenseVector::as_slice(c.regs[l.reg(1)].inner()).to_vec();
            let (res, after) = f(l.op(), me, arg.clone(), c.lent);
            c.regs[l.reg(1)] = V::wrap(Sdv::from(res));
            if slice(&after) != slice(&arg) {
                c.regs[l.reg(2)] = V::wrap(Sdv::from(after));
            }
            Some(String::new())
        }
        _ => dense(c, l),
    }
}

fn func<S: Sc>(name: &str) -> impl FnMut(&S) -> S {
    let f: fn(&S) -> S = match name {
        "id" => |x| x.clone(),
        "neg" => |x| x.uminus(),
        "sq" => |x| CoefficientField::mul(x, x),
        "twice" => |x| CoefficientField::add(x, x),
        "inc" => |x| CoefficientField::add(x, &S::ONE),
        _ => die("function"),
    };
    move |x| f(x)
}

fn algebra<S: Sc, const N: u32, V: Dense<TensorBasis<N>, S> + Algebra<'static>>(c: &mut Ctx<V, S>, l: &Line) -> Option<String> {
    let d = |i: usize| if l.tok(i) == "-" { None } else { Some(l.int(i) as u32) };
    let s = |i: usize| -> S { sc(l.frac(i)) };
    let q = |i: usize| -> S::RationalType { let f = l.frac(i); S::rat(f.0, f.1) };
    match l.op() {
        "mul" => { let v = c.regs[l.reg(2)].multiply(&c.regs[l.reg(3)], d(4)); c.regs[l.reg(1)] = v; }
        "comm" => { let v = c.regs[l.reg(2)].commutator(&c.regs[l.reg(3)], d(4)); c.regs[l.reg(1)] = v; }
        "muli" => { let (t, a) = c.two(l.reg(1), l.reg(2)); t.multiply_inplace(a, d(3)); }
        "addmul" => { let (t, a, b) = c.three(l.reg(1), l.reg(2), l.reg(3)); t.add_mul(a, b, d(4)); }
        "submul" => { let (t, a, b) = c.three(l.reg(1), l.reg(2), l.reg(3)); t.sub_mul(a, b, d(4)); }
        "mslp" => { let (t, a) = c.two(l.reg(1), l.reg(2)); t.mul_scal_lprod(a, s(3), d(4)); }
        "msrp" => { let (t, a) = c.two(l.reg(1), l.reg(2)); t.mul_scal_rprod(a, s(3), d(4)); }
        "mrld" => { let (t, a) = c.two(l.reg(1), l.reg(2)); t.mul_rat_ldiv(a, q(3), d(4)); }
        "mrrd" => { let (t, a) = c.two(l.reg(1), l.reg(2)); t.mul_rat_rdiv(a, q(3), d(4)); }
        "maai" => { let (t, a, b) = c.three(l.reg(1), l.reg(2), l.reg(3)); t.multiply_and_add_into_impl(a, b, func::<S>(l.tok(4)), d(5)); }
        "mii" => { let (t, a) = c.two(l.reg(1), l.reg(2)); t.multiply_into_impl(a, func::<S>(l.tok(3)), d(4)); }
        _ => return tensor(c, l),
    }
    Some(String::new())
}

/// exp, log and fmexp of the vectors themselves, however they are stored
fn free_algebra<S: Sc, const N: u32, V: Dense<TensorBasis<N>, S> + FreeTensor<'static, S, N>>(c: &mut Ctx<V, S>, l: &Line) -> Option<String> {
    match l.op() {
        "exp" => { let v = c.regs[l.reg(2)].exp(); c.regs[l.reg(1)] = v; }
        "log" => { let v = c.regs[l.reg(2)].log(); c.regs[l.reg(1)] = v; }
        "fmexp" => { let (t, a) = c.two(l.reg(1), l.reg(2)); t.fmexp(a); }
        _ => return algebra(c, l),
    }
    Some(String::new())
}

macro_rules! dense_type {
    ([$($g:tt)*] $t:ty, $b:ty, $kind:literal, $n:expr, $key:expr, $more:ident, $wrap:expr, $inner:expr, $innermut:expr, $unwrap:expr) => {
        impl<S: Sc, $($g)*> Subj<S> for $t {
            type Twin = Sdv<$b, S>;
            fn twin(&self) -> Self::Twin { Sdv::from(DenseVector::as_slice(self.inner()).to_vec()) }
            const KIND: &'static str = $kind;
            fn letters() -> u32 { $n }
            fn key(w: &[u32]) -> Self::KeyType { $key(w) }
            fn obs(&self) -> String { slice(DenseVector::as_slice(self.inner())) }
            fn more(c: &mut Ctx<Self, S>, l: &Line) -> Option<String> { $more(c, l) }
        }
        impl<S: Sc, $($g)*> Dense<$b, S> for $t {
            fn wrap(v: Sdv<$b, S>) -> Self { $wrap(v) }
            fn inner(&self) -> &Sdv<$b, S> { $inner(self) }
            fn inner_mut(&mut self) -> &mut Sdv<$b, S> { $innermut(self) }
            fn unwrap(self) -> Sdv<$b, S> { $unwrap(self) }
        }
    };
}
dense_type!([const N: u32] Tens<N, S>, TensorBasis<N>, "t", N, TensorKey::from_letters, algebra, |v| v, |v| v, |v| v, |v| v);
dense_type!([const N: u32] DenseTensor<'static, S, N>, TensorBasis<N>, "t", N, TensorKey::from_letters, tensor,
    |v| DenseTensor::from(v), Deref::deref, DerefMut::deref_mut, |v: Self| -> Tens<N, S> { v.into() });
dense_type!([const N: u32, const D: u32] Wr<Tens<N, S>, D>, TensorBasis<N>, "t", N, TensorKey::from_letters, free_algebra,
    |v| Wr(v), Deref::deref, DerefMut::deref_mut, |v: Self| v.0);
dense_type!([] Sdv<IntBasis<4>, S>, IntBasis<4>, "i", 1, |w: &[u32]| Ik(w[0]), dense, |v| v, |v| v, |v| v, |v| v);
dense_type!([] Sdv<IntBasis<1>, S>, IntBasis<1>, "j", 1, |w: &[u32]| Ik(w[0]), dense, |v| v, |v| v, |v| v, |v| v);
dense_type!([] Sdv<IntBasis<64>, S>, IntBasis<64>, "c", 1, |w: &[u32]| Ik(w[0]), dense, |v| v, |v| v, |v| v, |v| v);

pub type Ssv<S> = SimpleSparseVector<'static, IntBasis, S, Ik>;

fn sparse_pairs<S: Sc>(v: &Ssv<S>) -> String {
    let mut items: Vec<(u32, String)> = v.into_iter().map(|it| (it.key().0, img(it.value()))).collect();
    items.sort();
    list(&items, |(k, x)| format!("[{},{}]", k, x))
}

impl<S: Sc> Subj<S> for Ssv<S> {
    type Twin = Ssv<S>;
    fn twin(&self) -> Ssv<S> { Vector::to_owned(self) }
    const KIND: &'static str = "s";
    fn letters() -> u32 { 1 }
    fn key(w: &[u32]) -> Ik { Ik(w[0]) }
    fn obs(&self) -> String { sparse_pairs(self) }
    fn more(c: &mut Ctx<Self, S>, l: &Line) -> Option<String> {
        match l.op() {
            "iter" => Some(sparse_pairs(&c.regs[l.reg(1)])),
            "rewrap" => { let v = Vector::to_owned(&c.regs[l.reg(2)]); c.regs[l.reg(1)] = v; Some(String::new()) }
            _ => None,
        }
    }
}
impl<S: Sc> Subj<S> for Wr<Ssv<S>> {
    type Twin = Ssv<S>;
    fn twin(&self) -> Ssv<S> { Vector::to_owned(&self.0) }
    const KIND: &'static str = "s";
    fn letters() -> u32 { 1 }
    fn key(w: &[u32]) -> Ik { Ik(w[0]) }
    fn obs(&self) -> String { sparse_pairs(&self.0) }
    fn more(c: &mut Ctx<Self, S>, l: &Line) -> Option<String> {
        match l.op() {
            "iter" => Some(sparse_pairs(&c.regs[l.reg(1)].0)),
            "rewrap" => { let v = Wr(Vector::to_owned(&c.regs[l.reg(2)]).0); c.regs[l.reg(1)] = v; Some(String::new()) }
            _ => None,
        }
    }
}

/// how the arguments of an operation are logged
fn args<S: Sc>(l: &Line) -> String {
    let names: &[&str] = match l.op() {
        "new" | "clear" | "negi" => &["r"],
        "fromkey" | "erase" => &["r", "k"],
        "fromks" | "ins1" | "getmut" | "kam" | "ksm" => &["r", "k", "s"],
        "kad" | "ksd" => &["r", "k", "q"],
        "fromit" | "ins" => &["r", "ps"],
        "fromvec" => &["r", "v"],
        "fromdim" | "resize" => &["r", "x"],
        "fromcat" => &["r", "k", "k2"],
        "buf" => &["y", "v"],
        "borrow" | "borrowmut" => &["r", "y"],
        "clone" | "own" | "rewrap" | "swap" | "neg" | "addi" | "subi" | "exp" | "log" | "fmexp" => &["r", "a"],
        "get" => &["a", "k"],
        "getslice" => &["a", "x", "x2"],
        "getmutslice" => &["r", "x", "x2", "s"],
        "getidx" => &["a", "x"],
        "size" | "degree" | "fmt" | "fmtf" | "iter" => &["a"],
        "eq" => &["a", "b"],
        "same" => &["a", "b", "d"],
        "add" | "sub" => &["r", "a", "b"],
        "smr" | "sml" => &["r", "a", "s"],
        "sdr" | "sdl" => &["r", "a", "q"],
        "smli" | "smri" => &["r", "s"],
        "sdri" | "sdli" => &["r", "q"],
        "asrm" | "aslm" | "ssrm" | "sslm" => &["r", "a", "s"],
        "asrd" | "asld" | "ssrd" | "ssld" => &["r", "a", "q"],
        "mul" | "comm" | "addmul" | "submul" => &["r", "a", "b", "d"],
        "muli" => &["r", "a", "d"],
        "mslp" | "msrp" => &["r", "a", "s", "d"],
        "mrld" | "mrrd" => &["r", "a", "q", "d"],
        "maai" => &["r", "a", "b", "f", "d"],
        "mii" => &["r", "a", "f", "d"],
        _ => die(&format!("unknown operation {}", l.op())),
    };
    let mut out = String::new();
    for (i, n) in names.iter().enumerate() {
        let v = match *n {
            "r" | "a" | "b" | "y" | "x" | "x2" => l.reg(i + 1).to_string(),
            "k" | "k2" => ints(&l.word(i + 1)),
            "s" | "q" => img(&sc::<S>(l.frac(i + 1))),
            "v" => list(&l.fracs(i + 1), |f| img(&sc::<S>(*f))),
            "ps" => list(&l.pairs(i + 1), |(w, f)| format!("[{},{}]", ints(w), img(&sc::<S>(*f)))),
            "d" => if l.tok(i + 1) == "-" { "-1".into() } else { l.int(i + 1).min(i32::MAX as i64).to_string() },
            "f" => format!("\"{}\"", l.tok(i + 1)),
            _ => unreachable!(),
        };
        out.push_str(&format!(",\"{}\":{}", n, v));
    }
    out
}

fn look<S: Sc, V: Subj<S>>(v: &V) -> String {
    match catch_unwind(AssertUnwindSafe(|| v.obs())) { Ok(s) => s, Err(_) => "[-2]".into() }
}

fn twin_call<S: Sc, V: Subj<S>>(c: &Ctx<V, S>, l: &Line, seen: &[String], free: Option<FreeFn<S>>) -> String {
    let mut t: Ctx<V::Twin, S> = Ctx { regs: c.regs.iter().map(|v| v.twin()).collect(), bufs: c.bufs.clone(), free, lent: false };
    let own;
    let l = match l.op() {
        "borrow" | "borrowmut" => {
            let v = list(c.lent(l.reg(2)), img);
            let v = v[1..v.len() - 1].to_string();
            own = Line { words: vec!["fromvec".into(), l.tok(1).into(), if v.is_empty() { "_".into() } else { v }] };
            &own
        }
        "buf" => return ",\"tout\":\"ok\",\"tres\":[],\"tobs\":[]".into(),
        _ => l,
    };
    let r = catch_unwind(AssertUnwindSafe(|| basic::<S, V::Twin>(&mut t, l)));
    let mut obs = String::new();
    for i in 1..t.regs.len() {
        let now = look::<S, V::Twin>(&t.regs[i]);
        if now != seen[i] {
            if !obs.is_empty() { obs.push(','); }
            obs.push_str(&format!("[{},{}]", i, now));
        }
    }
    match r {
        Ok(Some(res)) => format!(",\"tout\":\"ok\",\"tres\":[{}],\"tobs\":[{}]", res, obs),
        Ok(None) => die(&format!("operation {} not available for the twin", l.op())),
        Err(_) => format!(",\"tout\":\"panic\",\"tres\":[],\"tobs\":[{}]", obs),
    }
}

fn run<S: Sc, V: Subj<S>>(ep: usize, lines: &[Line], log: &mut Log, p: u32, free: Option<FreeFn<S>>, twinfree: Option<FreeFn<S>>) {
    let (maxd, nr, nb) = (lines[0].int(5), lines[0].reg(6), lines[0].reg(7));
    let twins = lines[0].words.get(8).map(|x| x == "twin").unwrap_or(false);
    let mut c: Ctx<V, S> = Ctx { regs: (0..=nr).map(|_| V::new()).collect(),
        bufs: (0..=nb).map(|_| (std::ptr::NonNull::dangling().as_ptr(), 0)).collect(), free, lent: twins && nb > 0 };
    let mut armed = -1;
    let mut seen: Vec<String> = vec!["[]".into(); nr + 1];
    let mut seenb: Vec<String> = vec!["[]".into(); nb + 1];
    log.call(ep, "begin", &format!(",\"kind\":\"{}\",\"n\":{},\"p\":{},\"maxd\":{},\"nr\":{},\"nb\":{}", V::KIND, V::letters(), p, maxd, nr, nb));
    log.ret("ok", "", "", "");
    for l in &lines[1..] {
        if l.op() == "heap" {
            log.call(ep, "heap", "");
            let (h, t) = (heap_ok(), tokens_ok());
            log.ret("ok", if h && t { "1" } else { "0" }, "", "");
            continue;
        }
        // the next call panics after a number of operations on scalars
        if l.op() == "fuse" {
            log.call(ep, "fuse", &format!(",\"x\":{}", l.int(1)));
            log.ret("ok", "", "", "");
            armed = l.int(1);
            continue;
        }
        log.call(ep, l.op(), &args::<S>(l));
        // the same call on owning, unwrapped copies of all vectors
        if twins { let t = twin_call::<S, V>(&c, l, &seen, twinfree); log.more(&t); }
        fuse(armed);
        let r = catch_unwind(AssertUnwindSafe(|| basic::<S, V>(&mut c, l)));
        fuse(-1);
        armed = -1;
        let (mut obs, mut buf) = (String::new(), String::new());
        for i in 1..=nr {
            let now = look::<S, V>(&c.regs[i]);
            if now != seen[i] {
                if !obs.is_empty() { obs.push(','); }
                obs.push_str(&format!("[{},{}]", i, now));
                seen[i] = now;
            }
        }
        for i in 1..=nb {
            let now = slice(unsafe { std::slice::from_raw_parts(c.bufs[i].0, c.bufs[i].1) });
            if now != seenb[i] {
                if !buf.is_empty() { buf.push(','); }
                buf.push_str(&format!("[{},{}]", i, now));
                seenb[i] = now;
            }
        }
        match r {
            Ok(Some(res)) => log.ret("ok", &res, &obs, &buf),
            Ok(None) => die(&format!("operation {} not available for this vector", l.op())),
            Err(_) => log.ret("panic", "", &obs, &buf),
        }
    }
    let _ = PhantomData::<S>;
}

type F = Fp<BIGP>;
type F5 = Fp<5>;

macro_rules! table { ($f:ident, $n:expr, $d:expr; $x:tt $(($a:literal, $b:literal))*) => {
    match ($n, $d) { $(($a, $b) => Some($f::<$x, $a, $b>),)* _ => None }
}; }

pub fn episode(ep: usize, lines: &[Line], log: &mut Log) {
    let b = &lines[0];
    let (fl, n, s, d) = (b.tok(2), b.int(3), b.tok(4), b.int(5));
    let plain: Option<FreeFn<F>> = table!(free_plain, n, d; BIGP (1, 0) (1, 1) (1, 5) (2, 0) (2, 1) (2, 2) (2, 3) (2, 4) (2, 5)
        (3, 0) (3, 1) (3, 2) (3, 3) (3, 4) (4, 1) (4, 2) (4, 3) (5, 2) (5, 3) (6, 2) (7, 2) (8, 2) (10, 2) (12, 2)
        (1, 2) (1, 3) (1, 8) (1, 9) (1, 12) (1, 20) (2, 6) (2, 7) (3, 5) (4, 4) (6, 3) (8, 3) (9, 2) (11, 2) (16, 2));
    let plain5: Option<FreeFn<F5>> = table!(free_plain, n, d; 5 (2, 3) (2, 4) (3, 3));
    let wrapped: Option<FreeFn<F>> = table!(free_wrapped, n, d; F (1, 3) (1, 9) (2, 2) (2, 3) (2, 4) (2, 6) (3, 2) (3, 3) (3, 4));
    let w64: Option<FreeFn<f64>> = table!(free_wrapped, n, d; f64 (2, 2) (2, 3) (2, 4) (3, 2) (3, 3));
    let w32: Option<FreeFn<f32>> = table!(free_wrapped, n, d; f32 (2, 2) (2, 3) (3, 2));
    let h: Option<FreeFn<Hp>> = table!(free_wrapped, n, d; Hp (1, 5) (2, 2) (2, 3) (2, 4) (3, 2) (3, 3));
    macro_rules! wide { ($s:ty, $p:expr, $twin:expr; $(($a:literal, $b:literal))*) => {
        match (n, d) { $(($a, $b) => run::<$s, Wr<Tens<$a, $s>, $b>>(ep, lines, log, $p, None, $twin),)* _ => die("no wrapper of this width and degree") }
    }; }
    macro_rules! go {
        ($v:ty, $s:ty, $p:expr, $free:expr) => { run::<$s, $v>(ep, lines, log, $p, $free, $free) };
        ($v:ty, $s:ty, $p:expr, $free:expr, $twin:expr) => { run::<$s, $v>(ep, lines, log, $p, $free, $twin) };
    }
    match (fl, s, n) {
        ("d", "p", 1) => go!(Tens<1, F>, F, BIGP, plain),
        ("d", "p", 2) => go!(Tens<2, F>, F, BIGP, plain),
        ("d", "p", 3) => go!(Tens<3, F>, F, BIGP, plain),
        ("d", "p", 4) => go!(Tens<4, F>, F, BIGP, plain),
        ("d", "p", 5) => go!(Tens<5, F>, F, BIGP, plain),
        ("d", "p", 6) => go!(Tens<6, F>, F, BIGP, plain),
        ("d", "p", 7) => go!(Tens<7, F>, F, BIGP, plain),
        ("d", "p", 8) => go!(Tens<8, F>, F, BIGP, plain),
        ("d", "p", 9) => go!(Tens<9, F>, F, BIGP, plain),
        ("d", "p", 11) => go!(Tens<11, F>, F, BIGP, plain),
        ("d", "p", 16) => go!(Tens<16, F>, F, BIGP, plain),
        ("d", "p", 20) => go!(Tens<20, F>, F, BIGP, plain),
        ("d", "p", 33) => go!(Tens<33, F>, F, BIGP, plain),
        ("d", "p", 10) => go!(Tens<10, F>, F, BIGP, plain),
        ("d", "p", 12) => go!(Tens<12, F>, F, BIGP, plain),
        ("d", "p5", 2) => go!(Tens<2, F5>, F5, 5, plain5),
        ("d", "p5", 3) => go!(Tens<3, F5>, F5, 5, plain5),
        ("d", "f64", 2) => go!(Tens<2, f64>, f64, BIGP, w64),
        ("d", "f64", 3) => go!(Tens<3, f64>, f64, BIGP, w64),
        ("d", "f32", 2) => go!(Tens<2, f32>, f32, BIGP, w32),
        ("d", "f32", 3) => go!(Tens<3, f32>, f32, BIGP, w32),
        ("dt", "p", 1) => go!(DenseTensor<'static, F, 1>, F, BIGP, wrapped, plain),
        ("dt", "p", 2) => go!(DenseTensor<'static, F, 2>, F, BIGP, wrapped, plain),
        ("dt", "p", 3) => go!(DenseTensor<'static, F, 3>, F, BIGP, wrapped, plain),
        ("dt", "f64", 2) => go!(DenseTensor<'static, f64, 2>, f64, BIGP, w64),
        ("w", "p", _) => wide!(F, BIGP, plain; (1, 0) (2, 0) (3, 0) (1, 3) (1, 9) (2, 2) (2, 3) (2, 4) (2, 6) (3, 2) (3, 3) (3, 4)),
        ("w", "f64", _) => wide!(f64, BIGP, w64; (2, 0) (2, 2)),
        ("w", "h", _) => wide!(Hp, BIGP, h; (2, 0) (2, 3)),
        ("i", "p", _) => go!(Sdv<IntBasis, F>, F, BIGP, None),
        ("d", "h", 1) => go!(Tens<1, Hp>, Hp, BIGP, h),
        ("d", "h", 2) => go!(Tens<2, Hp>, Hp, BIGP, h),
        ("d", "h", 3) => go!(Tens<3, Hp>, Hp, BIGP, h),
        ("dt", "h", 2) => go!(DenseTensor<'static, Hp, 2>, Hp, BIGP, h),
        ("i", "h", _) => go!(Sdv<IntBasis, Hp>, Hp, BIGP, None),
        ("s", "h", _) => go!(Ssv<Hp>, Hp, BIGP, None),
        ("i", "f32", _) => go!(Sdv<IntBasis, f32>, f32, BIGP, None),
        ("j", "p", _) => go!(Sdv<IntBasis<1>, F>, F, BIGP, None),
        ("c", "p", _) => go!(Sdv<IntBasis<64>, F>, F, BIGP, None),
        ("s", "p", _) => go!(Ssv<F>, F, BIGP, None),
        ("s", "p5", _) => go!(Ssv<F5>, F5, 5, None),
        ("s", "f64", _) => go!(Ssv<f64>, f64, BIGP, None),
        ("ws", "p", _) => go!(Wr<Ssv<F>>, F, BIGP, None),
        _ => die(&format!("no vector type {} over {} with {} letters", fl, s, n)),
    }
}
