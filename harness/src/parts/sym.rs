//! `Sym`: a floating-point number that is either a concrete f64 (all-constant arithmetic is done in
//! f64, bit for bit as the real code does it) or a node of an expression graph over symbolic inputs.
//! Comparisons of symbolic values fork the execution: the path taken is dictated by a decision
//! vector and recorded together with its condition.
use num_complex::Complex;
use num_traits::{Float, FloatConst, FromPrimitive, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::collections::HashMap;
use std::num::FpCategory;
use std::ops::*;
use std::sync::atomic::{AtomicBool, Ordering as AO};
use std::sync::Mutex;

#[derive(Clone, Copy, Default)]
#[repr(C)]
pub struct Sym {
    tag: u64, // 0: constant, 1: node
    bits: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Input = 0,
    Add = 1,
    Sub = 2,
    Mul = 3,
    Div = 4,
    Neg = 5,
    Abs = 6,
    Sqrt = 7,
    Rem = 8,
    Fma = 9, // first part of a fused multiply-add: product without rounding
    Other = 10,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub a: (u64, u64),
    pub b: (u64, u64),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub enum Rel {
    Lt,
    Le,
    Eq,
}

/// FxHash: the arena is looked up once per operation
#[derive(Clone, Copy, Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}
pub type Fast = std::hash::BuildHasherDefault<Fx>;

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, u64, Fast>,
    pub ninputs: u64,
    pub decisions: Vec<bool>,
    pub path: Vec<(Rel, Sym, Sym, bool)>,
    seen: HashMap<(Rel, (u64, u64), (u64, u64)), bool>,
    pub unsupported: Option<String>,
}

static ARENA: Mutex<Option<Arena>> = Mutex::new(None);
static SINGLE: AtomicBool = AtomicBool::new(false);
static CONCRETE: Mutex<Option<(Vec<f64>, usize)>> = Mutex::new(None);

/// Inputs become the given constants: the same run, on concrete values.
pub fn set_concrete(v: Option<Vec<f64>>) {
    *CONCRETE.lock().unwrap() = v.map(|v| (v, 0));
}

pub fn set_single(b: bool) {
    SINGLE.store(b, AO::SeqCst)
}
/// rounding of constants to the precision under test
pub fn rnd(x: f64) -> f64 {
    if SINGLE.load(AO::Relaxed) {
        x as f32 as f64
    } else {
        x
    }
}

fn with<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
    let mut g = match ARENA.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    if g.is_none() {
        *g = Some(new_arena(vec![]));
    }
    f(g.as_mut().unwrap())
}
fn new_arena(decisions: Vec<bool>) -> Arena {
    Arena {
        nodes: Vec::new(),
        map: HashMap::default(),
        ninputs: 0,
        decisions,
        path: Vec::new(),
        seen: HashMap::new(),
        unsupported: None,
    }
}
pub fn reset(decisions: Vec<bool>) {
    let mut g = match ARENA.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    *g = Some(new_arena(decisions));
}
pub fn take() -> Arena {
    let mut g = match ARENA.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    g.take().unwrap_or_else(|| new_arena(vec![]))
}

#[track_caller]
fn unsupported(what: &str) -> ! {
    let loc = std::panic::Location::caller();
    let m = format!("{} at {}", what, loc);
    with(|a| {
        if a.unsupported.is_none() {
            a.unsupported = Some(m.clone())
        }
    });
    panic!("SYM-UNSUPPORTED {}", m)
}

fn mk(op: Op, a: Sym, b: Sym) -> Sym {
    // + and * commute in IEEE arithmetic
    let (a, b) = if (op == Op::Add || op == Op::Mul) && b.raw() < a.raw() { (b, a) } else { (a, b) };
    let n = Node { op, a: (a.tag, a.bits), b: (b.tag, b.bits) };
    with(|ar| {
        if let Some(&i) = ar.map.get(&n) {
            return Sym { tag: 1, bits: i };
        }
        let i = ar.nodes.len() as u64;
        ar.nodes.push(n);
        ar.map.insert(n, i);
        Sym { tag: 1, bits: i }
    })
}

fn decide(rel: Rel, a: Sym, b: Sym) -> bool {
    let key = (rel, (a.tag, a.bits), (b.tag, b.bits));
    let r = with(|ar| {
        if let Some(&v) = ar.seen.get(&key) {
            return Ok(v);
        }
        let i = ar.path.len();
        if i > 200_000 {
            return Err(());
        }
        let v = if i < ar.decisions.len() { ar.decisions[i] } else { false };
        ar.path.push((rel, a, b, v));
        ar.seen.insert(key, v);
        Ok(v)
    });
    match r {
        Ok(v) => v,
        Err(()) => unsupported("too many symbolic branches"),
    }
}

impl Sym {
    pub const fn c(x: f64) -> Self {
        Sym { tag: 0, bits: x.to_bits() }
    }
    fn k(x: f64) -> Self {
        Sym::c(rnd(x))
    }
    pub fn input() -> Self {
        if let Some((v, i)) = CONCRETE.lock().unwrap().as_mut() {
            *i += 1;
            return Sym::k(v.get(*i - 1).copied().unwrap_or(0.));
        }
        let id = with(|a| {
            a.ninputs += 1;
            a.ninputs - 1
        });
        mk(Op::Input, Sym { tag: 0, bits: id }, Sym::c(0.))
    }
    pub fn konst(self) -> Option<f64> {
        if self.tag == 0 {
            Some(f64::from_bits(self.bits))
        } else {
            None
        }
    }
    pub fn raw(self) -> (u64, u64) {
        (self.tag, self.bits)
    }
    #[track_caller]
    fn un(self, what: &str, f: impl Fn(f64) -> f64, f3: impl Fn(f32) -> f32) -> Self {
        match self.konst() {
            Some(x) => {
                if SINGLE.load(AO::Relaxed) {
                    Sym::c(f3(x as f32) as f64)
                } else {
                    Sym::c(f(x))
                }
            }
            None => unsupported(what),
        }
    }
}

macro_rules! binop {
    ($tr:ident, $m:ident, $tra:ident, $ma:ident, $op:expr, $f:expr) => {
        impl $tr for Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                rayon_core::sched::point();
                match (self.konst(), o.konst()) {
                    (Some(x), Some(y)) => Sym::k($f(x, y)),
                    _ => mk($op, self, o),
                }
            }
        }
        impl<'a> $tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: &'a Sym) -> Sym {
                $tr::$m(self, *o)
            }
        }
        impl<'a, 'b> $tr<&'a Sym> for &'b Sym {
            type Output = Sym;
            fn $m(self, o: &'a Sym) -> Sym {
                $tr::$m(*self, *o)
            }
        }
        impl<'b> $tr<Sym> for &'b Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                $tr::$m(*self, o)
            }
        }
        impl $tra for Sym {
            fn $ma(&mut self, o: Sym) {
                *self = $tr::$m(*self, o);
            }
        }
        impl<'a> $tra<&'a Sym> for Sym {
            fn $ma(&mut self, o: &'a Sym) {
                *self = $tr::$m(*self, *o);
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, Op::Add, |x: f64, y: f64| x + y);
binop!(Sub, sub, SubAssign, sub_assign, Op::Sub, |x: f64, y: f64| x - y);
binop!(Mul, mul, MulAssign, mul_assign, Op::Mul, |x: f64, y: f64| x * y);
binop!(Div, div, DivAssign, div_assign, Op::Div, |x: f64, y: f64| x / y);
binop!(Rem, rem, RemAssign, rem_assign, Op::Rem, |x: f64, y: f64| x % y);

impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        match self.konst() {
            Some(x) => Sym::c(-x),
            None => mk(Op::Neg, self, Sym::c(0.)),
        }
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        match (self.konst(), o.konst()) {
            (Some(x), Some(y)) => x == y,
            _ => {
                if self.raw() == o.raw() {
                    return true;
                }
                decide(Rel::Eq, *self, *o)
            }
        }
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        match (self.konst(), o.konst()) {
            (Some(x), Some(y)) => x.partial_cmp(&y),
            _ => {
                if decide(Rel::Lt, *self, *o) {
                    Some(Ordering::Less)
                } else if self == o {
                    Some(Ordering::Equal)
                } else {
                    Some(Ordering::Greater)
                }
            }
        }
    }
    fn lt(&self, o: &Sym) -> bool {
        match (self.konst(), o.konst()) {
            (Some(x), Some(y)) => x < y,
            _ => decide(Rel::Lt, *self, *o),
        }
    }
    fn le(&self, o: &Sym) -> bool {
        match (self.konst(), o.konst()) {
            (Some(x), Some(y)) => x <= y,
            _ => decide(Rel::Le, *self, *o),
        }
    }
    fn gt(&self, o: &Sym) -> bool {
        o.lt(self)
    }
    fn ge(&self, o: &Sym) -> bool {
        o.le(self)
    }
}
impl Zero for Sym {
    fn zero() -> Self {
        Sym::c(0.)
    }
    fn is_zero(&self) -> bool {
        *self == Sym::c(0.)
    }
}
impl One for Sym {
    fn one() -> Self {
        Sym::c(1.)
    }
}
impl Num for Sym {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(Sym::k)
    }
}
impl ToPrimitive for Sym {
    #[track_caller]
    fn to_i64(&self) -> Option<i64> {
        match self.konst() {
            Some(x) => x.to_i64(),
            None => unsupported("conversion of a symbolic value to an integer"),
        }
    }
    #[track_caller]
    fn to_u64(&self) -> Option<u64> {
        match self.konst() {
            Some(x) => x.to_u64(),
            None => unsupported("conversion of a symbolic value to an integer"),
        }
    }
    #[track_caller]
    fn to_f64(&self) -> Option<f64> {
        match self.konst() {
            Some(x) => Some(x),
            None => unsupported("conversion of a symbolic value to f64"),
        }
    }
}
impl NumCast for Sym {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        if SINGLE.load(AO::Relaxed) {
            n.to_f32().map(|x| Sym::c(x as f64))
        } else {
            n.to_f64().map(Sym::c)
        }
    }
}
impl FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Self> {
        Some(Sym::k(n as f64))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(Sym::k(n as f64))
    }
    fn from_f64(n: f64) -> Option<Self> {
        Some(Sym::k(n))
    }
    fn from_f32(n: f32) -> Option<Self> {
        Some(Sym::c(n as f64))
    }
}
impl Signed for Sym {
    fn abs(&self) -> Self {
        match self.konst() {
            Some(x) => Sym::c(x.abs()),
            None => mk(Op::Abs, *self, Sym::c(0.)),
        }
    }
    fn abs_sub(&self, o: &Self) -> Self {
        if *self <= *o {
            Sym::c(0.)
        } else {
            *self - *o
        }
    }
    fn signum(&self) -> Self {
        match self.konst() {
            Some(x) => Sym::c(Signed::signum(&x)),
            None => {
                if *self < Sym::c(0.) {
                    Sym::c(-1.)
                } else {
                    Sym::c(1.)
                }
            }
        }
    }
    fn is_positive(&self) -> bool {
        *self > Sym::c(0.)
    }
    fn is_negative(&self) -> bool {
        *self < Sym::c(0.)
    }
}
macro_rules! consts {
    ($($n:ident),*) => { impl FloatConst for Sym { $(fn $n() -> Self { Sym::k(<f64 as FloatConst>::$n()) })* } };
}
consts!(
    E, FRAC_1_PI, FRAC_1_SQRT_2, FRAC_2_PI, FRAC_2_SQRT_PI, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4,
    FRAC_PI_6, FRAC_PI_8, LN_10, LN_2, LOG10_E, LOG2_E, PI, SQRT_2
);
macro_rules! unary {
    ($($n:ident),*) => { $( #[track_caller] fn $n(self) -> Self { self.un(stringify!($n), |x| Float::$n(x), |x| Float::$n(x)) } )* };
}
impl Float for Sym {
    fn nan() -> Self {
        Sym::c(f64::NAN)
    }
    fn infinity() -> Self {
        Sym::c(f64::INFINITY)
    }
    fn neg_infinity() -> Self {
        Sym::c(f64::NEG_INFINITY)
    }
    fn neg_zero() -> Self {
        Sym::c(-0.)
    }
    fn min_value() -> Self {
        Sym::c(f64::MIN)
    }
    fn min_positive_value() -> Self {
        Sym::c(f64::MIN_POSITIVE)
    }
    fn max_value() -> Self {
        Sym::c(f64::MAX)
    }
    fn epsilon() -> Self {
        if SINGLE.load(AO::Relaxed) {
            Sym::c(f32::EPSILON as f64)
        } else {
            Sym::c(f64::EPSILON)
        }
    }
    // inputs range over finite numbers
    fn is_nan(self) -> bool {
        self.konst().map_or(false, |x| x.is_nan())
    }
    fn is_infinite(self) -> bool {
        self.konst().map_or(false, |x| x.is_infinite())
    }
    fn is_finite(self) -> bool {
        self.konst().map_or(true, |x| x.is_finite())
    }
    fn is_normal(self) -> bool {
        match self.konst() {
            Some(x) => x.is_normal(),
            None => !(Signed::abs(&self) < Sym::c(f64::MIN_POSITIVE)),
        }
    }
    #[track_caller]
    fn classify(self) -> FpCategory {
        match self.konst() {
            Some(x) => x.classify(),
            None => unsupported("classify"),
        }
    }
    fn abs(self) -> Self {
        Signed::abs(&self)
    }
    fn signum(self) -> Self {
        Signed::signum(&self)
    }
    fn is_sign_positive(self) -> bool {
        match self.konst() {
            Some(x) => x.is_sign_positive(),
            None => !(self < Sym::c(0.)),
        }
    }
    fn is_sign_negative(self) -> bool {
        match self.konst() {
            Some(x) => x.is_sign_negative(),
            None => self < Sym::c(0.),
        }
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        match (self.konst(), a.konst(), b.konst()) {
            (Some(x), Some(y), Some(z)) => Sym::k(x.mul_add(y, z)),
            _ => {
                let p = match (self.konst(), a.konst()) {
                    (Some(x), Some(y)) => Sym::k(x * y),
                    _ => mk(Op::Fma, self, a),
                };
                p + b
            }
        }
    }
    fn recip(self) -> Self {
        Sym::c(1.) / self
    }
    fn powi(self, n: i32) -> Self {
        match self.konst() {
            Some(x) => {
                if SINGLE.load(AO::Relaxed) {
                    Sym::c((x as f32).powi(n) as f64)
                } else {
                    Sym::c(x.powi(n))
                }
            }
            None => {
                let mut r = Sym::c(1.);
                for i in 0..n.unsigned_abs() {
                    r = if i == 0 { self } else { r * self };
                }
                if n < 0 {
                    Sym::c(1.) / r
                } else {
                    r
                }
            }
        }
    }
    fn sqrt(self) -> Self {
        match self.konst() {
            Some(x) => Sym::k(x.sqrt()),
            None => mk(Op::Sqrt, self, Sym::c(0.)),
        }
    }
    #[track_caller]
    fn powf(self, n: Self) -> Self {
        match (self.konst(), n.konst()) {
            (Some(x), Some(y)) => Sym::k(x.powf(y)),
            (None, Some(y)) if y == y.trunc() && y.abs() < 64. => self.powi(y as i32),
            _ => unsupported("powf"),
        }
    }
    fn max(self, o: Self) -> Self {
        if self < o {
            o
        } else {
            self
        }
    }
    fn min(self, o: Self) -> Self {
        if o < self {
            o
        } else {
            self
        }
    }
    fn abs_sub(self, o: Self) -> Self {
        Signed::abs_sub(&self, &o)
    }
    #[track_caller]
    fn log(self, b: Self) -> Self {
        match (self.konst(), b.konst()) {
            (Some(x), Some(y)) => Sym::k(x.log(y)),
            _ => unsupported("log"),
        }
    }
    #[track_caller]
    fn hypot(self, o: Self) -> Self {
        match (self.konst(), o.konst()) {
            (Some(x), Some(y)) => Sym::k(x.hypot(y)),
            _ => (self * self + o * o).sqrt(),
        }
    }
    #[track_caller]
    fn atan2(self, o: Self) -> Self {
        match (self.konst(), o.konst()) {
            (Some(x), Some(y)) => Sym::k(x.atan2(y)),
            _ => unsupported("atan2"),
        }
    }
    #[track_caller]
    fn sin_cos(self) -> (Self, Self) {
        (self.sin(), self.cos())
    }
    #[track_caller]
    fn integer_decode(self) -> (u64, i16, i8) {
        match self.konst() {
            Some(x) => Float::integer_decode(x),
            None => unsupported("integer_decode"),
        }
    }
    unary!(
        floor, ceil, round, trunc, fract, exp, exp2, ln, log2, log10, cbrt, sin, cos, tan, asin,
        acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh
    );
}
impl std::iter::Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(Sym::c(0.), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(it: I) -> Sym {
        it.fold(Sym::c(0.), |a, b| a + *b)
    }
}
impl std::iter::Product for Sym {
    fn product<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(Sym::c(1.), |a, b| a * b)
    }
}
impl<'a> std::iter::Product<&'a Sym> for Sym {
    fn product<I: Iterator<Item = &'a Sym>>(it: I) -> Sym {
        it.fold(Sym::c(1.), |a, b| a * *b)
    }
}
// a real on the left of a complex number
impl Add<Complex<Sym>> for Sym {
    type Output = Complex<Sym>;
    fn add(self, o: Complex<Sym>) -> Complex<Sym> {
        Complex::new(self + o.re, o.im)
    }
}
impl Sub<Complex<Sym>> for Sym {
    type Output = Complex<Sym>;
    fn sub(self, o: Complex<Sym>) -> Complex<Sym> {
        Complex::new(self - o.re, -o.im)
    }
}
impl Mul<Complex<Sym>> for Sym {
    type Output = Complex<Sym>;
    fn mul(self, o: Complex<Sym>) -> Complex<Sym> {
        Complex::new(self * o.re, self * o.im)
    }
}
impl ndarray::ScalarOperand for Sym {}
impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self.konst() {
            Some(x) => write!(f, "{:?}", x),
            None => write!(f, "n{}", self.bits),
        }
    }
}
impl std::fmt::Display for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::fmt::LowerExp for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
// what f32 and f64 both offer and refactored bounds may ask for
macro_rules! from_prim {
    ($($t:ty)*) => {
        $(impl From<$t> for Sym {
            fn from(x: $t) -> Sym {
                Sym::c(x as f64)
            }
        })*
    };
}
from_prim!(u8 i8 u16 i16 f32);
impl num_traits::Bounded for Sym {
    fn min_value() -> Self {
        <Sym as Float>::min_value()
    }
    fn max_value() -> Self {
        <Sym as Float>::max_value()
    }
}
impl num_traits::Inv for Sym {
    type Output = Sym;
    fn inv(self) -> Sym {
        Sym::c(1.) / self
    }
}
impl num_traits::MulAdd for Sym {
    type Output = Sym;
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        Float::mul_add(self, a, b)
    }
}
impl num_traits::Pow<i32> for Sym {
    type Output = Sym;
    fn pow(self, n: i32) -> Sym {
        Float::powi(self, n)
    }
}
impl funspace::FloatNum for Sym {}
impl funspace::ScalarNum for Sym {}
impl funspace::types::VerifScalar for Sym {}
