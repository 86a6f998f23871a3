// Scenarios, instantiated for F = Sym (symbolic), f64 and f32 (native replay).
use funspace::chebyshev::Chebyshev;
use funspace::fourier::{FourierC2c, FourierR2c};
use funspace::space_mpi::{self, BaseSpaceMpi, Decomp2d, Space2Mpi};
use funspace::*;
use ndarray::prelude::*;
use ndarray::{Array, IxDyn};
use num_complex::Complex;
use num_traits::{One, Zero};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

pub type C = Complex<F>;

pub struct Cx {
    pub kv: HashMap<String, String>,
    pub vals: Vec<f64>,
    pub pos: usize,
    pub groups: Vec<(String, Vec<F>)>,
    pub meta: Vec<(String, String)>,
}

pub trait El: ScalarNum {
    const NC: usize;
    fn inp(cx: &mut Cx) -> Self;
    fn put(&self, v: &mut Vec<F>);
}
impl El for F {
    const NC: usize = 1;
    fn inp(cx: &mut Cx) -> F {
        cx.pos += 1;
        let x = cx.vals.get(cx.pos - 1).copied().unwrap_or(0.);
        inf(x)
    }
    fn put(&self, v: &mut Vec<F>) {
        v.push(*self)
    }
}
impl El for C {
    const NC: usize = 2;
    fn inp(cx: &mut Cx) -> C {
        let re = F::inp(cx);
        let im = F::inp(cx);
        C::new(re, im)
    }
    fn put(&self, v: &mut Vec<F>) {
        v.push(self.re);
        v.push(self.im)
    }
}

impl Cx {
    pub fn new(kv: HashMap<String, String>, vals: Vec<f64>) -> Self {
        Cx { kv, vals, pos: 0, groups: vec![], meta: vec![] }
    }
    fn s(&self, k: &str) -> &str {
        self.kv.get(k).map(|s| s.as_str()).unwrap_or_else(|| panic!("HARNESS: missing key {}", k))
    }
    fn opt(&self, k: &str, d: &str) -> String {
        self.kv.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    fn u(&self, k: &str) -> usize {
        self.s(k).parse().unwrap_or_else(|_| panic!("HARNESS: key {}", k))
    }
    fn list(&self, k: &str) -> Vec<usize> {
        self.s(k).split(',').map(|x| x.parse().unwrap()).collect()
    }
    fn strs(&self, k: &str) -> Vec<String> {
        self.s(k).split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
    }
    fn inputs<T: El>(&mut self, n: usize) -> Vec<T> {
        (0..n).map(|_| T::inp(self)).collect()
    }
    fn named<T: El>(&mut self, name: &str, n: usize) -> Vec<T> {
        let v: Vec<T> = self.inputs(n);
        self.out(&format!("in:{}", name), &v);
        v
    }
    fn arr<T: El>(&mut self, name: &str, shape: &[usize]) -> ArrayD<T> {
        let v = self.named::<T>(name, shape.iter().product());
        ArrayD::from_shape_vec(IxDyn(shape), v).unwrap()
    }
    fn out<T: El>(&mut self, name: &str, v: &[T]) {
        let mut o = vec![];
        for x in v {
            x.put(&mut o)
        }
        self.groups.push((name.to_string(), o));
    }
    fn outa<T: El, D: Dimension>(&mut self, name: &str, a: &Array<T, D>) {
        let v: Vec<T> = a.iter().copied().collect();
        self.out(name, &v);
        let sh: Vec<String> = a.shape().iter().map(|x| x.to_string()).collect();
        self.meta(&format!("shape:{}", name), sh.join(","));
    }
    fn meta(&mut self, k: &str, v: impl ToString) {
        self.meta.push((k.to_string(), v.to_string()));
    }
}

pub fn r2r(k: &str, n: usize) -> BaseR2r<F> {
    match k {
        "cheb" => chebyshev(n),
        "dir" => cheb_dirichlet(n),
        "neu" => cheb_neumann(n),
        "dn" => cheb_dirichlet_neumann(n),
        "ba" => cheb_biharmonic_a(n),
        "bb" => cheb_biharmonic_b(n),
        _ => panic!("HARNESS: base {}", k),
    }
}
pub fn r2c(k: &str, n: usize) -> BaseR2c<F> {
    assert!(k == "r2c", "HARNESS: base {}", k);
    fourier_r2c(n)
}
pub fn c2c(k: &str, n: usize) -> BaseC2c<F> {
    assert!(k == "c2c", "HARNESS: base {}", k);
    fourier_c2c(n)
}

/// evaluates $body with $b bound to the base of the case
macro_rules! with_base {
    ($kind:expr, $n:expr, $b:ident => $body:expr) => {
        match $kind {
            "r2c" => {
                let $b = r2c("r2c", $n);
                $body
            }
            "c2c" => {
                let $b = c2c("c2c", $n);
                $body
            }
            k => {
                let $b = r2r(k, $n);
                $body
            }
        }
    };
}

fn spec_real_ends<T: El>(kind: &str, n: usize, y: &mut [T]) {
    // real-to-complex: the imaginary parts of the zero and Nyquist coefficient are zero
    if kind == "r2c" {
        let m = y.len();
        unreal(&mut y[0]);
        if n % 2 == 0 {
            unreal(&mut y[m - 1]);
        }
    }
}
fn unreal<T: El>(x: &mut T) {
    let any: &mut dyn std::any::Any = x;
    if let Some(c) = any.downcast_mut::<C>() {
        c.im = F::zero();
    }
}

// ---------------------------------------------------------------- one-dimensional operations
fn stencil_out<B>(cx: &mut Cx, b: &B)
where
    B: BaseMatOpStencil,
    <B as BaseMatOpStencil>::NumType: El,
{
    if cx.opt("S", "0") == "1" {
        let a = b.stencil();
        cx.outa("S", &a);
        let a = b.stencil_inv();
        cx.outa("I", &a);
    }
}
fn tr<B>(cx: &mut Cx, kind: &str, b: &B)
where
    B: BaseTransform + BaseMatOpStencil,
    <B as BaseMatOpStencil>::NumType: El,
    B::Physical: El,
    B::Spectral: El,
{
    let (n, m) = (b.len_phys(), b.len_spec());
    stencil_out(cx, b);
    let x: Vec<B::Physical> = cx.named("x", n);
    let mut f = cx.inputs::<B::Spectral>(m);
    b.forward_slice(&x, &mut f);
    cx.out("fwd", &f);
    let mut bf = cx.inputs::<B::Physical>(n);
    b.backward_slice(&f, &mut bf);
    cx.out("bf", &bf);
    let yfull: Vec<B::Spectral> = cx.named("yfull", m);
    let mut bw = cx.inputs::<B::Physical>(n);
    b.backward_slice(&yfull, &mut bw);
    cx.out("bwdfull", &bw);
    let mut y = yfull.clone();
    spec_real_ends(kind, n, &mut y);
    cx.out("in:y", &y);
    let mut bw = cx.inputs::<B::Physical>(n);
    b.backward_slice(&y, &mut bw);
    cx.out("bwd", &bw);
    let mut fb = cx.inputs::<B::Spectral>(m);
    b.forward_slice(&bw, &mut fb);
    cx.out("fb", &fb);
}

fn conv<B, T>(cx: &mut Cx, b: &B)
where
    B: BaseFromOrtho<T> + BaseMatOpStencil,
    <B as BaseMatOpStencil>::NumType: El,
    T: El,
{
    stencil_out(cx, b);
    let (m, o) = (b.len_spec(), b.len_orth());
    let u: Vec<T> = cx.named("u", m);
    let mut to = cx.inputs::<T>(o);
    b.to_ortho_slice(&u, &mut to);
    cx.out("to", &to);
    let mut ft = cx.inputs::<T>(m);
    b.from_ortho_slice(&to, &mut ft);
    cx.out("ft", &ft);
    let v: Vec<T> = cx.named("v", o);
    let mut fr = cx.inputs::<T>(m);
    b.from_ortho_slice(&v, &mut fr);
    cx.out("fr", &fr);
}

fn grad<B, T>(cx: &mut Cx, b: &B)
where
    B: BaseGradient<T> + BaseMatOpStencil,
    <B as BaseMatOpStencil>::NumType: El,
    T: El,
{
    stencil_out(cx, b);
    let (m, o) = (b.len_spec(), b.len_orth());
    let u: Vec<T> = cx.named("u", m);
    for d in cx.list("d") {
        let mut g = cx.inputs::<T>(o);
        b.gradient_slice(&u, &mut g, d);
        cx.out(&format!("g{}", d), &g);
    }
}

fn mats<B>(cx: &mut Cx, b: &B)
where
    B: BaseMatOpDiffmat + BaseMatOpLaplacian + BaseMatOpStencil,
    <B as BaseMatOpDiffmat>::NumType: El,
    <B as BaseMatOpLaplacian>::NumType: El,
    <B as BaseMatOpStencil>::NumType: El,
{
    for w in cx.strs("what") {
        let d = w[1..].parse::<usize>().unwrap_or(0);
        match &w[..1] {
            "D" => {
                let a = b.diffmat(d);
                cx.outa(&w, &a)
            }
            "P" => {
                let (p, e) = b.diffmat_pinv(d);
                cx.outa(&w, &p);
                cx.outa(&format!("E{}", d), &e);
            }
            "L" => {
                let a = b.laplacian();
                cx.outa("L", &a)
            }
            "Q" => {
                let (p, e) = b.laplacian_pinv();
                cx.outa("Q", &p);
                cx.outa("QE", &e);
            }
            "S" => {
                let a = b.stencil();
                cx.outa("S", &a);
            }
            "I" => {
                let a = b.stencil_inv();
                cx.outa("I", &a);
            }
            _ => panic!("HARNESS: mats"),
        }
    }
}

fn wavenumber(cx: &mut Cx, kind: &str, n: usize) {
    let k: Vec<C> = match kind {
        "r2c" => FourierR2c::<F>::wavenumber(n),
        "c2c" => FourierC2c::<F>::wavenumber(n),
        _ => vec![],
    };
    cx.out("k", &k);
}

fn kind_str(k: &BaseKind) -> String {
    format!("{:?}", k)
}
fn tkind_str(k: &TK) -> String {
    match k {
        TK::R2r => "R2r",
        TK::R2c => "R2c",
        TK::C2c => "C2c",
    }
    .to_string()
}
use funspace::enums::TransformKind as TK;

fn meta<B>(cx: &mut Cx, b: &B)
where
    B: BaseSize + BaseElements<RealNum = F> + BaseTransform,
    B::Physical: El,
    B::Spectral: El,
{
    cx.meta("phys", b.len_phys());
    cx.meta("spec", b.len_spec());
    cx.meta("orth", b.len_orth());
    cx.meta("kind", kind_str(&b.base_kind()));
    cx.meta("tkind", tkind_str(&b.transform_kind()));
    let c = b.coords();
    cx.out("coords", &c);
    let x = Array1::<B::Physical>::zeros(b.len_phys());
    if cx.opt("arrays", "0") == "1" {
        let f = b.forward(&x, 0);
        cx.meta("len_fwd", f.len());
        let p = b.backward(&f, 0);
        cx.meta("len_bwd", p.len());
    }
}

// ---------------------------------------------------------------- arrays
/// out-of-place application of a slice operation to every lane, written with explicit indices
fn lanes<T1: El, T2: El>(
    a: &ArrayD<T1>,
    axis: usize,
    lout: usize,
    mut f: impl FnMut(&[T1], &mut [T2]),
) -> ArrayD<T2> {
    let mut sh = a.shape().to_vec();
    let lin = sh[axis];
    sh[axis] = lout;
    let outer: usize = sh[..axis].iter().product();
    let inner: usize = sh[axis + 1..].iter().product();
    let src: Vec<T1> = a.iter().copied().collect();
    let mut dst = vec![T2::zero(); outer * lout * inner];
    for o in 0..outer {
        for i in 0..inner {
            let x: Vec<T1> = (0..lin).map(|k| src[(o * lin + k) * inner + i]).collect();
            let mut y = vec![T2::zero(); lout];
            f(&x, &mut y);
            for k in 0..lout {
                dst[(o * lout + k) * inner + i] = y[k];
            }
        }
    }
    ArrayD::from_shape_vec(IxDyn(&sh), dst).unwrap()
}

fn resized(sh: &[usize], axis: usize, n: usize) -> Vec<usize> {
    let mut s = sh.to_vec();
    s[axis] = n;
    s
}

macro_rules! nd_op {
    ($cx:ident, $b:ident, $D:ty, $T1:ty, $T2:ty, $lin:expr, $lout:expr, $slice:ident, $alloc:ident, $inpl:ident, $par:ident, $parin:ident $(, $d:expr)?) => {{
        let axis = $cx.u("axis");
        let mut sh = $cx.list("shape");
        sh[axis] = $lin;
        let x: ArrayD<$T1> = $cx.arr("x", &sh);
        let r: ArrayD<$T2> = lanes(&x, axis, $lout, |a, y| $b.$slice(a, y $(, $d)?));
        $cx.outa("ref", &r);
        let xs: Array<$T1, $D> = x.clone().into_dimensionality::<$D>().unwrap();
        let osh = resized(&sh, axis, $lout);
        for v in $cx.strs("var") {
            let y: Array<$T2, $D> = match v.as_str() {
                "alloc" => $b.$alloc(&xs $(, $d)?, axis),
                "par" => $b.$par(&xs $(, $d)?, axis),
                "inpl" | "parin" => {
                    let mut y = $cx.arr::<$T2>("dirty", &osh).into_dimensionality::<$D>().unwrap();
                    if v == "inpl" {
                        $b.$inpl(&xs, &mut y $(, $d)?, axis);
                    } else {
                        $b.$parin(&xs, &mut y $(, $d)?, axis);
                    }
                    y
                }
                "slice2" => {
                    // once more into a dirty slice
                    lanes(&x, axis, $lout, |a, y: &mut [$T2]| {
                        for t in y.iter_mut() { *t = <$T2>::inp($cx); }
                        $b.$slice(a, y $(, $d)?)
                    }).into_dimensionality::<$D>().unwrap()
                }
                "vin" | "vpar" => {
                    // the input is a view into a larger array
                    let mut bsh = sh.clone();
                    bsh[0] += 2;
                    let big = $cx.arr::<$T1>("around", &bsh).into_dimensionality::<$D>().unwrap();
                    let mut big = big;
                    big.slice_axis_mut(Axis(0), (1..1 + sh[0] as isize).into()).assign(&xs);
                    let xv = big.slice_axis(Axis(0), (1..1 + sh[0] as isize).into());
                    if v == "vin" { $b.$alloc(&xv $(, $d)?, axis) } else { $b.$par(&xv $(, $d)?, axis) }
                }
                "vinpl" | "vparin" => {
                    // the output is a view into a larger array, which keeps the rest of its content
                    let mut bsh = osh.clone();
                    bsh[0] += 2;
                    let big0 = $cx.arr::<$T2>("outside", &bsh).into_dimensionality::<$D>().unwrap();
                    let mut big = big0.clone();
                    {
                        let mut yv = big.slice_axis_mut(Axis(0), (1..1 + osh[0] as isize).into());
                        if v == "vinpl" { $b.$inpl(&xs, &mut yv $(, $d)?, axis); } else { $b.$parin(&xs, &mut yv $(, $d)?, axis); }
                    }
                    for i in [0, osh[0] as isize + 1] {
                        $cx.outa(&format!("rim:{}{}", v, i), &big.slice_axis(Axis(0), (i..i + 1).into()).to_owned());
                        $cx.outa(&format!("keep:{}{}", v, i), &big0.slice_axis(Axis(0), (i..i + 1).into()).to_owned());
                    }
                    big.slice_axis(Axis(0), (1..1 + osh[0] as isize).into()).to_owned()
                }
                "fin" | "fpar" | "sin" | "rin" | "finpl" | "fparin" => {
                    // other memory layouts: the same result, or refused
                    let mut y0 = $cx.arr::<$T2>("dirty", &osh).into_dimensionality::<$D>().unwrap();
                    let r = catch_unwind(AssertUnwindSafe(|| match v.as_str() {
                        "fin" | "fpar" => {
                            let mut xf = Array::<$T1, $D>::zeros(xs.raw_dim().f());
                            xf.assign(&xs);
                            if v == "fin" { $b.$alloc(&xf $(, $d)?, axis) } else { $b.$par(&xf $(, $d)?, axis) }
                        }
                        "sin" => {
                            let last = Axis(xs.ndim() - 1);
                            let mut bsh = sh.clone();
                            bsh[last.0] *= 2;
                            let mut big = ArrayD::<$T1>::zeros(IxDyn(&bsh)).into_dimensionality::<$D>().unwrap();
                            big.slice_axis_mut(last, ndarray::Slice::new(0, None, 2)).assign(&xs);
                            let xv = big.slice_axis(last, ndarray::Slice::new(0, None, 2));
                            $b.$alloc(&xv $(, $d)?, axis)
                        }
                        "rin" => {
                            let mut xr = xs.clone();
                            xr.invert_axis(Axis(0));
                            let mut xo = xr.as_standard_layout().into_owned();
                            xo.invert_axis(Axis(0));
                            $b.$alloc(&xo $(, $d)?, axis)
                        }
                        _ => {
                            let mut yf = Array::<$T2, $D>::zeros(y0.raw_dim().f());
                            yf.assign(&y0);
                            if v == "finpl" { $b.$inpl(&xs, &mut yf $(, $d)?, axis); } else { $b.$parin(&xs, &mut yf $(, $d)?, axis); }
                            y0.assign(&yf);
                            y0.clone()
                        }
                    }));
                    match r {
                        Ok(y) => y.as_standard_layout().into_owned(),
                        Err(_) => {
                            $cx.meta(&format!("refused:{}", v), 1);
                            continue;
                        }
                    }
                }
                _ => panic!("HARNESS: variant"),
            };
            $cx.outa(&v, &y);
        }
        $cx.outa("after:x", &xs);
    }};
}

fn nd_t<B, D>(cx: &mut Cx, b: &B)
where
    B: BaseTransform + Sync,
    B::Physical: El,
    B::Spectral: El,
    D: Dimension,
{
    let (n, m) = (b.len_phys(), b.len_spec());
    if cx.s("op") == "fwd" {
        nd_op!(cx, b, D, B::Physical, B::Spectral, n, m, forward_slice, forward, forward_inplace, forward_par, forward_inplace_par)
    } else {
        nd_op!(cx, b, D, B::Spectral, B::Physical, m, n, backward_slice, backward, backward_inplace, backward_par, backward_inplace_par)
    }
}
fn nd_c<B, T, D>(cx: &mut Cx, b: &B)
where
    B: BaseFromOrtho<T> + BaseGradient<T> + Sync,
    T: El,
    D: Dimension,
{
    let (m, o) = (b.len_spec(), b.len_orth());
    match cx.s("op") {
        "to" => nd_op!(cx, b, D, T, T, m, o, to_ortho_slice, to_ortho, to_ortho_inplace, to_ortho_par, to_ortho_inplace_par),
        "from" => nd_op!(cx, b, D, T, T, o, m, from_ortho_slice, from_ortho, from_ortho_inplace, from_ortho_par, from_ortho_inplace_par),
        g => {
            let d: usize = g[1..].parse().unwrap();
            nd_op!(cx, b, D, T, T, m, o, gradient_slice, gradient, gradient_inplace, gradient_par, gradient_inplace_par, d)
        }
    }
}

macro_rules! by_rank {
    ($cx:ident, $f:ident, [$($t:ty),*], $b:expr) => {
        match $cx.s("dim") {
            "1" => $f::<_ $(, $t)*, Ix1>($cx, $b),
            "2" => $f::<_ $(, $t)*, Ix2>($cx, $b),
            "3" => $f::<_ $(, $t)*, Ix3>($cx, $b),
            "4" => $f::<_ $(, $t)*, Ix4>($cx, $b),
            _ => $f::<_ $(, $t)*, IxDyn>($cx, $b),
        }
    };
}

fn nd(cx: &mut Cx, kind: &str, n: usize) {
    let op = cx.s("op").to_string();
    if op == "fwd" || op == "bwd" {
        with_base!(kind, n, b => by_rank!(cx, nd_t, [], &b))
    } else if kind == "r2c" {
        let b = r2c(kind, n);
        by_rank!(cx, nd_c, [C], &b)
    } else if kind == "c2c" {
        let b = c2c(kind, n);
        by_rank!(cx, nd_c, [C], &b)
    } else {
        let b = r2r(kind, n);
        if cx.opt("t", "r") == "c" {
            by_rank!(cx, nd_c, [C], &b)
        } else {
            by_rank!(cx, nd_c, [F], &b)
        }
    }
}

/// the same array in another memory layout: column-major, inside a larger one, every other entry of a larger one, reversed
fn relay<T: El, D: Dimension>(a: Array<T, D>, lay: &str) -> Array<T, D> {
    let d = a.raw_dim();
    let grown = |f: usize, g: usize| {
        let mut e = d.clone();
        for k in 0..e.ndim() {
            e[k] = e[k] * f + g;
        }
        Array::<T, D>::from_elem(e, T::zero())
    };
    let mut b = match lay {
        "c" => return a,
        "f" => Array::<T, D>::from_elem(d.clone().f(), T::zero()),
        "w" | "s" => {
            let st = if lay == "w" { 1 } else { 2 };
            let mut b = grown(st, 3);
            for k in 0..d.ndim() {
                b.slice_axis_inplace(Axis(k), ndarray::Slice::new(1, Some((1 + st * d[k]) as isize), st as isize));
            }
            b
        }
        "r" => {
            let mut b = grown(1, 0);
            for k in 0..d.ndim() {
                b.invert_axis(Axis(k));
            }
            b
        }
        _ => panic!("HARNESS: layout"),
    };
    b.assign(&a);
    b
}

// ---------------------------------------------------------------- spaces
fn scale<const N: usize>(cx: &mut Cx) -> Option<[F; N]> {
    match cx.opt("scale", "none").as_str() {
        "none" => None,
        "sym" => {
            let v: Vec<F> = cx.named("s", N);
            Some(std::array::from_fn(|i| v[i]))
        }
        l => {
            let v: Vec<f64> = l.split(',').map(|x| x.parse().unwrap()).collect();
            Some(std::array::from_fn(|i| mkf(v[i])))
        }
    }
}

/// comp: the base-by-base composition. $b = [(base, axis); ...] in order of application.
macro_rules! compose {
    ($x:expr, fwd, [$($b:expr => $ax:expr),*]) => {{ let a = $x; $( let a = lanes(&a, $ax, $b.len_spec(), |x, y| $b.forward_slice(x, y)); )* a }};
    ($x:expr, bwd, [$($b:expr => $ax:expr),*]) => {{ let a = $x; $( let a = lanes(&a, $ax, $b.len_phys(), |x, y| $b.backward_slice(x, y)); )* a }};
    ($x:expr, to, [$($b:expr => $ax:expr),*]) => {{ let a = $x; $( let a = lanes(&a, $ax, $b.len_orth(), |x, y| $b.to_ortho_slice(x, y)); )* a }};
    ($x:expr, from, [$($b:expr => $ax:expr),*]) => {{ let a = $x; $( let a = lanes(&a, $ax, $b.len_spec(), |x, y| $b.from_ortho_slice(x, y)); )* a }};
    ($x:expr, grad, $d:expr, [$($b:expr => $ax:expr),*]) => {{ let a = $x; $( let a = lanes(&a, $ax, $b.len_orth(), |x, y| $b.gradient_slice(x, y, $d[$ax])); )* a }};
}

macro_rules! sp_op {
    ($cx:ident, $sp:ident, $D:ty, $N:expr, $T1:ty, $T2:ty, $ish:expr, $osh:expr, $alloc:ident, $inpl:ident, $par:ident, $parin:ident, |$x:ident| $comp:expr) => {{
        let $x: ArrayD<$T1> = $cx.arr("x", &$ish);
        let xs: Array<$T1, $D> = relay($x.clone().into_dimensionality::<$D>().unwrap(), &$cx.opt("li", "c"));
        let r: ArrayD<$T2> = $comp;
        $cx.outa("ref", &r);
        for v in $cx.strs("var") {
            let y: Array<$T2, $D> = match v.as_str() {
                "alloc" => $sp.$alloc(&xs),
                "par" => $sp.$par(&xs),
                "inpl" | "parin" => {
                    let mut y = relay($cx.arr::<$T2>("dirty", &$osh).into_dimensionality::<$D>().unwrap(), &$cx.opt("lo", "c"));
                    if v == "inpl" { $sp.$inpl(&xs, &mut y); } else { $sp.$parin(&xs, &mut y); }
                    y
                }
                _ => panic!("HARNESS: variant"),
            };
            $cx.outa(&v, &y);
        }
        $cx.outa("after:x", &xs);
    }};
}
macro_rules! sp_grad {
    ($cx:ident, $sp:ident, $D:ty, $N:expr, $T:ty, |$x:ident, $d:ident| $comp:expr) => {{
        let $d = $cx.list("d");
        let dv: [usize; $N] = std::array::from_fn(|i| $d[i]);
        let $x: ArrayD<$T> = $cx.arr("x", &$sp.shape_spectral());
        let sc = scale::<$N>($cx);
        let xs: Array<$T, $D> = relay($x.clone().into_dimensionality::<$D>().unwrap(), &$cx.opt("li", "c"));
        let r: ArrayD<$T> = $comp;
        $cx.outa("ref", &r);
        for v in $cx.strs("var") {
            let y: Array<$T, $D> = match v.as_str() {
                "alloc" => $sp.gradient(&xs, dv, sc),
                "par" => $sp.gradient_par(&xs, dv, sc),
                _ => panic!("HARNESS: variant"),
            };
            $cx.outa(&v, &y);
        }
        $cx.outa("after:x", &xs);
    }};
}
macro_rules! sp_meta {
    ($cx:ident, $sp:ident, $N:expr, $P:ty, $S:ty, [$($b:expr => $ax:expr),*]) => {{
        let j = |v: &[usize]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        $cx.meta("sp:phys", j(&$sp.shape_physical()));
        $cx.meta("sp:spec", j(&$sp.shape_spectral()));
        $cx.meta("sp:orth", j(&$sp.shape_spectral_ortho()));
        $cx.meta("b:phys", j(&[$($b.len_phys()),*]));
        $cx.meta("b:spec", j(&[$($b.len_spec()),*]));
        $cx.meta("b:orth", j(&[$($b.len_orth()),*]));
        $cx.meta("sp:ndphys", j(&$sp.ndarray_physical().shape()));
        $cx.meta("sp:ndspec", j(&$sp.ndarray_spectral().shape()));
        let all = $sp.coords();
        $(
            let ax: usize = $ax;
            $cx.meta(&format!("sp:kind{}", ax), kind_str(&$sp.base_kind(ax)));
            $cx.meta(&format!("b:kind{}", ax), kind_str(&$b.base_kind()));
            $cx.meta(&format!("sp:tkind{}", ax), tkind_str(&$sp.transform_kind(ax)));
            $cx.meta(&format!("b:tkind{}", ax), tkind_str(&$b.transform_kind()));
            let v = $sp.coords_axis(ax); $cx.outa(&format!("sp:coords{}", ax), &v);
            $cx.outa(&format!("sp2:coords{}", ax), &all[ax]);
            let v = Array1::from($b.coords()); $cx.outa(&format!("b:coords{}", ax), &v);
            let v = $sp.stencil(ax); $cx.outa(&format!("sp:S{}", ax), &v);
            let v = $b.stencil(); $cx.outa(&format!("b:S{}", ax), &v);
            let v = $sp.stencil_inv(ax); $cx.outa(&format!("sp:I{}", ax), &v);
            let v = $b.stencil_inv(); $cx.outa(&format!("b:I{}", ax), &v);
            let v = $sp.laplacian(ax); $cx.outa(&format!("sp:L{}", ax), &v);
            let v = $b.laplacian(); $cx.outa(&format!("b:L{}", ax), &v);
            let v = $sp.laplacian_pinv(ax);
            $cx.outa(&format!("sp:P{}", ax), &v.0); $cx.outa(&format!("sp:E{}", ax), &v.1);
            let v = $b.laplacian_pinv();
            $cx.outa(&format!("b:P{}", ax), &v.0); $cx.outa(&format!("b:E{}", ax), &v.1);
        )*
    }};
}

macro_rules! space_body {
    ($cx:ident, $sp:ident, $D:ty, $N:expr, $P:ty, $S:ty, $T:ty, fw = [$($fb:expr => $fa:expr),*], bw = [$($bb:expr => $ba:expr),*]) => {{
        let op = $cx.s("op").to_string();
        match op.as_str() {
            "fwd" => sp_op!($cx, $sp, $D, $N, $P, $S, $sp.shape_physical(), $sp.shape_spectral(), forward, forward_inplace, forward_par, forward_inplace_par,
                |x| compose!(x.clone(), fwd, [$($fb => $fa),*])),
            "bwd" => sp_op!($cx, $sp, $D, $N, $S, $P, $sp.shape_spectral(), $sp.shape_physical(), backward, backward_inplace, backward_par, backward_inplace_par,
                |x| compose!(x.clone(), bwd, [$($bb => $ba),*])),
            "to" => sp_op!($cx, $sp, $D, $N, $T, $T, $sp.shape_spectral(), $sp.shape_spectral_ortho(), to_ortho, to_ortho_inplace, to_ortho_par, to_ortho_inplace_par,
                |x| compose!(x.clone(), to, [$($bb => $ba),*])),
            "from" => sp_op!($cx, $sp, $D, $N, $T, $T, $sp.shape_spectral_ortho(), $sp.shape_spectral(), from_ortho, from_ortho_inplace, from_ortho_par, from_ortho_inplace_par,
                |x| compose!(x.clone(), from, [$($bb => $ba),*])),
            "grad" => sp_grad!($cx, $sp, $D, $N, $T, |x, d| compose!(x.clone(), grad, d, [$($bb => $ba),*])),
            "rt" => {
                // forward, then backward; backward, then forward
                let x: ArrayD<$P> = $cx.arr("x", &$sp.shape_physical());
                let xs: Array<$P, $D> = x.into_dimensionality::<$D>().unwrap();
                let f = $sp.forward(&xs);
                let r = $sp.backward(&f);
                $cx.outa("bf", &r);
                let f2 = $sp.forward(&r);
                $cx.outa("f", &f);
                $cx.outa("fbf", &f2);
            }
            "meta" => sp_meta!($cx, $sp, $N, $P, $S, [$($bb => $ba),*]),
            _ => panic!("HARNESS: op"),
        }
    }};
}

macro_rules! space1 {
    ($cx:ident, $mk:ident, $P:ty, $S:ty, $T:ty) => {{
        let (k, n) = ($cx.strs("kinds"), $cx.list("sizes"));
        let b0 = $mk(&k[0], n[0]);
        let sp = Space1::new(&b0);
        space_body!($cx, sp, Ix1, 1, $P, $S, $T, fw = [b0 => 0], bw = [b0 => 0])
    }};
}
macro_rules! space2 {
    ($cx:ident, $m0:ident, $m1:ident, $P:ty, $S:ty, $T:ty) => {{
        let (k, n) = ($cx.strs("kinds"), $cx.list("sizes"));
        let (b0, b1) = ($m0(&k[0], n[0]), $m1(&k[1], n[1]));
        let sp = Space2::new(&b0, &b1);
        space_body!($cx, sp, Ix2, 2, $P, $S, $T, fw = [b1 => 1, b0 => 0], bw = [b0 => 0, b1 => 1])
    }};
}
macro_rules! space3 {
    ($cx:ident, $m0:ident, $m1:ident, $m2:ident, $P:ty, $S:ty, $T:ty) => {{
        let (k, n) = ($cx.strs("kinds"), $cx.list("sizes"));
        let (b0, b1, b2) = ($m0(&k[0], n[0]), $m1(&k[1], n[1]), $m2(&k[2], n[2]));
        let sp = Space3::new(&b0, &b1, &b2);
        space_body!($cx, sp, Ix3, 3, $P, $S, $T, fw = [b2 => 2, b1 => 1, b0 => 0], bw = [b0 => 0, b1 => 1, b2 => 2])
    }};
}

fn class(k: &str) -> char {
    match k {
        "r2c" => 'h',
        "c2c" => 'c',
        _ => 'r',
    }
}

fn space(cx: &mut Cx) {
    let cl: String = cx.strs("kinds").iter().map(|k| class(k)).collect();
    let tc = cx.opt("t", "r") == "c";
    match (cl.as_str(), tc) {
        ("r", false) => space1!(cx, r2r, F, F, F),
        ("r", true) => space1!(cx, r2r, F, F, C),
        ("h", _) => space1!(cx, r2c, F, C, C),
        ("c", _) => space1!(cx, c2c, C, C, C),
        ("rr", false) => space2!(cx, r2r, r2r, F, F, F),
        ("rr", true) => space2!(cx, r2r, r2r, F, F, C),
        ("hr", _) => space2!(cx, r2c, r2r, F, C, C),
        ("ch", _) => space2!(cx, c2c, r2c, F, C, C),
        ("cc", _) => space2!(cx, c2c, c2c, C, C, C),
        ("rrr", _) => space3!(cx, r2r, r2r, r2r, F, F, F),
        ("hrr", _) => space3!(cx, r2c, r2r, r2r, F, C, C),
        ("chr", _) => space3!(cx, c2c, r2c, r2r, F, C, C),
        ("cch", _) => space3!(cx, c2c, c2c, r2c, F, C, C),
        ("ccc", _) => space3!(cx, c2c, c2c, c2c, C, C, C),
        _ => panic!("HARNESS: combination {}", cl),
    }
}

// ---------------------------------------------------------------- history
#[derive(Clone)]
enum Any1 {
    R(BaseR2r<F>),
    H(BaseR2c<F>),
    C(BaseC2c<F>),
}
macro_rules! any1 {
    ($s:expr, $b:ident => $e:expr) => {
        match $s {
            Any1::R($b) => $e,
            Any1::H($b) => $e,
            Any1::C($b) => $e,
        }
    };
}
fn mk_any(kind: &str, n: usize) -> Any1 {
    match kind {
        "r2c" => Any1::H(r2c(kind, n)),
        "c2c" => Any1::C(c2c(kind, n)),
        _ => Any1::R(r2r(kind, n)),
    }
}
fn one<T1: El, T2: El>(x: &[F], lout: usize, f: impl FnOnce(&[T1], &mut [T2])) -> Vec<F> {
    // x holds the scalars of the input
    let mut cx = x.iter();
    let v: Vec<T1> = (0..x.len() / T1::NC).map(|_| from_parts::<T1>(&mut cx)).collect();
    let mut y = vec![T2::zero(); lout];
    f(&v, &mut y);
    let mut o = vec![];
    for t in &y {
        t.put(&mut o)
    }
    o
}
fn from_parts<'a, T: El>(it: &mut std::slice::Iter<'a, F>) -> T {
    let re = *it.next().unwrap();
    if T::NC == 1 {
        let b: Box<dyn std::any::Any> = Box::new(re);
        *b.downcast::<T>().unwrap()
    } else {
        let im = *it.next().unwrap();
        let b: Box<dyn std::any::Any> = Box::new(C::new(re, im));
        *b.downcast::<T>().unwrap()
    }
}
trait OneOp {
    fn insize(&self, op: &str) -> usize;
    fn apply(&self, op: &str, x: &[F]) -> Vec<F>;
}
macro_rules! lanes {
    ($b:expr, $op:expr, $x:expr, $ax:expr, $sh:expr, $P:ty, $S:ty) => {
        match $op {
            "fwd" => onea::<$P, $S, 2>($x, $sh($b.len_phys()), |a| $b.forward(&a, $ax)),
            "bwd" => onea::<$S, $P, 2>($x, $sh($b.len_spec()), |a| $b.backward(&a, $ax)),
            "to" => onea::<$S, $S, 2>($x, $sh($b.len_spec()), |a| $b.to_ortho(&a, $ax)),
            "from" => onea::<$S, $S, 2>($x, $sh($b.len_orth()), |a| $b.from_ortho(&a, $ax)),
            g => onea::<$S, $S, 2>($x, $sh($b.len_spec()), |a| $b.gradient(&a, g[1..].parse().expect("HARNESS: op"), $ax)),
        }
    };
}
impl Any1 {
    fn lanes(&self, op: &str, x: &[F], ax: usize, sh: impl Fn(usize) -> [usize; 2]) -> Vec<F> {
        match self {
            Any1::R(b) => lanes!(b, op, x, ax, sh, F, F),
            Any1::H(b) => lanes!(b, op, x, ax, sh, F, C),
            Any1::C(b) => lanes!(b, op, x, ax, sh, C, C),
        }
    }
}
impl OneOp for Any1 {
    fn insize(&self, op: &str) -> usize {
        let (cp, cs) = match self {
            Any1::R(_) => (1, 1),
            Any1::H(_) => (1, 2),
            Any1::C(_) => (2, 2),
        };
        match op.as_bytes()[0] {
            b'A' => return 3 * self.insize(&op[1..]),
            b'B' => return 2 * self.insize(&op[1..]),
            b'C' => return if cs == 1 { 2 * self.insize(&op[1..]) } else { self.insize(&op[1..]) },
            _ => {}
        }
        any1!(self, b => match op {
            "fwd" => b.len_phys() * cp,
            "pfwd" => b.len_phys() * cp * 2,
            "from" => b.len_orth() * cs,
            "pfrom" => b.len_orth() * cs * 2,
            "bad" => 0,
            o if o.starts_with('p') => b.len_spec() * cs * 2,
            _ => b.len_spec() * cs,
        })
    }
    fn apply(&self, op: &str, x: &[F]) -> Vec<F> {
        match op.as_bytes()[0] {
            // three lanes along the first axis, two along the second
            b'A' => return self.lanes(&op[1..], x, 0, |n| [n, 3]),
            b'B' => return self.lanes(&op[1..], x, 1, |n| [2, n]),
            // complex coefficients of a real base
            b'C' => {
                if let Any1::R(b) = self {
                    return match &op[1..] {
                        "to" => one::<C, C>(x, b.len_orth(), |a, y| b.to_ortho_slice(a, y)),
                        "from" => one::<C, C>(x, b.len_spec(), |a, y| b.from_ortho_slice(a, y)),
                        g => one::<C, C>(x, b.len_orth(), |a, y| b.gradient_slice(a, y, g[1..].parse().expect("HARNESS: op"))),
                    };
                }
                return self.apply(&op[1..], x);
            }
            _ => {}
        }
        match op {
            // calls that must fail, and must leave no trace
            "bad" => {
                let n = any1!(self, b => b.len_phys()) + 3;
                let r = [
                    catch_unwind(AssertUnwindSafe(|| match self {
                        Any1::R(b) => drop(b.forward(&Array1::<F>::zeros(n), 0)),
                        Any1::H(b) => drop(b.forward(&Array1::<F>::zeros(n), 0)),
                        Any1::C(b) => drop(b.forward(&Array1::<C>::zeros(n), 0)),
                    })),
                    catch_unwind(AssertUnwindSafe(|| match self {
                        Any1::R(b) => drop(b.backward_par(&Array2::<F>::zeros((n, 2)), 0)),
                        Any1::H(b) => drop(b.backward_par(&Array2::<C>::zeros((n, 2)), 0)),
                        Any1::C(b) => drop(b.backward_par(&Array2::<C>::zeros((n, 2)), 0)),
                    })),
                    catch_unwind(AssertUnwindSafe(|| match self {
                        Any1::R(b) => b.forward_slice(&vec![F::zero(); n], &mut vec![F::zero(); n]),
                        Any1::H(b) => b.forward_slice(&vec![F::zero(); n], &mut vec![C::zero(); n]),
                        Any1::C(b) => b.forward_slice(&vec![C::zero(); n], &mut vec![C::zero(); n]),
                    })),
                    catch_unwind(AssertUnwindSafe(|| match self {
                        Any1::R(b) => drop(b.gradient(&Array1::<F>::zeros(n), 1, 0)),
                        Any1::H(b) => drop(b.gradient(&Array1::<C>::zeros(n), 1, 0)),
                        Any1::C(b) => drop(b.gradient(&Array1::<C>::zeros(n), 1, 0)),
                    })),
                ];
                drop(r);
                vec![]
            }
            "pfwd" => match self {
                Any1::R(b) => onea::<F, F, 2>(x, [b.len_phys(), 2], |a| b.forward_par(&a, 0)),
                Any1::H(b) => onea::<F, C, 2>(x, [b.len_phys(), 2], |a| b.forward_par(&a, 0)),
                Any1::C(b) => onea::<C, C, 2>(x, [b.len_phys(), 2], |a| b.forward_par(&a, 0)),
            },
            "pbwd" => match self {
                Any1::R(b) => onea::<F, F, 2>(x, [b.len_spec(), 2], |a| b.backward_par(&a, 0)),
                Any1::H(b) => onea::<C, F, 2>(x, [b.len_spec(), 2], |a| b.backward_par(&a, 0)),
                Any1::C(b) => onea::<C, C, 2>(x, [b.len_spec(), 2], |a| b.backward_par(&a, 0)),
            },
            "pto" => match self {
                Any1::R(b) => onea::<F, F, 2>(x, [b.len_spec(), 2], |a| b.to_ortho_par(&a, 0)),
                Any1::H(b) => onea::<C, C, 2>(x, [b.len_spec(), 2], |a| b.to_ortho_par(&a, 0)),
                Any1::C(b) => onea::<C, C, 2>(x, [b.len_spec(), 2], |a| b.to_ortho_par(&a, 0)),
            },
            "pfrom" => match self {
                Any1::R(b) => onea::<F, F, 2>(x, [b.len_orth(), 2], |a| b.from_ortho_par(&a, 0)),
                Any1::H(b) => onea::<C, C, 2>(x, [b.len_orth(), 2], |a| b.from_ortho_par(&a, 0)),
                Any1::C(b) => onea::<C, C, 2>(x, [b.len_orth(), 2], |a| b.from_ortho_par(&a, 0)),
            },
            g if g.starts_with("pg") => {
                let d = g[2..].parse().expect("HARNESS: op");
                match self {
                    Any1::R(b) => onea::<F, F, 2>(x, [b.len_spec(), 2], |a| b.gradient_par(&a, d, 0)),
                    Any1::H(b) => onea::<C, C, 2>(x, [b.len_spec(), 2], |a| b.gradient_par(&a, d, 0)),
                    Any1::C(b) => onea::<C, C, 2>(x, [b.len_spec(), 2], |a| b.gradient_par(&a, d, 0)),
                }
            }
            "fwd" => match self {
                Any1::R(b) => one::<F, F>(x, b.len_spec(), |a, y| b.forward_slice(a, y)),
                Any1::H(b) => one::<F, C>(x, b.len_spec(), |a, y| b.forward_slice(a, y)),
                Any1::C(b) => one::<C, C>(x, b.len_spec(), |a, y| b.forward_slice(a, y)),
            },
            "bwd" => match self {
                Any1::R(b) => one::<F, F>(x, b.len_phys(), |a, y| b.backward_slice(a, y)),
                Any1::H(b) => one::<C, F>(x, b.len_phys(), |a, y| b.backward_slice(a, y)),
                Any1::C(b) => one::<C, C>(x, b.len_phys(), |a, y| b.backward_slice(a, y)),
            },
            "to" => match self {
                Any1::R(b) => one::<F, F>(x, b.len_orth(), |a, y| b.to_ortho_slice(a, y)),
                Any1::H(b) => one::<C, C>(x, b.len_orth(), |a, y| b.to_ortho_slice(a, y)),
                Any1::C(b) => one::<C, C>(x, b.len_orth(), |a, y| b.to_ortho_slice(a, y)),
            },
            "from" => match self {
                Any1::R(b) => one::<F, F>(x, b.len_spec(), |a, y| b.from_ortho_slice(a, y)),
                Any1::H(b) => one::<C, C>(x, b.len_spec(), |a, y| b.from_ortho_slice(a, y)),
                Any1::C(b) => one::<C, C>(x, b.len_spec(), |a, y| b.from_ortho_slice(a, y)),
            },
            "mats" => {
                let mut o = vec![];
                any1!(self, b => {
                    for d in 1..=2 {
                        b.diffmat(d).iter().for_each(|t| t.put(&mut o));
                        b.diffmat_pinv(d).0.iter().for_each(|t| t.put(&mut o));
                    }
                    b.stencil().iter().for_each(|t| t.put(&mut o));
                    b.stencil_inv().iter().for_each(|t| t.put(&mut o));
                });
                any1!(self, b => b.coords().iter().for_each(|t| t.put(&mut o)));
                any1!(self, b => b.laplacian().iter().for_each(|t| t.put(&mut o)));
                o
            }
            g => {
                let d: usize = g[1..].parse().expect("HARNESS: op");
                match self {
                    Any1::R(b) => one::<F, F>(x, b.len_orth(), |a, y| b.gradient_slice(a, y, d)),
                    Any1::H(b) => one::<C, C>(x, b.len_orth(), |a, y| b.gradient_slice(a, y, d)),
                    Any1::C(b) => one::<C, C>(x, b.len_orth(), |a, y| b.gradient_slice(a, y, d)),
                }
            }
        }
    }
}

#[derive(Clone)]
enum Any2 {
    Rr(Space2<BaseR2r<F>, BaseR2r<F>>),
    Hr(Space2<BaseR2c<F>, BaseR2r<F>>),
    Ch(Space2<BaseC2c<F>, BaseR2c<F>>),
    Cc(Space2<BaseC2c<F>, BaseC2c<F>>),
    Chr(Space3<BaseC2c<F>, BaseR2c<F>, BaseR2r<F>>),
    Rrr(Space3<BaseR2r<F>, BaseR2r<F>, BaseR2r<F>>),
}
macro_rules! any2 {
    ($s:expr, $b:ident => $e:expr) => {
        match $s {
            Any2::Rr($b) => $e,
            Any2::Hr($b) => $e,
            Any2::Ch($b) => $e,
            Any2::Cc($b) => $e,
            Any2::Chr($b) => $e,
            Any2::Rrr($b) => $e,
        }
    };
}
fn mk_any2(k: &[String], n: &[usize]) -> Any2 {
    let cl: String = k.iter().map(|k| class(k)).collect();
    match cl.as_str() {
        "rr" => Any2::Rr(Space2::new(&r2r(&k[0], n[0]), &r2r(&k[1], n[1]))),
        "hr" => Any2::Hr(Space2::new(&r2c(&k[0], n[0]), &r2r(&k[1], n[1]))),
        "ch" => Any2::Ch(Space2::new(&c2c(&k[0], n[0]), &r2c(&k[1], n[1]))),
        "cc" => Any2::Cc(Space2::new(&c2c(&k[0], n[0]), &c2c(&k[1], n[1]))),
        "chr" => Any2::Chr(Space3::new(&c2c(&k[0], n[0]), &r2c(&k[1], n[1]), &r2r(&k[2], n[2]))),
        "rrr" => Any2::Rrr(Space3::new(&r2r(&k[0], n[0]), &r2r(&k[1], n[1]), &r2r(&k[2], n[2]))),
        _ => panic!("HARNESS: combination"),
    }
}
fn onea<T1: El, T2: El, const N: usize>(
    x: &[F],
    ish: [usize; N],
    f: impl FnOnce(Array<T1, Dim<[usize; N]>>) -> Array<T2, Dim<[usize; N]>>,
) -> Vec<F>
where
    Dim<[usize; N]>: Dimension,
    [usize; N]: ndarray::IntoDimension<Dim = Dim<[usize; N]>>,
{
    let mut it = x.iter();
    let v: Vec<T1> = (0..x.len() / T1::NC).map(|_| from_parts::<T1>(&mut it)).collect();
    let a = Array::from_shape_vec(ish, v).unwrap();
    let mut o = vec![];
    for t in f(a).iter() {
        t.put(&mut o)
    }
    o
}
macro_rules! sp_apply {
    ($b:expr, $op:expr, $x:expr, $P:ty, $S:ty, $N:expr) => {
        match $op {
            "fwd" => onea::<$P, $S, $N>($x, $b.shape_physical(), |a| $b.forward(&a)),
            "pfwd" => onea::<$P, $S, $N>($x, $b.shape_physical(), |a| $b.forward_par(&a)),
            "bwd" => onea::<$S, $P, $N>($x, $b.shape_spectral(), |a| $b.backward(&a)),
            "pbwd" => onea::<$S, $P, $N>($x, $b.shape_spectral(), |a| $b.backward_par(&a)),
            "pto" => onea::<$S, $S, $N>($x, $b.shape_spectral(), |a| $b.to_ortho_par(&a)),
            "pfrom" => onea::<$S, $S, $N>($x, $b.shape_spectral_ortho(), |a| $b.from_ortho_par(&a)),
            "pg1" | "pg2" => {
                let d = if $op == "pg1" { 1 } else { 2 };
                let dv = std::array::from_fn(|i| if i + 1 == $N { d } else { 1 });
                onea::<$S, $S, $N>($x, $b.shape_spectral(), |a| $b.gradient_par(&a, dv, Some([mkf(0.5); $N])))
            }
            "bad" => {
                let r = [
                    catch_unwind(AssertUnwindSafe(|| drop($b.forward(&Array::<$P, Dim<[usize; $N]>>::zeros($b.shape_physical().map(|n| n + 1)))))),
                    catch_unwind(AssertUnwindSafe(|| drop($b.backward_par(&Array::<$S, Dim<[usize; $N]>>::zeros($b.shape_spectral().map(|n| n + 1)))))),
                ];
                drop(r);
                vec![]
            }
            "to" => onea::<$S, $S, $N>($x, $b.shape_spectral(), |a| $b.to_ortho(&a)),
            "from" => onea::<$S, $S, $N>($x, $b.shape_spectral_ortho(), |a| $b.from_ortho(&a)),
            "mats" => {
                let mut o = vec![];
                for ax in 0..$N {
                    $b.coords_axis(ax).iter().for_each(|t| t.put(&mut o));
                    $b.laplacian(ax).iter().for_each(|t| t.put(&mut o));
                    $b.stencil(ax).iter().for_each(|t| t.put(&mut o));
                }
                o
            }
            g => {
                let d: usize = g[1..].parse().expect("HARNESS: op");
                let dv = std::array::from_fn(|i| if i == 0 { d } else { 1 });
                // g: scale 2, h: none, k: different scales
                let sc = match g.as_bytes()[0] {
                    b'g' => Some([mkf(2.); $N]),
                    b'h' => None,
                    _ => Some(std::array::from_fn(|i| mkf([3., 0.25, 5.][i]))),
                };
                onea::<$S, $S, $N>($x, $b.shape_spectral(), |a| $b.gradient(&a, dv, sc))
            }
        }
    };
}
impl OneOp for Any2 {
    fn insize(&self, op: &str) -> usize {
        let (cp, cs) = match self {
            Any2::Rr(_) | Any2::Rrr(_) => (1, 1),
            Any2::Cc(_) => (2, 2),
            _ => (1, 2),
        };
        let p = |v: &[usize]| v.iter().product::<usize>();
        any2!(self, b => match op {
            "bad" => 0,
            "fwd" | "pfwd" => p(&b.shape_physical()) * cp,
            "from" | "pfrom" => p(&b.shape_spectral_ortho()) * cs,
            _ => p(&b.shape_spectral()) * cs,
        })
    }
    fn apply(&self, op: &str, x: &[F]) -> Vec<F> {
        match self {
            Any2::Rr(b) => sp_apply!(b, op, x, F, F, 2),
            Any2::Hr(b) => sp_apply!(b, op, x, F, C, 2),
            Any2::Ch(b) => sp_apply!(b, op, x, F, C, 2),
            Any2::Cc(b) => sp_apply!(b, op, x, C, C, 2),
            Any2::Chr(b) => sp_apply!(b, op, x, F, C, 3),
            Any2::Rrr(b) => sp_apply!(b, op, x, F, F, 3),
        }
    }
}

fn hist<X: OneOp + Clone + Send + Sync>(cx: &mut Cx, fresh: impl Fn() -> X) {
    let seq = cx.strs("seq");
    let how = cx.opt("how", "same");
    if how == "threads" {
        // all operations of the list at the same time on one shared object
        let shared = Arc::new(fresh());
        let xs: Vec<Vec<F>> = seq.iter().map(|o| cx.inputs::<F>(shared.insize(o))).collect();
        let res: Vec<Mutex<Vec<F>>> = seq.iter().map(|_| Mutex::new(vec![])).collect();
        fn go<X: OneOp + Clone + Send + Sync>(sh: &Arc<X>, seq: &[String], xs: &[Vec<F>], res: &[Mutex<Vec<F>>]) {
            if seq.len() == 1 {
                *res[0].lock().unwrap() = sh.apply(&seq[0], &xs[0]);
            } else {
                let h = seq.len() / 2;
                let cl = Arc::new((**sh).clone());
                rayon::join(
                    || go(sh, &seq[..h], &xs[..h], &res[..h]),
                    || go(if h > 1 { &cl } else { sh }, &seq[h..], &xs[h..], &res[h..]),
                );
            }
        }
        go(&shared, &seq, &xs, &res);
        for i in 0..seq.len() {
            let r = res[i].lock().unwrap().clone();
            cx.out(&format!("used:{}", i), &r);
        }
        let (steps, joins) = rayon_core::sched::stats();
        cx.meta("sched_steps", steps);
        cx.meta("sched_joins", joins);
        rayon_core::sched::set(4, rayon_core::sched::Mode::Seq);
        for i in 0..seq.len() {
            let r = fresh().apply(&seq[i], &xs[i]);
            cx.out(&format!("fresh:{}", i), &r);
        }
        return;
    }
    // one after the other on one object (or with clones in between), each compared with a fresh object
    let mut objs = vec![fresh()];
    let mut xs: Vec<Vec<F>> = vec![];
    for (i, op) in seq.iter().enumerate() {
        if op == "clone" {
            let c = objs.last().unwrap().clone();
            objs.push(c);
            xs.push(vec![]);
            continue;
        }
        // "@k": use object k instead of the last one; "=": the data of the previous call again
        let (op, o) = match op.split_once('@') {
            Some((a, b)) => (a.to_string(), b.parse::<usize>().unwrap()),
            None => (op.clone(), objs.len() - 1),
        };
        let x: Vec<F> = cx.inputs::<F>(objs[o].insize(&op));
        let r = objs[o].apply(&op, &x);
        cx.out(&format!("used:{}", i), &r);
        let r = fresh().apply(&op, &x);
        cx.out(&format!("fresh:{}", i), &r);
        xs.push(x);
    }
    // repeat every operation with its own data at the end: same results as the first time
    for (i, op) in seq.iter().enumerate() {
        if op == "clone" {
            continue;
        }
        let op = op.split_once('@').map(|(a, _)| a.to_string()).unwrap_or(op.clone());
        let r = objs[0].apply(&op, &xs[i]);
        cx.out(&format!("again:{}", i), &r);
    }
}

// ---------------------------------------------------------------- distributed spaces
fn run_ranks<R: Send>(p: usize, f: impl Fn(usize, &mpi_stub::environment::Universe) -> R + Sync) -> Vec<R> {
    let shared = mpi_stub::Shared::new(p);
    let mut out: Vec<Result<R, String>> = Vec::new();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..p)
            .map(|r| {
                let shared = &shared;
                let f = &f;
                std::thread::Builder::new()
                    .spawn_scoped(s, move || {
                        mpi_stub::bind(shared, r);
                        let u = mpi_stub::initialize().unwrap();
                        let x = catch_unwind(AssertUnwindSafe(|| f(r, &u)));
                        match x {
                            Ok(v) => {
                                shared.leave(&format!("rank {} has ended", r));
                                Ok(v)
                            }
                            Err(e) => {
                                let m = crate::panic_text(&e);
                                shared.leave(&format!("rank {} panicked: {}", r, m));
                                Err(format!("rank {}: {}", r, m))
                            }
                        }
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            out.push(h.join().unwrap());
        }
    });
    // the first cause, not the panics of the ranks that waited for it
    let mut err: Vec<String> = out.iter().filter_map(|r| r.as_ref().err().cloned()).collect();
    err.sort_by_key(|e| e.contains("waits in a collective"));
    if let Some(e) = err.first() {
        panic!("{}", e);
    }
    out.into_iter().map(|r| r.ok().unwrap()).collect()
}

type Outs = Vec<(String, Vec<F>, Vec<usize>)>;
fn push<T: El, D: Dimension>(o: &mut Outs, name: &str, a: &Array<T, D>) {
    let mut v = vec![];
    for x in a.iter() {
        x.put(&mut v)
    }
    o.push((name.to_string(), v, a.shape().to_vec()));
}

fn sub<T: El>(a: &Array2<T>, st: [usize; 2], en: [usize; 2]) -> Array2<T> {
    let mut v = vec![];
    for i in st[0]..=en[0] {
        for j in st[1]..=en[1] {
            v.push(a[[i, j]]);
        }
    }
    Array2::from_shape_vec((en[0] - st[0] + 1, en[1] - st[1] + 1), v).unwrap()
}

fn dist_meta(o: &mut Vec<(String, String)>, r: usize, w: &str, d: &funspace::space_mpi::decomp2d::Distribution<2>) {
    o.push((
        format!("{}{}", w, r),
        format!(
            "{:?}|{:?}|{:?}|{:?}|{:?}|{:?}|{}|{}|{}|{}",
            d.st, d.en, d.sz, d.st_procs, d.en_procs, d.sz_procs, d.nprocs, d.nrank, d.axis_contig, d.length()
        ),
    ));
}

/// domain decomposition of arrays of T
fn dec<T: El + mpi_stub::traits::Equivalence>(cx: &mut Cx) {
    let (sh, p) = (cx.list("shape"), cx.u("p"));
    let ng = [sh[0], sh[1]];
    let ops = cx.strs("op");
    // layouts of what is passed and of what is filled
    let (li, lo) = (cx.opt("li", "c"), cx.opt("lo", "c"));
    let (li, lo) = (li.as_str(), lo.as_str());
    let glob: Array2<T> = relay(cx.arr("g", &sh).into_dimensionality().unwrap(), li);
    // dirty receive buffers
    let dirty: Vec<Array2<T>> = (0..p)
        .map(|_| cx.arr("dirty", &sh).into_dimensionality().unwrap())
        .collect();
    let glob = &glob;
    let dirty = &dirty;
    let ops = &ops;
    let res = run_ranks(p, |r, u| {
        let d = Decomp2d::new(u, ng);
        let mut o: Outs = vec![];
        let mut me = vec![];
        dist_meta(&mut me, r, "x", &d.x_pencil);
        dist_meta(&mut me, r, "y", &d.y_pencil);
        me.push((format!("pen{}", r), format!("{:?}{:?}{:?}", d.get_global_shape(), d.get_x_pencil_shape(), d.get_y_pencil_shape())));
        let (x, y) = (&d.x_pencil, &d.y_pencil);
        let bx = relay(sub(glob, x.st, x.en), li);
        let by = relay(sub(glob, y.st, y.en), li);
        let dx = || relay(sub(&dirty[r], x.st, x.en), lo);
        let dy = || relay(sub(&dirty[r], y.st, y.en), lo);
        let dg = || relay(dirty[r].clone(), lo);
        for op in ops {
            match op.as_str() {
                "split" => {
                    push(&mut o, "bx.split_x", &d.split_array_x_pencil(glob));
                    push(&mut o, "by.split_y", &d.split_array_y_pencil(glob));
                    let mut a = dx();
                    d.x_pencil.split_array_inplace(glob, &mut a);
                    push(&mut o, "bx.split_x_inplace", &a);
                    let mut a = dy();
                    d.y_pencil.split_array_inplace(glob, &mut a);
                    push(&mut o, "by.split_y_inplace", &a);
                }
                "tr" => {
                    let mut a = dy();
                    d.transpose_x_to_y(&bx, &mut a);
                    push(&mut o, "by.transpose_x_to_y", &a);
                    let mut b = dx();
                    d.transpose_y_to_x(&a, &mut b);
                    push(&mut o, "bx.transpose_xyx", &b);
                    let mut a = dx();
                    d.transpose_y_to_x(&by, &mut a);
                    push(&mut o, "bx.transpose_y_to_x", &a);
                    let mut b = dy();
                    d.transpose_x_to_y(&a, &mut b);
                    push(&mut o, "by.transpose_yxy", &b);
                }
                "counts" => {
                    let f = |v: (Vec<i32>, Vec<i32>)| format!("{:?}|{:?}", v.0, v.1);
                    me.push((format!("a2a_xy{}", r), f(x.get_counts_all_to_all(y))));
                    me.push((format!("a2a_yx{}", r), f(y.get_counts_all_to_all(x))));
                    me.push((format!("ag_x{}", r), f(x.get_counts_all_gather())));
                    me.push((format!("ag_y{}", r), f(y.get_counts_all_gather())));
                }
                "gather" => {
                    if r == 0 {
                        push(&mut o, "g.gather_x_root", &d.gather_x_root(&bx));
                        push(&mut o, "g.gather_y_root", &d.gather_y_root(&by));
                        let mut a = dg();
                        d.gather_x_inplace_root(&bx, &mut a);
                        push(&mut o, "g.gather_x_inplace_root", &a);
                        let mut a = dg();
                        d.gather_y_inplace_root(&by, &mut a);
                        push(&mut o, "g.gather_y_inplace_root", &a);
                    } else {
                        d.gather_x(&bx);
                        d.gather_y(&by);
                        d.gather_x(&bx);
                        d.gather_y(&by);
                    }
                }
                "scatter" => {
                    if r == 0 {
                        push(&mut o, "bx.scatter_x_root", &d.scatter_x_root(glob));
                        push(&mut o, "by.scatter_y_root", &d.scatter_y_root(glob));
                        let mut a = dx();
                        d.scatter_x_inplace_root(glob, &mut a);
                        push(&mut o, "bx.scatter_x_inplace_root", &a);
                        let mut a = dy();
                        d.scatter_y_inplace_root(glob, &mut a);
                        push(&mut o, "by.scatter_y_inplace_root", &a);
                    } else {
                        push(&mut o, "bx.scatter_x", &d.scatter_x::<T>());
                        push(&mut o, "by.scatter_y", &d.scatter_y::<T>());
                        let mut a = dx();
                        d.scatter_x_inplace(&mut a);
                        push(&mut o, "bx.scatter_x_inplace", &a);
                        let mut a = dy();
                        d.scatter_y_inplace(&mut a);
                        push(&mut o, "by.scatter_y_inplace", &a);
                    }
                }
                "allgather" => {
                    let mut a = dg();
                    d.all_gather_x(&bx, &mut a);
                    push(&mut o, "g.all_gather_x", &a);
                    let mut a = dg();
                    d.all_gather_y(&by, &mut a);
                    push(&mut o, "g.all_gather_y", &a);
                }
                _ => panic!("HARNESS: op"),
            }
        }
        push(&mut o, "bx", &bx);
        push(&mut o, "by", &by);
        (o, me)
    });
    cx.outa("g", glob);
    emit_ranks(cx, res);
}
fn emit_ranks(cx: &mut Cx, res: Vec<(Outs, Vec<(String, String)>)>) {
    for (r, (o, me)) in res.into_iter().enumerate() {
        for (n, v, s) in o {
            let sh: Vec<String> = s.iter().map(|x| x.to_string()).collect();
            cx.meta(&format!("shape:{}@{}", n, r), sh.join(","));
            cx.groups.push((format!("{}@{}", n, r), v));
        }
        for (k, v) in me {
            cx.meta(&k, v);
        }
    }
}

/// one distributed operation on local or global arrays that are too big or too small by `ds` (argument) and `dr` (result) on rank `who`
fn rejdec<T: El + mpi_stub::traits::Equivalence>(cx: &mut Cx) {
    let (sh, p, op) = (cx.list("shape"), cx.u("p"), cx.s("op").to_string());
    let delta = |k: &str| -> Vec<isize> { cx.opt(k, "0,0").split(',').map(|x| x.parse().unwrap()).collect() };
    let (ds, dr) = (delta("ds"), delta("dr"));
    let who = cx.u("who");
    let v: Vec<T> = cx.named("x", 1);
    let (v, op) = (v[0], op.as_str());
    let res = run_ranks(p, |r, u| {
        let d = Decomp2d::new(u, [sh[0], sh[1]]);
        let mk = |s: [usize; 2], by: &[isize]| {
            let f = |k: usize| if r == who { (s[k] as isize + by[k]).max(0) as usize } else { s[k] };
            Array2::<T>::from_elem((f(0), f(1)), v)
        };
        let (x, y, g) = (d.x_pencil.sz, d.y_pencil.sz, d.n_global);
        let mut o: Outs = vec![];
        macro_rules! two { ($f:ident, $a:expr, $b:expr) => {{ let mut b = mk($b, &dr); d.$f(&mk($a, &ds), &mut b); b }} }
        let a = match op {
            "txy" => two!(transpose_x_to_y, x, y),
            "tyx" => two!(transpose_y_to_x, y, x),
            "agx" => two!(all_gather_x, x, g),
            "agy" => two!(all_gather_y, y, g),
            "gx" => if r == 0 { two!(gather_x_inplace_root, x, g) } else { d.gather_x(&mk(x, &ds)); mk(g, &[0, 0]) },
            "gy" => if r == 0 { two!(gather_y_inplace_root, y, g) } else { d.gather_y(&mk(y, &ds)); mk(g, &[0, 0]) },
            "gxa" => if r == 0 { d.gather_x_root(&mk(x, &ds)) } else { d.gather_x(&mk(x, &ds)); mk(g, &[0, 0]) },
            "gya" => if r == 0 { d.gather_y_root(&mk(y, &ds)) } else { d.gather_y(&mk(y, &ds)); mk(g, &[0, 0]) },
            "sx" => if r == 0 { two!(scatter_x_inplace_root, g, x) } else { let mut b = mk(x, &dr); d.scatter_x_inplace(&mut b); b },
            "sy" => if r == 0 { two!(scatter_y_inplace_root, g, y) } else { let mut b = mk(y, &dr); d.scatter_y_inplace(&mut b); b },
            "sxa" => if r == 0 { d.scatter_x_root(&mk(g, &ds)) } else { d.scatter_x::<T>() },
            "ckx" => { d.x_pencil.check_shape(&mk(x, &ds)); mk(x, &[0, 0]) }
            "cky" => { d.y_pencil.check_shape(&mk(y, &ds)); mk(y, &[0, 0]) }
            "sya" => if r == 0 { d.scatter_y_root(&mk(g, &ds)) } else { d.scatter_y::<T>() },
            _ => panic!("HARNESS: op"),
        };
        push(&mut o, "out", &a);
        (o, vec![])
    });
    emit_ranks(cx, res);
}

/// an operation of a distributed space on local arrays of another shape
macro_rules! rejmpi_space {
    ($cx:ident, $m0:ident, $m1:ident, $P:ty, $S:ty) => {{
        let (k, n, p) = ($cx.strs("kinds"), $cx.list("sizes"), $cx.u("p"));
        let (b0, b1) = ($m0(&k[0], n[0]), $m1(&k[1], n[1]));
        let op = $cx.s("op").to_string();
        let delta = |k: &str| -> Vec<isize> { $cx.opt(k, "0,0").split(',').map(|x| x.parse().unwrap()).collect() };
        let (ds, dr) = (delta("ds"), delta("dr"));
        let who = $cx.u("who");
        let v: Vec<F> = $cx.named("x", 1);
        let (v, op, b0, b1) = (v[0], op.as_str(), &b0, &b1);
        let res = run_ranks(p, |r, u| {
            let sp = Space2Mpi::new(b0, b1, u);
            let sh = |s: [usize; 2], by: &[isize]| {
                let f = |k: usize| if r == who { (s[k] as isize + by[k]).max(0) as usize } else { s[k] };
                (f(0), f(1))
            };
            let py = Decomp2d::new(u, sp.shape_physical()).y_pencil.sz;
            let sx = Decomp2d::new(u, sp.shape_spectral()).x_pencil.sz;
            let ox = Decomp2d::new(u, sp.shape_spectral_ortho()).x_pencil.sz;
            let mut o: Outs = vec![];
            macro_rules! two { ($f:ident, $T1:ty, $a:expr, $T2:ty, $b:expr) => {{
                let a = Array2::<$T1>::from_elem(sh($a, &ds), <$T1>::from(v));
                let mut b = Array2::<$T2>::from_elem(sh($b, &dr), <$T2>::from(v));
                sp.$f(&a, &mut b);
                push(&mut o, "out", &b);
            }} }
            macro_rules! one { ($f:ident, $T1:ty, $a:expr) => {{
                let a = Array2::<$T1>::from_elem(sh($a, &ds), <$T1>::from(v));
                push(&mut o, "out", &sp.$f(&a));
            }} }
            match op {
                "fwd" => one!(forward_mpi, $P, py),
                "bwd" => one!(backward_mpi, $S, sx),
                "to" => one!(to_ortho_mpi, $S, sx),
                "from" => one!(from_ortho_mpi, $S, ox),
                "grad" => {
                    let a = Array2::<$S>::from_elem(sh(sx, &ds), <$S>::from(v));
                    push(&mut o, "out", &sp.gradient_mpi(&a, [1, 1], None));
                }
                "fwdi" => two!(forward_inplace_mpi, $P, py, $S, sx),
                "bwdi" => two!(backward_inplace_mpi, $S, sx, $P, py),
                "toi" => two!(to_ortho_inplace_mpi, $S, sx, $S, ox),
                "fromi" => two!(from_ortho_inplace_mpi, $S, ox, $S, sx),
                _ => panic!("HARNESS: op"),
            }
            (o, vec![])
        });
        emit_ranks($cx, res);
    }};
}
fn rejmpi(cx: &mut Cx) {
    let cl: String = cx.strs("kinds").iter().map(|k| class(k)).collect();
    match cl.as_str() {
        "rr" => rejmpi_space!(cx, r2r, r2r, F, F),
        "hr" => rejmpi_space!(cx, r2c, r2r, F, C),
        "ch" => rejmpi_space!(cx, c2c, r2c, F, C),
        "cc" => rejmpi_space!(cx, c2c, c2c, C, C),
        _ => panic!("HARNESS: combination"),
    }
}

/// tables only, for one global shape and process count
fn table(cx: &mut Cx) {
    let (sh, p) = (cx.list("shape"), cx.u("p"));
    let mut me = vec![];
    for r in 0..p {
        dist_meta(&mut me, r, "x", &funspace::space_mpi::decomp2d::Distribution::<2>::new([sh[0], sh[1]], p, r, 0));
        dist_meta(&mut me, r, "y", &funspace::space_mpi::decomp2d::Distribution::<2>::new([sh[0], sh[1]], p, r, 1));
    }
    for (k, v) in me {
        cx.meta(&k, v);
    }
}

fn reduce<T: El + mpi_stub::traits::Equivalence + std::iter::Sum>(cx: &mut Cx) {
    let p = cx.u("p");
    let v: Vec<T> = cx.named("v", p);
    let d: Vec<T> = cx.named("d", p);
    let mut sum = v[0];
    for x in &v[1..] {
        sum = sum + *x;
    }
    cx.out("sum", &[sum]);
    cx.out("root", &[v[0]]);
    let (v, d) = (&v, &d);
    let res = run_ranks(p, |r, u| {
        let mut o: Outs = vec![];
        let mut b = v[r];
        space_mpi::broadcast_scalar(u, &mut b);
        push(&mut o, "root.broadcast", &arr1(&[b]));
        let mut s = d[r];
        space_mpi::gather_sum(u, &v[r], &mut s);
        if r == 0 {
            push(&mut o, "sum.gather_sum", &arr1(&[s]));
        }
        let mut s = d[r];
        space_mpi::all_gather_sum(u, &v[r], &mut s);
        push(&mut o, "sum.all_gather_sum", &arr1(&[s]));
        (o, vec![])
    });
    emit_ranks(cx, res);
}

macro_rules! mpi_space {
    ($cx:ident, $m0:ident, $m1:ident, $P:ty, $S:ty) => {{
        let (k, n, p) = ($cx.strs("kinds"), $cx.list("sizes"), $cx.u("p"));
        let (b0, b1) = ($m0(&k[0], n[0]), $m1(&k[1], n[1]));
        let serial = Space2::new(&b0, &b1);
        let ops = $cx.strs("op");
        let two = |v: [usize; 2]| vec![v[0], v[1]];
        let (shp, shs, sho) = (two(serial.shape_physical()), two(serial.shape_spectral()), two(serial.shape_spectral_ortho()));
        let phys: Array2<$P> = $cx.arr("phys", &shp).into_dimensionality().unwrap();
        let spec: Array2<$S> = $cx.arr("spec", &shs).into_dimensionality().unwrap();
        let orth: Array2<$S> = $cx.arr("orth", &sho).into_dimensionality().unwrap();
        let dspec: Array2<$S> = $cx.arr("dspec", &shs).into_dimensionality().unwrap();
        let dorth: Array2<$S> = $cx.arr("dorth", &sho).into_dimensionality().unwrap();
        let dphys: Array2<$P> = $cx.arr("dphys", &shp).into_dimensionality().unwrap();
        let sc: Option<[F; 2]> = scale::<2>($cx);
        let (li, lo) = ($cx.opt("li", "c"), $cx.opt("lo", "c"));
        let (li, lo) = (li.as_str(), lo.as_str());
        let dv: [usize; 2] = if $cx.kv.contains_key("d") { let l = $cx.list("d"); [l[0], l[1]] } else { [1, 1] };
        // the serial results
        for (i, op) in ops.iter().enumerate() {
            let nth = ops[..i].iter().filter(|o| *o == op).count();
            if nth > 1 {
                continue;
            }
            let (phys, spec, orth) = if nth == 0 { (&phys, &spec, &orth) } else { (&dphys, &dspec, &dorth) };
            let t = ["", "~"][nth];
            match op.as_str() {
                "fwd" => { let a = serial.forward(phys); $cx.outa(&format!("ref.fwd{}", t), &a); }
                "bwd" => { let a = serial.backward(spec); $cx.outa(&format!("ref.bwd{}", t), &a); }
                "to" => { let a = serial.to_ortho(spec); $cx.outa(&format!("ref.to{}", t), &a); }
                "from" => { let a = serial.from_ortho(orth); $cx.outa(&format!("ref.from{}", t), &a); }
                "grad" => { let a = serial.gradient(spec, dv, sc); $cx.outa(&format!("ref.grad{}", t), &a); }
                _ => {}
            }
        }
        $cx.outa("ref.phys", &phys);
        $cx.outa("ref.spec", &spec);
        let (b0, b1, ops) = (&b0, &b1, &ops);
        let (phys, spec, orth, dspec, dorth, dphys) = (&phys, &spec, &orth, &dspec, &dorth, &dphys);
        let res = run_ranks(p, |r, u| {
            let sp = Space2Mpi::new(b0, b1, u);
            let mut o: Outs = vec![];
            let mut me: Vec<(String, String)> = vec![];
            let tp = Decomp2d::new(u, sp.shape_physical());
            let ts = Decomp2d::new(u, sp.shape_spectral());
            let to = Decomp2d::new(u, sp.shape_spectral_ortho());
            dist_meta(&mut me, r, "px", &tp.x_pencil);
            dist_meta(&mut me, r, "py", &tp.y_pencil);
            dist_meta(&mut me, r, "sx", &ts.x_pencil);
            dist_meta(&mut me, r, "sy", &ts.y_pencil);
            dist_meta(&mut me, r, "ox", &to.x_pencil);
            dist_meta(&mut me, r, "oy", &to.y_pencil);
            macro_rules! blk { ($a:expr, $t:expr) => { relay(sub($a, $t.st, $t.en), li) } }
            macro_rules! dst { ($a:expr, $t:expr) => { relay(sub($a, $t.st, $t.en), lo) } }
            for (i, op) in ops.iter().enumerate() {
                // a repeated operation gets the other data
                let nth = ops[..i].iter().filter(|o| *o == op).count();
                let alt = nth % 2 == 1;
                let (phys, spec, orth, dphys, dspec, dorth) = if alt { (dphys, dspec, dorth, phys, spec, orth) } else { (phys, spec, orth, dphys, dspec, dorth) };
                let t = if nth == 0 { String::new() } else { format!(".#{}{}", ["b", "a"][alt as usize], i) };
                macro_rules! put { ($n:expr, $v:expr) => { push(&mut o, &format!("{}{}", $n, t), $v) } }
                match op.as_str() {
                    "fwd" => {
                        let x = blk!(phys, tp.y_pencil);
                        put!("fwd.sx", &sp.forward_mpi(&x));
                        let mut y = dst!(dspec, ts.x_pencil);
                        sp.forward_inplace_mpi(&x, &mut y);
                        put!("fwd.sx.inplace", &y);
                    }
                    "bwd" => {
                        let x = blk!(spec, ts.x_pencil);
                        put!("bwd.py", &sp.backward_mpi(&x));
                        let mut y = dst!(dphys, tp.y_pencil);
                        sp.backward_inplace_mpi(&x, &mut y);
                        put!("bwd.py.inplace", &y);
                    }
                    "to" => {
                        let x = blk!(spec, ts.x_pencil);
                        put!("to.ox", &sp.to_ortho_mpi(&x));
                        let mut y = dst!(dorth, to.x_pencil);
                        sp.to_ortho_inplace_mpi(&x, &mut y);
                        put!("to.ox.inplace", &y);
                    }
                    "from" => {
                        let x = blk!(orth, to.x_pencil);
                        put!("from.sx", &sp.from_ortho_mpi(&x));
                        let mut y = dst!(dspec, ts.x_pencil);
                        sp.from_ortho_inplace_mpi(&x, &mut y);
                        put!("from.sx.inplace", &y);
                    }
                    "grad" => {
                        let x = blk!(spec, ts.x_pencil);
                        put!("grad.ox", &sp.gradient_mpi(&x, dv, sc));
                    }
                    "serial" => {
                        // the serial interface of the distributed space
                        push(&mut o, "fwdg", &sp.forward(phys));
                        push(&mut o, "bwdg", &sp.backward(spec));
                        push(&mut o, "tog", &sp.to_ortho(spec));
                        push(&mut o, "fromg", &sp.from_ortho(orth));
                        push(&mut o, "gradg", &sp.gradient(spec, dv, sc));
                        push(&mut o, "pfwdg", &sp.forward_par(phys));
                        push(&mut o, "pbwdg", &sp.backward_par(spec));
                        push(&mut o, "ptog", &sp.to_ortho_par(spec));
                        push(&mut o, "pfromg", &sp.from_ortho_par(orth));
                        push(&mut o, "pgradg", &sp.gradient_par(spec, dv, sc));
                        let s2 = Space2::new(b0, b1);
                        push(&mut o, "fwdr", &s2.forward(phys));
                        push(&mut o, "bwdr", &s2.backward(spec));
                        push(&mut o, "tor", &s2.to_ortho(spec));
                        push(&mut o, "fromr", &s2.from_ortho(orth));
                        push(&mut o, "gradr", &s2.gradient(spec, dv, sc));
                        for ax in 0..2 {
                            push(&mut o, &format!("sp:c{}", ax), &sp.coords_axis(ax));
                            push(&mut o, &format!("sp2:c{}", ax), &sp.coords()[ax]);
                            push(&mut o, &format!("sp:S{}", ax), &sp.stencil(ax));
                            push(&mut o, &format!("sp:I{}", ax), &sp.stencil_inv(ax));
                            push(&mut o, &format!("sp:L{}", ax), &sp.laplacian(ax));
                            push(&mut o, &format!("sp:P{}", ax), &sp.laplacian_pinv(ax).0);
                            push(&mut o, &format!("sp:E{}", ax), &sp.laplacian_pinv(ax).1);
                            push(&mut o, &format!("b:c{}", ax), &s2.coords_axis(ax));
                            push(&mut o, &format!("b:S{}", ax), &s2.stencil(ax));
                            push(&mut o, &format!("b:I{}", ax), &s2.stencil_inv(ax));
                            push(&mut o, &format!("b:L{}", ax), &s2.laplacian(ax));
                            push(&mut o, &format!("b:P{}", ax), &s2.laplacian_pinv(ax).0);
                            push(&mut o, &format!("b:E{}", ax), &s2.laplacian_pinv(ax).1);
                            me.push((format!("sp:kind{}@{}", ax, r), kind_str(&sp.base_kind(ax)) + &tkind_str(&sp.transform_kind(ax))));
                            me.push((format!("b:kind{}@{}", ax, r), kind_str(&s2.base_kind(ax)) + &tkind_str(&s2.transform_kind(ax))));
                        }
                        me.push((format!("sp:sh@{}", r), format!("{:?}{:?}{:?}", sp.shape_physical(), sp.shape_spectral(), sp.shape_spectral_ortho())));
                        me.push((format!("b:sh@{}", r), format!("{:?}{:?}{:?}", s2.shape_physical(), s2.shape_spectral(), s2.shape_spectral_ortho())));
                    }
                    "shapes" => {
                        let f = |v: &[usize]| format!("{:?}", v);
                        me.push((format!("sh:px@{}", r), f(&sp.shape_physical_x_pen())));
                        me.push((format!("sh:py@{}", r), f(&sp.shape_physical_y_pen())));
                        me.push((format!("sh:sx@{}", r), f(&sp.shape_spectral_x_pen())));
                        me.push((format!("sh:sy@{}", r), f(&sp.shape_spectral_y_pen())));
                        me.push((format!("nd:px@{}", r), f(sp.ndarray_physical_x_pen().shape())));
                        me.push((format!("nd:py@{}", r), f(sp.ndarray_physical_y_pen().shape())));
                        me.push((format!("nd:sx@{}", r), f(sp.ndarray_spectral_x_pen().shape())));
                        me.push((format!("nd:sy@{}", r), f(sp.ndarray_spectral_y_pen().shape())));
                        me.push((format!("nrank@{}", r), format!("{} {}", sp.get_nrank(), sp.get_nprocs())));
                        for sh in [sp.shape_physical(), sp.shape_spectral(), [sp.shape_physical()[0], sp.shape_spectral()[1]], [sp.shape_spectral()[0], sp.shape_physical()[1]]] {
                            let d = sp.get_decomp_from_global_shape(&sh);
                            let e = Decomp2d::new(u, sh);
                            me.push((format!("dec:{:?}@{}", sh, r), format!("{:?}|{:?}|{:?}", d.n_global, d.x_pencil.st_procs, d.y_pencil.en_procs)));
                            me.push((format!("exp:{:?}@{}", sh, r), format!("{:?}|{:?}|{:?}", e.n_global, e.x_pencil.st_procs, e.y_pencil.en_procs)));
                        }
                    }
                    "move" => {
                        // transposes, scatter, gather through the space
                        let (px, py) = (blk!(phys, tp.x_pencil), blk!(phys, tp.y_pencil));
                        let (sx, sy) = (blk!(spec, ts.x_pencil), blk!(spec, ts.y_pencil));
                        let mut a = dst!(dphys, tp.y_pencil); sp.transpose_x_to_y_phys(&px, &mut a); put!("phys.py.transpose_x_to_y_phys", &a);
                        let mut a = dst!(dphys, tp.x_pencil); sp.transpose_y_to_x_phys(&py, &mut a); put!("phys.px.transpose_y_to_x_phys", &a);
                        let mut a = dst!(dspec, ts.y_pencil); sp.transpose_x_to_y_spec(&sx, &mut a); put!("spec.sy.transpose_x_to_y_spec", &a);
                        let mut a = dst!(dspec, ts.x_pencil); sp.transpose_y_to_x_spec(&sy, &mut a); put!("spec.sx.transpose_y_to_x_spec", &a);
                        let mut a = relay(dphys.clone(), lo); sp.all_gather_from_x_pencil_phys(&px, &mut a); put!("phys.g.all_gather_x_phys", &a);
                        let mut a = relay(dphys.clone(), lo); sp.all_gather_from_y_pencil_phys(&py, &mut a); put!("phys.g.all_gather_y_phys", &a);
                        let mut a = relay(dspec.clone(), lo); sp.all_gather_from_x_pencil_spec(&sx, &mut a); put!("spec.g.all_gather_x_spec", &a);
                        let mut a = relay(dspec.clone(), lo); sp.all_gather_from_y_pencil_spec(&sy, &mut a); put!("spec.g.all_gather_y_spec", &a);
                        if r == 0 {
                            let mut a = relay(dphys.clone(), lo); sp.gather_from_x_pencil_phys_root(&px, &mut a); put!("phys.g.gather_x_phys", &a);
                            let mut a = relay(dphys.clone(), lo); sp.gather_from_y_pencil_phys_root(&py, &mut a); put!("phys.g.gather_y_phys", &a);
                            let mut a = relay(dspec.clone(), lo); sp.gather_from_x_pencil_spec_root(&sx, &mut a); put!("spec.g.gather_x_spec", &a);
                            let mut a = relay(dspec.clone(), lo); sp.gather_from_y_pencil_spec_root(&sy, &mut a); put!("spec.g.gather_y_spec", &a);
                        } else {
                            sp.gather_from_x_pencil_phys(&px);
                            sp.gather_from_y_pencil_phys(&py);
                            sp.gather_from_x_pencil_spec(&sx);
                            sp.gather_from_y_pencil_spec(&sy);
                        }
                        let mut a = dst!(dphys, tp.x_pencil);
                        let mut b = dst!(dphys, tp.y_pencil);
                        let mut c = dst!(dspec, ts.x_pencil);
                        let mut d = dst!(dspec, ts.y_pencil);
                        if r == 0 {
                            sp.scatter_to_x_pencil_phys_root(phys, &mut a);
                            sp.scatter_to_y_pencil_phys_root(phys, &mut b);
                            sp.scatter_to_x_pencil_spec_root(spec, &mut c);
                            sp.scatter_to_y_pencil_spec_root(spec, &mut d);
                        } else {
                            sp.scatter_to_x_pencil_phys(&mut a);
                            sp.scatter_to_y_pencil_phys(&mut b);
                            sp.scatter_to_x_pencil_spec(&mut c);
                            sp.scatter_to_y_pencil_spec(&mut d);
                        }
                        put!("phys.px.scatter_x_phys", &a);
                        put!("phys.py.scatter_y_phys", &b);
                        put!("spec.sx.scatter_x_spec", &c);
                        put!("spec.sy.scatter_y_spec", &d);
                    }
                    _ => panic!("HARNESS: op"),
                }
            }
            (o, me)
        });
        emit_ranks($cx, res);
    }};
}

fn mpi(cx: &mut Cx) {
    let cl: String = cx.strs("kinds").iter().map(|k| class(k)).collect();
    match cl.as_str() {
        "rr" => mpi_space!(cx, r2r, r2r, F, F),
        "hr" => mpi_space!(cx, r2c, r2r, F, C),
        "ch" => mpi_space!(cx, c2c, r2c, F, C),
        "cc" => mpi_space!(cx, c2c, c2c, C, C),
        _ => panic!("HARNESS: combination"),
    }
}

// ---------------------------------------------------------------- helpers
fn util(cx: &mut Cx) {
    let sh = cx.list("shape");
    let op = cx.s("op").to_string();
    let r;
    match op.as_str() {
        "approx_eq" => {
            let a: Vec<F> = cx.named("a", sh[0]);
            let b: Vec<F> = cx.named("b", sh[0]);
            r = catch_unwind(AssertUnwindSafe(|| funspace::utils::approx_eq(&a, &b))).err();
        }
        "approx_eq_complex" => {
            let a: Vec<C> = cx.named("a", sh[0]);
            let b: Vec<C> = cx.named("b", sh[0]);
            r = catch_unwind(AssertUnwindSafe(|| funspace::utils::approx_eq_complex(&a, &b))).err();
        }
        "approx_eq_ndarray" => {
            let a: ArrayD<F> = relay(cx.arr("a", &sh), cx.opt("li", "c").as_str());
            let b: ArrayD<F> = relay(cx.arr("b", &sh), cx.opt("lo", "c").as_str());
            r = catch_unwind(AssertUnwindSafe(|| funspace::utils::approx_eq_ndarray(&a, &b))).err();
        }
        "approx_eq_complex_ndarray" => {
            let a: ArrayD<C> = relay(cx.arr("a", &sh), cx.opt("li", "c").as_str());
            let b: ArrayD<C> = relay(cx.arr("b", &sh), cx.opt("lo", "c").as_str());
            r = catch_unwind(AssertUnwindSafe(|| funspace::utils::approx_eq_complex_ndarray(&a, &b))).err();
        }
        _ => panic!("HARNESS: op"),
    }
    if let Some(e) = &r {
        let m = crate::panic_text(e);
        if m.contains("SYM-UNSUPPORTED") {
            panic!("{}", m);
        }
    }
    cx.meta("accepted", if r.is_none() { 1 } else { 0 });
}

/// calls with arrays of any extents; the case says whether they must be refused
fn reject(cx: &mut Cx, kind: &str, n: usize) {
    let op = cx.s("op").to_string();
    let sh_in = cx.list("sin");
    let sh_out = cx.list("sout");
    let axis = cx.u("axis");
    let how = cx.s("how").to_string();
    macro_rules! go {
        ($b:ident, $T1:ty, $T2:ty, $alloc:ident, $inpl:ident, $par:ident, $parin:ident $(, $d:expr)?) => {{
            let x: ArrayD<$T1> = cx.arr("x", &sh_in);
            let mut y: ArrayD<$T2> = cx.arr("y", &sh_out);
            let y0 = y.clone();
            match how.as_str() {
                "alloc" => y = $b.$alloc(&x $(, $d)?, axis),
                "par" => y = $b.$par(&x $(, $d)?, axis),
                "inpl" => $b.$inpl(&x, &mut y $(, $d)?, axis),
                "parin" => $b.$parin(&x, &mut y $(, $d)?, axis),
                _ => panic!("HARNESS: how"),
            }
            let _ = y0;
            cx.outa("out", &y);
        }};
    }
    macro_rules! all {
        ($b:ident, $P:ty, $S:ty) => {
            match op.as_str() {
                "fwd" => go!($b, $P, $S, forward, forward_inplace, forward_par, forward_inplace_par),
                "bwd" => go!($b, $S, $P, backward, backward_inplace, backward_par, backward_inplace_par),
                "to" => go!($b, $S, $S, to_ortho, to_ortho_inplace, to_ortho_par, to_ortho_inplace_par),
                "from" => go!($b, $S, $S, from_ortho, from_ortho_inplace, from_ortho_par, from_ortho_inplace_par),
                g => {
                    let d: usize = g[1..].parse().unwrap();
                    go!($b, $S, $S, gradient, gradient_inplace, gradient_par, gradient_inplace_par, d)
                }
            }
        };
    }
    match kind {
        "r2c" => {
            let b = r2c(kind, n);
            all!(b, F, C)
        }
        "c2c" => {
            let b = c2c(kind, n);
            all!(b, C, C)
        }
        _ => {
            let b = r2r(kind, n);
            if cx.opt("t", "r") == "c" && op != "fwd" && op != "bwd" {
                match op.as_str() {
                    "to" => go!(b, C, C, to_ortho, to_ortho_inplace, to_ortho_par, to_ortho_inplace_par),
                    "from" => go!(b, C, C, from_ortho, from_ortho_inplace, from_ortho_par, from_ortho_inplace_par),
                    g => {
                        let d: usize = g[1..].parse().unwrap();
                        go!(b, C, C, gradient, gradient_inplace, gradient_par, gradient_inplace_par, d)
                    }
                }
            } else {
                all!(b, F, F)
            }
        }
    }
}

/// a space's operation on an array of another shape
fn rejspace(cx: &mut Cx) {
    let (ks, ns) = (cx.strs("kinds"), cx.list("sizes"));
    let op = cx.s("op").to_string();
    let (si, so) = (cx.list("sin"), cx.list("sout"));
    let how = cx.s("how").to_string();
    macro_rules! go {
        ($sp:ident, $D:ty, $T1:ty, $T2:ty, $alloc:ident, $inpl:ident, $par:ident, $parin:ident) => {{
            let x = cx.arr::<$T1>("x", &si).into_dimensionality::<$D>().unwrap();
            let mut y = cx.arr::<$T2>("y", &so).into_dimensionality::<$D>().unwrap();
            match how.as_str() {
                "alloc" => y = $sp.$alloc(&x),
                "par" => y = $sp.$par(&x),
                "inpl" => $sp.$inpl(&x, &mut y),
                "parin" => $sp.$parin(&x, &mut y),
                _ => panic!("HARNESS: how"),
            }
            cx.outa("out", &y);
        }};
    }
    macro_rules! all {
        ($sp:ident, $D:ty, $P:ty, $S:ty) => {
            match op.as_str() {
                "fwd" => go!($sp, $D, $P, $S, forward, forward_inplace, forward_par, forward_inplace_par),
                "bwd" => go!($sp, $D, $S, $P, backward, backward_inplace, backward_par, backward_inplace_par),
                "to" => go!($sp, $D, $S, $S, to_ortho, to_ortho_inplace, to_ortho_par, to_ortho_inplace_par),
                "grad" => {
                    let x = cx.arr::<$S>("x", &si).into_dimensionality::<$D>().unwrap();
                    let y = if how == "par" { $sp.gradient_par(&x, [1; <$D as Dimension>::NDIM.unwrap()], None) } else { $sp.gradient(&x, [1; <$D as Dimension>::NDIM.unwrap()], None) };
                    cx.outa("out", &y);
                }
                _ => go!($sp, $D, $S, $S, from_ortho, from_ortho_inplace, from_ortho_par, from_ortho_inplace_par),
            }
        };
    }
    match mk_any2(&ks, &ns) {
        Any2::Rr(b) => all!(b, Ix2, F, F),
        Any2::Hr(b) => all!(b, Ix2, F, C),
        Any2::Ch(b) => all!(b, Ix2, F, C),
        Any2::Cc(b) => all!(b, Ix2, C, C),
        Any2::Chr(b) => all!(b, Ix3, F, C),
        Any2::Rrr(b) => all!(b, Ix3, F, F),
    }
}

/// slice operations on slices of any lengths, inside larger buffers
fn slices(cx: &mut Cx, kind: &str, n: usize) {
    let op = cx.s("op").to_string();
    let (li, lo) = (cx.u("li"), cx.u("lo"));
    const G: usize = 9;
    macro_rules! go {
        ($b:ident, $T1:ty, $T2:ty, $f:ident $(, $d:expr)?) => {{
            let x: Vec<$T1> = cx.named("x", li + 2 * G);
            let mut y: Vec<$T2> = cx.named("y", lo + 2 * G);
            let (x0, y0) = (x.clone(), y.clone());
            $b.$f(&x[G..G + li], &mut y[G..G + lo] $(, $d)?);
            cx.out("x", &x);
            cx.out("in:x", &x0);
            cx.out("res", &y[G..G + lo]);
            cx.out("in:y", &y0);
            cx.meta("guard", format!("{} {} {} {} {}", G, li, <$T1>::NC, lo, <$T2>::NC));
            let guard: Vec<$T2> = y[..G].iter().chain(&y[G + lo..]).copied().collect();
            cx.out("guard", &guard);
            let guard: Vec<$T2> = y0[..G].iter().chain(&y0[G + lo..]).copied().collect();
            cx.out("in:guard", &guard);
        }};
    }
    macro_rules! all {
        ($b:ident, $P:ty, $S:ty) => {
            match op.as_str() {
                "fwd" => go!($b, $P, $S, forward_slice),
                "bwd" => go!($b, $S, $P, backward_slice),
                "to" => go!($b, $S, $S, to_ortho_slice),
                "from" => go!($b, $S, $S, from_ortho_slice),
                g => {
                    let d: usize = g[1..].parse().unwrap();
                    go!($b, $S, $S, gradient_slice, d)
                }
            }
        };
    }
    match kind {
        "r2c" => {
            let b = r2c(kind, n);
            all!(b, F, C)
        }
        "c2c" => {
            let b = c2c(kind, n);
            all!(b, C, C)
        }
        _ => {
            let b = r2r(kind, n);
            if cx.opt("t", "r") == "c" && op != "fwd" && op != "bwd" {
                match op.as_str() {
                    "to" => go!(b, C, C, to_ortho_slice),
                    "from" => go!(b, C, C, from_ortho_slice),
                    g => {
                        let d: usize = g[1..].parse().unwrap();
                        go!(b, C, C, gradient_slice, d)
                    }
                }
            } else {
                all!(b, F, F)
            }
        }
    }
}

/// Chebyshev helper functions
fn chebmat(cx: &mut Cx) {
    let n = cx.u("n");
    let v = Chebyshev::<F>::nodes(n);
    cx.out("nodes", &v);
    let one: F = F::one();
    let _ = one;
}

/// uses other bases before the case itself: kind:size pairs
fn warm(cx: &mut Cx) {
    for w in cx.strs("warm") {
        let (k, n) = w.split_once(':').expect("HARNESS: warm");
        let b = mk_any(k, n.parse().unwrap());
        for op in ["fwd", "bwd", "to", "from", "g1", "g2", "g3", "mats"] {
            let x = vec![mkf(0.5); b.insize(op)];
            b.apply(op, &x);
        }
    }
}

pub fn run(cx: &mut Cx) {
    if cx.kv.contains_key("warm") {
        warm(cx)
    }
    let sc = cx.s("sc").to_string();
    let kind = cx.opt("kind", "");
    let k = kind.as_str();
    let n = cx.opt("n", "0").parse::<usize>().unwrap();
    match sc.as_str() {
        "tr" => with_base!(k, n, b => tr(cx, k, &b)),
        "conv" => match (k, cx.opt("t", "r").as_str()) {
            ("r2c", _) => conv::<_, C>(cx, &r2c(k, n)),
            ("c2c", _) => conv::<_, C>(cx, &c2c(k, n)),
            (_, "c") => conv::<_, C>(cx, &r2r(k, n)),
            _ => conv::<_, F>(cx, &r2r(k, n)),
        },
        "grad" => match (k, cx.opt("t", "r").as_str()) {
            ("r2c", _) => grad::<_, C>(cx, &r2c(k, n)),
            ("c2c", _) => grad::<_, C>(cx, &c2c(k, n)),
            (_, "c") => grad::<_, C>(cx, &r2r(k, n)),
            _ => grad::<_, F>(cx, &r2r(k, n)),
        },
        "mats" => {
            with_base!(k, n, b => mats(cx, &b));
            wavenumber(cx, k, n);
        }
        "meta" => {
            with_base!(k, n, b => meta(cx, &b));
            wavenumber(cx, k, n);
        }
        "chebmat" => chebmat(cx),
        "nd" => nd(cx, k, n),
        "space" => space(cx),
        "hist" => {
            let k = kind.clone();
            hist(cx, || mk_any(&k, n))
        }
        "histspace" => {
            let (ks, ns) = (cx.strs("kinds"), cx.list("sizes"));
            hist(cx, || mk_any2(&ks, &ns))
        }
        "dec" => {
            if cx.opt("t", "r") == "c" {
                dec::<C>(cx)
            } else {
                dec::<F>(cx)
            }
        }
        "table" => table(cx),
        "reduce" => {
            if cx.opt("t", "r") == "c" {
                reduce::<C>(cx)
            } else {
                reduce::<F>(cx)
            }
        }
        "mpi" => mpi(cx),
        "util" => util(cx),
        "reject" => reject(cx, k, n),
        "slices" => slices(cx, k, n),
        "rejspace" => rejspace(cx),
        "rejdec" => {
            if cx.opt("t", "r") == "c" {
                rejdec::<C>(cx)
            } else {
                rejdec::<F>(cx)
            }
        }
        "rejmpi" => rejmpi(cx),
        _ => panic!("HARNESS: scenario {}", sc),
    }
}
