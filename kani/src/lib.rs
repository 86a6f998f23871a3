//! Bounded model checking of the integer and floating-point leaf code of funspace with Kani (CBMC).
//! Every body takes its values from `V`: arbitrary ones under Kani, recorded ones when a counterexample is replayed
//! natively (`src/main.rs`).
use funspace::space_mpi::decomp2d::Distribution;
use funspace::utils::{approx_eq, approx_eq_complex, approx_eq_complex_ndarray, approx_eq_ndarray};
use num_complex::Complex;

/// The source of values, in the order they are asked for
pub struct V(pub Vec<Vec<u8>>);

macro_rules! any {
    ($($t:ident)*) => { $(
        pub fn $t(&mut self) -> $t {
            #[cfg(kani)]
            return kani::any();
            #[cfg(not(kani))]
            {
                let b = self.0.remove(0);
                $t::from_le_bytes(b.try_into().unwrap())
            }
        }
    )* };
}

impl V {
    any! { u8 f32 f64 }
    fn size(&mut self, bits: u32) -> usize {
        let x = self.u8();
        assume(x as u32 >> bits == 0);
        x as usize
    }
}

fn assume(c: bool) {
    #[cfg(kani)]
    kani::assume(c);
    #[cfg(not(kani))]
    if !c {
        println!("outside the assumptions");
        std::process::exit(3);
    }
}

fn reached() {
    #[cfg(kani)]
    kani::cover!(true, "PROP: reached");
}

/// The table of one rank: every rank's block is whole along `contig`, the blocks tile the other axis in rank order
/// and differ by at most one.
fn table(v: &mut V, p: usize, contig: usize, bits: u32) {
    let (n0, n1, rank) = (v.size(bits), v.size(bits), v.size(8));
    let ng = [n0, n1];
    let ax = 1 - contig;
    assume(rank < p && ng[ax] >= p && ng[contig] >= 1);
    let d = Distribution::<2>::new(ng, p, rank, contig);
    assert!(d.nprocs == p && d.nrank == rank && d.axis_contig == contig, "PROP: own identity");
    assert!(d.st_procs.len() == p && d.en_procs.len() == p && d.sz_procs.len() == p, "PROP: one row per process");
    let (mut pos, mut mn, mut mx) = (0, usize::MAX, 0);
    for r in 0..p {
        let (st, en, sz) = (d.st_procs[r], d.en_procs[r], d.sz_procs[r]);
        assert!(st[contig] == 0 && en[contig] == ng[contig] - 1 && sz[contig] == ng[contig], "PROP: the other axis is whole");
        assert!(st[ax] == pos, "PROP: blocks are contiguous in rank order");
        assert!(en[ax] >= st[ax], "PROP: blocks are not empty");
        assert!(sz[ax] == en[ax] - st[ax] + 1, "PROP: size is end minus start plus one");
        mn = if sz[ax] < mn { sz[ax] } else { mn };
        mx = if sz[ax] > mx { sz[ax] } else { mx };
        pos = en[ax] + 1;
    }
    assert!(mx - mn <= 1, "PROP: blocks differ by at most one");
    assert!(pos == ng[ax], "PROP: blocks cover the axis");
    for i in 0..2 {
        assert!(d.st[i] == d.st_procs[rank][i] && d.en[i] == d.en_procs[rank][i] && d.sz[i] == d.sz_procs[rank][i], "PROP: own row");
    }
    assert!(d.length() == d.sz[0] * d.sz[1], "PROP: length of the block");
    reached();
}

/// Counts and displacements of the transposes: what a rank sends is what its peer expects, buffers are tiled.
fn counts(v: &mut V, p: usize, bits: u32) {
    let (n0, n1, r, q) = (v.size(bits), v.size(bits), v.size(8), v.size(8));
    assume(r < p && q < p && n0 >= p && n1 >= p);
    // the distributions of rank r, and those of rank q as its own rows of the same tables
    let xr = Distribution::<2>::new([n0, n1], p, r, 0);
    let mut yq = Distribution::<2>::new([n0, n1], p, r, 1);
    let (cs, ds) = xr.get_counts_all_to_all(&yq);
    let mut xq = xr;
    let (sz1, len) = (xq.sz[1], xq.length());
    for d in [&mut xq, &mut yq] {
        d.nrank = q;
        d.st = d.st_procs[q];
        d.en = d.en_procs[q];
        d.sz = d.sz_procs[q];
    }
    let (ct, dt) = yq.get_counts_all_to_all(&xq);
    assert!(cs.len() == p && ds.len() == p && ct.len() == p && dt.len() == p, "PROP: one entry per process");
    // the part of the x-pencil of rank r that lands on rank q in the y-pencil
    assert!(cs[q] as usize == sz1 * yq.sz[0], "PROP: count is the size of the common block");
    assert!(cs[q] == ct[r], "PROP: send and receive counts of the pair agree");
    let (mut a, mut b) = (0, 0);
    for k in 0..p {
        assert!(ds[k] as usize == a && dt[k] as usize == b, "PROP: displacements tile the buffers");
        assert!(cs[k] >= 0 && ct[k] >= 0, "PROP: counts are not negative");
        a += cs[k] as usize;
        b += ct[k] as usize;
    }
    assert!(a == len && b == yq.length(), "PROP: the buffers are used completely");
    reached();
}

fn gathers(v: &mut V, p: usize, contig: usize, bits: u32) {
    let (n0, n1, r) = (v.size(bits), v.size(bits), v.size(8));
    assume(r < p && n0 >= p && n1 >= p);
    let d = Distribution::<2>::new([n0, n1], p, r, contig);
    let (c, s) = d.get_counts_all_gather();
    assert!(c.len() == p && s.len() == p, "PROP: one entry per process");
    assert!(c[r] as usize == d.length(), "PROP: own count is the length of the own block");
    let mut a = 0;
    for k in 0..p {
        assert!(c[k] >= 0 && s[k] as usize == a, "PROP: displacements tile the buffer");
        a += c[k] as usize;
    }
    assert!(a == n0 * n1, "PROP: the blocks fill the global array");
    reached();
}

// ---------------------------------------------------------------- approximate equality, bit-precise floats
macro_rules! approx {
    ($m:ident $t:ident) => {
        pub mod $m {
            use super::*;
            fn draw<const N: usize>(v: &mut V) -> ([$t; N], [$t; N], bool) {
                let (mut a, mut b) = ([0.0; N], [0.0; N]);
                let mut ok = true;
                for i in 0..N {
                    a[i] = v.$t();
                    b[i] = v.$t();
                    ok = ok && (a[i] - b[i]).abs() < 1e-3;
                }
                (a, b, ok)
            }
            pub fn real<const N: usize>(v: &mut V, accept: bool, nd: bool) {
                let (a, b, ok) = draw::<N>(v);
                assume(ok == accept);
                reached();
                if nd {
                    approx_eq_ndarray(&ndarray::arr1(&a), &ndarray::arr1(&b));
                } else {
                    approx_eq(&a, &b);
                }
                assert!(accept, "PROP: a difference was accepted");
            }
            pub fn cplx<const N: usize>(v: &mut V, accept: bool, nd: bool) {
                let (a, b, ok) = draw::<N>(v);
                let (c, d, ok2) = draw::<N>(v);
                assume((ok && ok2) == accept);
                let mut x = [Complex::new(0.0, 0.0); N];
                let mut y = x;
                for i in 0..N {
                    x[i] = Complex::new(a[i], c[i]);
                    y[i] = Complex::new(b[i], d[i]);
                }
                reached();
                if nd {
                    approx_eq_complex_ndarray(&ndarray::arr1(&x), &ndarray::arr1(&y));
                } else {
                    approx_eq_complex(&x, &y);
                }
                assert!(accept, "PROP: a difference was accepted");
            }
        }
    };
}
approx!(d f64);
approx!(s f32);

macro_rules! harness {
    ($($name:ident $unwind:literal $body:expr;)*) => {
        $(
            #[cfg(kani)]
            #[kani::proof]
            #[kani::unwind($unwind)]
            fn $name() { let f: fn(&mut V) = $body; f(&mut V(Vec::new())) }
        )*
        #[cfg(not(kani))]
        pub fn replay(name: &str, v: &mut V) {
            match name { $( stringify!($name) => { let f: fn(&mut V) = $body; f(v) } )* _ => panic!("no harness {}", name) }
        }
    };
}
harness! {
    table_1_0 4 |v| table(v, 1, 0, 8);
    table_1_1 4 |v| table(v, 1, 1, 8);
    table_2_0 4 |v| table(v, 2, 0, 8);
    table_2_1 4 |v| table(v, 2, 1, 8);
    table_3_0 5 |v| table(v, 3, 0, 8);
    table_3_1 5 |v| table(v, 3, 1, 8);
    table_4_0 6 |v| table(v, 4, 0, 6);
    table_4_1 6 |v| table(v, 4, 1, 6);
    table_5_0 7 |v| table(v, 5, 0, 6);
    table_5_1 7 |v| table(v, 5, 1, 6);
    table_6_0 8 |v| table(v, 6, 0, 5);
    table_6_1 8 |v| table(v, 6, 1, 5);
    table_7_0 9 |v| table(v, 7, 0, 5);
    table_7_1 9 |v| table(v, 7, 1, 5);
    table_8_0 10 |v| table(v, 8, 0, 5);
    table_8_1 10 |v| table(v, 8, 1, 5);
    counts_1 4 |v| counts(v, 1, 5);
    counts_2 4 |v| counts(v, 2, 4);
    counts_3 5 |v| counts(v, 3, 4);
    counts_4 6 |v| counts(v, 4, 4);
    gathers_1_0 4 |v| gathers(v, 1, 0, 5);
    gathers_2_0 4 |v| gathers(v, 2, 0, 4);
    gathers_2_1 4 |v| gathers(v, 2, 1, 4);
    gathers_3_0 5 |v| gathers(v, 3, 0, 4);
    gathers_3_1 5 |v| gathers(v, 3, 1, 4);
    gathers_4_0 6 |v| gathers(v, 4, 0, 4);
    gathers_4_1 6 |v| gathers(v, 4, 1, 4);
    approx_d1_accept 4 |v| d::real::<1>(v, true, false);
    approx_d1_reject 4 |v| d::real::<1>(v, false, false);
    approx_d2_accept 5 |v| d::real::<2>(v, true, false);
    approx_d2_reject 5 |v| d::real::<2>(v, false, false);
    approx_s3_accept 6 |v| s::real::<3>(v, true, false);
    approx_s3_reject 6 |v| s::real::<3>(v, false, false);
    approx_dc1_accept 4 |v| d::cplx::<1>(v, true, false);
    approx_dc1_reject 4 |v| d::cplx::<1>(v, false, false);
    approx_sc2_accept 5 |v| s::cplx::<2>(v, true, false);
    approx_sc2_reject 5 |v| s::cplx::<2>(v, false, false);
    approx_nd1_accept 4 |v| d::real::<1>(v, true, true);
    approx_nd1_reject 4 |v| d::real::<1>(v, false, true);
    approx_ns2_reject 5 |v| s::real::<2>(v, false, true);
    approx_nc1_accept 4 |v| s::cplx::<1>(v, true, true);
    approx_nc1_reject 4 |v| s::cplx::<1>(v, false, true);
}
