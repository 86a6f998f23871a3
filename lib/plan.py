"""Which cases decide which property, per tier."""
import itertools
import math
import random
import spec as S

ORTH = ["cheb", "r2c", "c2c"]
COMPO = ["dir", "neu", "dn", "ba", "bb"]
CHEB = ["cheb"] + COMPO
ALL = CHEB + ["r2c", "c2c"]
FN = {
    "transform": ["Chebyshev::forward_slice", "Chebyshev::backward_slice", "FourierR2c::forward_slice", "FourierR2c::backward_slice",
                  "FourierC2c::forward_slice", "FourierC2c::backward_slice", "rustdct/rustfft/realfft plans (scalar paths)"],
    "compo": ["ChebyshevComposite::{forward,backward,to_ortho,from_ortho,gradient}_slice", "StencilOperations::{dot_inplace,solve_inplace,to_array,pinv}",
              "linalg::{tdma,pdma,pdma2}"],
    "mats": ["BaseMatOpDiffmat::{diffmat,diffmat_pinv}", "BaseMatOpLaplacian::{laplacian,laplacian_pinv}", "BaseMatOpStencil::{stencil,stencil_inv}", "chebyshev::{_dmat,_pinv}", "fourier wavenumbers"],
    "meta": ["BaseSize::{len_phys,len_spec,len_orth}", "BaseGradient/BaseFromOrtho array lengths", "BaseElements::{coords,base_kind,transform_kind}"],
    "arrays": ["traits::{BaseTransform,BaseFromOrtho,BaseGradient} array methods (serial, in-place, parallel)", "internal_macros::{apply_along_axis,par_apply_along_axis}",
               "utils::{array_resized_axis,check_array_axis}"],
    "space": ["space::{space1,space2,space3}: forward, backward, to_ortho, from_ortho, gradient and their parallel and in-place variants", "space::traits"],
    "dist": ["space_mpi::decomp2d::{Distribution,Decomp2d}", "space_mpi::decomp2d::functions", "space_mpi::{Space2Mpi,DecompHandler}"],
}
OUT1 = "sizes above those listed; SIMD code paths of the FFT library (only compared natively at random points); rounding is bounded, not modelled bit by bit"
OUTN = "other shapes, sizes and ranks than those listed; SIMD code paths of the FFT library (only compared natively at random points)"
OUTS = "other combinations of sizes; interleavings with more switches than listed; memory-model effects (the schedules are sequentially consistent)"
OUTSIDE = {}
OUTD = "shapes and process counts above those listed; the MPI library itself is replaced by a model with the semantics of the MPI standard (collectives over shared memory, displacements and counts checked)"

for _p in range(1, 22):
    OUTSIDE["P%02d" % _p] = OUT1 if _p < 9 or _p == 15 else OUTN if _p in (9, 10, 11, 12, 13) else OUTD if _p in (17, 18, 19, 20) else OUTS if _p == 14 else OUTN
OUTSIDE["P10"] += "; interleavings with more switches than listed; memory-model effects (schedules are sequentially consistent)"
OUTSIDE["P16"] = "lengths and sizes above those listed; undefined behaviour other than out-of-bounds access (bounds of every access are checked in the debug build of the real code)"
OUTSIDE["P21"] = "sequences longer than listed; NaN and infinite values, and differences within 1e-9 of the tolerance, beyond the lengths decided bit-precisely by Kani (1 to 3)"


def sizes(kind, upto, extra=()):
    lo = S.MIN[kind]
    return [n for n in list(range(lo, upto + 1)) + sorted(extra) if n >= lo]


def case(claims, **kv):
    c = {"claims": claims, "kv": {}}
    for k in list(kv):
        if k.startswith("_"):
            c[k[1:]] = kv.pop(k)
    c["kv"] = {k: str(v) for k, v in kv.items() if v is not None}
    return c


def sort_by(cases, cost):
    return sorted(cases, key=cost, reverse=True)


def plan(prop, tier, seed):
    p = globals()["plan_" + prop.lower()](tier == "thorough", seed)
    p.setdefault("bins", ["s", "d"])
    p.setdefault("outside", OUTSIDE[prop])
    if prop in ("P17", "P18", "P19", "P21"):
        p["extra"] = ["kani_" + prop.lower()]
    if any(c.get("single") for c in p["cases"]):
        p["bins"] = ["s", "d", "q"]
    return p


def one_d(prop, kinds, upto, extra, single=(), **kv):
    out = []
    for k in kinds:
        for n in sizes(k, upto, extra):
            out.append(case(prop, kind=k, n=n, **kv))
        for n in single:
            if n >= S.MIN[k]:
                out.append(case(prop, kind=k, n=n, _single=True, **dict(kv, **({"_tau": 2e-4} if prop in ("p03", "p06", "p07", "p08") else {}))))
    return sort_by(out, lambda c: int(c["kv"]["n"]))


SGL = (6, 10, 13)
BIG = (40, 45, 48, 50, 63, 64, 65, 66)
# sizes at which a threshold in the code would show
LARGE = (80, 96, 97, 100, 101, 127, 128, 129)
HUGE = (199, 200, 255, 256, 257)


def far(prop, kinds, n, **kv):
    """single sizes above five hundred"""
    return [case(prop, kind=k, n=n, **kv) for k in kinds]


def plan_p01(th, seed):
    more = [case("p01", sc="tr", kind=k, n=n) for k, n in (("cheb", 513), ("r2c", 512), ("c2c", 512), ("r2c", 600), ("cheb", 401)) + ((("r2c", 1024), ("c2c", 1024), ("cheb", 512), ("c2c", 729)) if th else ())]
    return {"cases": more + one_d("p01", ORTH, 48 if not th else 66, BIG + LARGE + ((200, 256, 257) if not th else (81, 99, 111, 120, 130, 150, 160, 192, 201, 211, 240) + HUGE),
                           (4, 5, 8, 9, 17, 32) if not th else range(2, 34), sc="tr"),
            "functions": FN["transform"]}


def plan_p02(th, seed):
    p = plan_p01(th, seed)
    # dense claims: the solver needs minutes for a Fourier base of this size
    p["cases"] = [c for c in p["cases"] if not (c["kv"]["kind"] != "cheb" and int(c["kv"]["n"]) > (512 if th else 300))]
    for c in p["cases"]:
        c["claims"] = "p02"
    return p


def plan_p05(th, seed):
    return {"cases": far("p05", ("neu", "dir", "dn") if th else ("neu",), 513, sc="tr", S=1) + one_d("p05", COMPO, 48 if not th else 66, BIG + ((100, 128, 129, 200, 257) if not th else LARGE + HUGE),
                           (11, 12, 17) if not th else range(10, 30), sc="tr", S=1),
            "functions": FN["transform"][:2] + FN["compo"]}


def plan_p03(th, seed):
    return {"cases": far("p03", COMPO, 520, sc="conv", t="r") + far("p03", ("dir", "neu"), 1030, sc="conv", t="r") + far("p03", ("ba", "bb", "dn"), 1400, sc="conv", t="r") + (far("p03", ("dir",), 4100, sc="conv", t="r") if th else []) + one_d("p03", COMPO, 40 if not th else 66, BIG + LARGE + ((200, 256, 257) if not th else HUGE + (300, 400)), SGL, sc="conv", t="r") + one_d("p03", COMPO, 24, (33, 65, 129), sc="conv", t="c"),
            "functions": FN["compo"]}


def plan_p04(th, seed):
    return {"cases": far("p04", ("dn", "neu", "dir", "cheb", "r2c", "c2c"), 520, sc="conv", t="r", S=1) + one_d("p04", ALL, 48 if not th else 66, BIG + LARGE + ((200, 257) if not th else HUGE), SGL, sc="conv", t="r", S=1) + one_d("p04", CHEB, 24, (33, 65), sc="conv", t="c", S=1),
            "functions": FN["compo"]}


def plan_p06(th, seed):
    d = "0,1,2,3,4,5,6"
    return {"cases": far("p06", ALL, 520, sc="grad", t="r", S=1, d=d) + far("p06", ("r2c", "c2c"), 1030, sc="grad", t="r", S=1, d=d) + one_d("p06", ALL, 48 if not th else 66, BIG + LARGE + ((200, 256, 257) if not th else HUGE), SGL, sc="grad", t="r", S=1, d=d) + one_d("p06", CHEB, 20, (33, 65, 129), sc="grad", t="c", S=1, d=d)
            + one_d("p06", ALL, 14, (), sc="grad", t="r", S=1, d="7,8,9,10,11,12,13")
            + one_d("p06", ALL, 9, (10, 11), sc="grad", t="r", S=1, d="14,15,16,17,18,20,24,31,32,33,48,63,64,65"),
            "functions": FN["compo"]}


def plan_p07(th, seed):
    return {"cases": far("p07", ("cheb", "c2c", "r2c", "neu"), 520, sc="mats", what="D1,D2,D3,D4,L") + far("p07", ("r2c",), 1030, sc="mats", what="D1,D2,D3,L") + one_d("p07", CHEB, 48 if not th else 66, BIG + LARGE + ((200, 256) if not th else HUGE), SGL, sc="mats", what="D1,D2,D3,D4,L") + one_d("p07", ["r2c", "c2c"], 33 if not th else 66, BIG + LARGE + ((200, 256) if not th else HUGE), SGL, sc="mats", what="D1,D2,D3,D4,D5,D6,D7,D8,L")
            + one_d("p07", ["r2c", "c2c"], 9, (10, 11), sc="mats", what="D9,D10,D11,D12,D13,D15,D16,D17,D31,D32,D33"),
            "functions": FN["mats"]}


def plan_p08(th, seed):
    out = far("p08", ("cheb",) + (("neu", "ba") if th else ()), 520, sc="mats", what="P3,D3") + far("p08", ("cheb",), 520, sc="mats", what="P4,D4") + far("p08", ("r2c", "c2c"), 520, sc="mats", what="P1,D1,P2,D2,Q,L")
    for d in (1, 2, 3, 4):
        for c in one_d("p08", CHEB, 48 if not th else 66, BIG + LARGE + ((200, 257) if not th else HUGE), SGL, sc="mats", what="P%d,D%d" % (d, d) + (",Q,L" if d == 2 else "")):
            if int(c["kv"]["n"]) >= d + 1:
                out.append(c)
    out += one_d("p08", ["r2c", "c2c"], 48 if not th else 66, BIG + LARGE + ((200, 256) if not th else HUGE), SGL, sc="mats", what="P1,D1,P2,D2,P3,D3,P4,D4,P5,D5,P6,D6,Q,L")
    out += one_d("p08", ["r2c", "c2c"], 9, (10, 11), sc="mats", what="P7,D7,P8,D8,P9,D9,P10,D10,P13,D13,P16,D16,P17,D17")
    return {"cases": out, "functions": FN["mats"]}


def plan_p15(th, seed):
    return {"cases": one_d("p15", ALL, 100, list(range(101, 521)) + [600, 767, 768, 769, 1000, 1023, 1024, 1025] + ([1536, 2047, 2048, 2049, 4097] if th else []), sc="meta"), "functions": FN["meta"]}


# ------------------------------------------------------------------ arrays
def nd_cases(claims, ops, th, var, **kw):
    """every base and operation on arrays of rank 1 to 5 along every axis, with unequal and uneven extents"""
    out = []
    rnd = random.Random(11)
    ext = {1: [()], 2: [(3,), (1,)], 3: [(2, 3), (3, 1)], 4: [(2, 1, 3)], 5: [(2, 1, 2, 1)], 6: [(1, 2, 1, 2, 1)]}
    for kind in ALL:
        lo = S.MIN[kind]
        for ti, t in enumerate(("r", "c") if kind in CHEB else ("r",)):
            for op in ops:
                if t == "c" and op in ("fwd", "bwd"):
                    continue
                for dim in (1, 2, 3, 4, 5, 6):
                    ns = [lo, lo + 1, lo + 2, lo + 5] if dim <= 3 else [lo + rnd.randrange(4)]
                    if th and dim <= 3:
                        ns = list(range(lo, lo + 9)) + [17, 24]
                    for n in ns if dim > 1 else ns[:2]:
                        for e in ext[dim][:1] if (dim > 3 or n != ns[1]) and not th else ext[dim]:
                            for axis in range(dim):
                                sh = list(e[:axis]) + [n] + list(e[axis:])
                                out.append(case(claims, sc="nd", kind=kind, n=n, t=t, op=op, dim="%d" % dim if dim < 5 else "dyn", axis=axis,
                                                shape=",".join(map(str, sh)), var=var, _eq=True, **kw))
    return out


def big_nd(claims, ops, var, **kw):
    """a few larger arrays: enough lanes that a split by number of elements or lanes shows"""
    out = []
    for kind, n in (("cheb", 17), ("dir", 12), ("ba", 14), ("r2c", 16), ("r2c", 15), ("c2c", 12)):
        for op in ops:
            for sh, axis in (((n, 37), 0), ((37, n), 1), ((5, n, 9), 1)):
                out.append(case(claims, sc="nd", kind=kind, n=n, op=op, dim=len(sh), axis=axis, shape=",".join(map(str, sh)), var=var, _eq=True, **kw))
    for kind, n in (("cheb", 5), ("dir", 6), ("dn", 7), ("bb", 10), ("r2c", 6), ("c2c", 4)):
        for op in ops:
            for sh, axis in (((n, 260), 0), ((150, n), 1), ((11, 13, n), 2)):
                out.append(case(claims, sc="nd", kind=kind, n=n, op=op, dim=len(sh), axis=axis, shape=",".join(map(str, sh)), var=var, _eq=True, **kw))
    for kind in ALL:
        for n in (32, 48, 65, 100, 128):
            for op in ops:
                for sh, axis in (((2, n), 1), ((n, 2), 0)) + ((((1, 2, n, 1), 2), ((2, 1, 1, n), 3), ((n, 1, 2, 1), 0)) if n in (32, 65) else ()):
                    out.append(case(claims, sc="nd", kind=kind, n=n, op=op, dim=len(sh), axis=axis, shape=",".join(map(str, sh)), var=var, _eq=True, **kw))
    # more than a thousand lanes, more than four thousand and sixty-five thousand elements
    for kind, n in (("cheb", 4), ("dir", 5), ("neu", 6), ("r2c", 4), ("c2c", 4)):
        for op in ops:
            for sh, axis in (((n, 1100), 0), ((1100, n), 1)):
                out.append(case(claims, sc="nd", kind=kind, n=n, op=op, dim=len(sh), axis=axis, shape=",".join(map(str, sh)), var=var, _eq=True, **kw))
    for kind, n, op in (("cheb", 3, "fwd"), ("cheb", 3, "to"), ("r2c", 3, "g1"), ("c2c", 2, "bwd")):
        if op in ops:
            for sh, axis in (((n, 22000), 0), ((22000, n), 1), ((2, n, 11000), 1)):
                out.append(case(claims, sc="nd", kind=kind, n=n, op=op, dim=len(sh), axis=axis, shape=",".join(map(str, sh)), var=var, _eq=True, **kw))
    for sh, axis in (((33, 70), 0), ((70, 33), 1)):
        out.append(case(claims, sc="nd", kind="cheb", n=33, op="fwd", dim=2, axis=axis, shape=",".join(map(str, sh)), var=var, _eq=True, **kw))
    return out


def layout_cases(claims, ops, th, **kw):
    """views into larger arrays, other memory layouts, arrays without any lane"""
    v = "alloc,vin,vpar,vinpl,vparin,fin,fpar,sin,rin,finpl,fparin"
    out = []
    for kind in ALL:
        n = S.MIN[kind] + (3 if S.MIN[kind] < 5 else 1)
        for op in ops:
            for e in [(), (2,), (2, 3), (3, 1, 2)] if th else [(), (2,), (2, 3)]:
                for axis in range(len(e) + 1):
                    sh = list(e[:axis]) + [n] + list(e[axis:])
                    out.append(case(claims, sc="nd", kind=kind, n=n, op=op, dim=len(sh), axis=axis, shape=",".join(map(str, sh)), var=v, _eq=True, **kw))
            for sh, axis in (((0, n), 1), ((n, 0), 0), ((2, n, 0), 1)):
                out.append(case(claims, sc="nd", kind=kind, n=n, op=op, dim=len(sh), axis=axis, shape=",".join(map(str, sh)), var="alloc,par,inpl,parin", _eq=True, **kw))
    return out


OPS = ["fwd", "bwd", "to", "from", "g0", "g1", "g2", "g3"]


def plan_p09(th, seed):
    return {"cases": big_nd("same", OPS, "alloc") + nd_cases("same", OPS, th, "alloc") + layout_cases("same", OPS, th), "functions": FN["arrays"]}


def scheds(cs, th):
    """the same cases under several schedules"""
    out = []
    for i, c in enumerate(cs):
        for s, nt in ((("rev", 4), ("seq", 3), ("rev", 1), ("i:", 2)) if th else ((("rev", 4), ("seq", 3))[i % 2],)):
            out.append(dict(c, kv=dict(c["kv"], sched=s, nt=str(nt)), native="s"))
    return out


def plan_p10(th, seed):
    v = "alloc,par,inpl,parin"
    cs = big_nd("par", OPS, v) + nd_cases("par", OPS, th, v)
    cs += space_cases("par", ["fwd", "bwd", "to", "from"], v, th) + [c for c in grad_cases("par", "alloc,par", th)]
    cs = scheds(cs, th)
    # one preemption at every step of small instances
    pre = []
    for kind, n in (("cheb", 3), ("dir", 5), ("neu", 6), ("dn", 6), ("ba", 10), ("bb", 10), ("r2c", 4), ("c2c", 3)):
        for op in ("fwd", "bwd", "to", "from", "g1", "g2"):
            for axis in (0, 1):
                sh = [3, 3]
                sh[axis] = n
                pre.append(case("par", sc="nd", kind=kind, n=n, op=op, dim=2, axis=axis, shape=",".join(map(str, sh)), var="par,parin,alloc,inpl",
                                _eq=True, _func="func_sched", _native="s"))
    for kinds, sizes in (("cheb,dir", "3,5"), ("r2c,cheb", "4,3"), ("c2c,r2c", "3,4"), ("c2c,c2c", "2,3"), ("cheb,cheb,cheb", "2,2,3"), ("c2c,r2c,cheb", "2,3,3")):
        for op in ("fwd", "bwd", "to", "from"):
            pre.append(case("par", sc="space", kinds=kinds, sizes=sizes, op=op, var="par,parin,alloc,inpl", _eq=True, _func="func_sched", _native="s"))
    return {"cases": pre + cs, "functions": FN["arrays"] + FN["space"]}


def plan_p11(th, seed):
    v = "alloc,par,inpl,parin,slice2"
    cs = nd_cases("inplace", OPS + ["g4"], th, v) + big_nd("inplace", ["fwd", "from", "g2"], v)
    cs += space_cases("inplace", ["fwd", "bwd", "to", "from"], "alloc,par,inpl,parin", th)
    return {"cases": cs, "functions": FN["arrays"] + FN["space"]}


# ------------------------------------------------------------------ spaces
def combos(th, two=None):
    """combinations of bases with unequal sizes"""
    rnd = random.Random(5)
    size = lambda k, i: S.MIN[k] + (1, 2, 4)[i] + rnd.randrange(2) if k not in ("r2c", "c2c", "cheb") else (4, 5, 3)[i] + rnd.randrange(4)
    out = []
    for k in ALL:
        out.append((k,))
    for a in CHEB:
        for b in CHEB:
            if a != b or a == "cheb" or th:
                out.append((a, b))
    for b in CHEB:
        out.append(("r2c", b))
    out += [("c2c", "r2c")] * 3 + [("c2c", "c2c")] * 3
    tri = [("cheb", "dir", "neu"), ("dn", "cheb", "dir"), ("neu", "dn", "cheb"), ("cheb", "cheb", "cheb"), ("ba", "cheb", "cheb"), ("cheb", "bb", "dir")]
    if th:
        tri += [(a, b, c) for a in ("cheb", "dir", "neu") for b in ("cheb", "dn", "dir") for c in ("cheb", "neu", "dir")]
    out += tri
    out += [("r2c", "cheb", "dir"), ("r2c", "neu", "cheb"), ("r2c", "dn", "dir"), ("c2c", "r2c", "cheb"), ("c2c", "r2c", "dir"), ("c2c", "r2c", "neu"),
            ("c2c", "c2c", "r2c"), ("c2c", "c2c", "r2c"), ("c2c", "c2c", "c2c"), ("c2c", "c2c", "c2c")]
    res = []
    for ks in out:
        for rep in range(2 if th else 1):
            res.append((",".join(ks), ",".join(str(size(k, i)) for i, k in enumerate(ks)), all(k in CHEB for k in ks) and len(ks) < 3))
    # equal sizes, so that exchanged axes fit; axes of minimal size; a few bigger ones
    for ks in sorted(set(out)):
        if len(ks) > 1:
            n = max(S.MIN[k] for k in ks) + (1 if len(ks) < 3 else 0)
            res.append((",".join(ks), ",".join(str(max(n, 4)) for k in ks), False))
    for ks in sorted(set(out)):
        if len(ks) > 1 and ("r2c" in ks or "c2c" in ks or "cheb" in ks):
            res.append((",".join(ks), ",".join(str(S.MIN[k]) for k in ks), False))
    for ks, ns in ((("cheb", "cheb"), (17, 16)), (("dir", "neu"), (16, 19)), (("r2c", "dir"), (16, 18)), (("r2c", "cheb"), (21, 9)), (("c2c", "r2c"), (12, 20)), (("c2c", "c2c"), (9, 16)),
                   (("dir", "cheb"), (48, 33)), (("r2c", "dn"), (64, 40)), (("c2c", "r2c"), (36, 64)), (("cheb", "cheb", "cheb"), (17, 16, 18)),
                   (("cheb", "dir", "neu"), (9, 8, 9)), (("c2c", "r2c", "dir"), (6, 8, 9)), (("r2c", "neu", "dn"), (8, 7, 9))):
        res.append((",".join(ks), ",".join(map(str, ns)), False))
    return res


SPACES_SMALL = (("cheb,dir", "4,6"), ("r2c,neu", "5,7"), ("c2c,r2c", "3,4"), ("c2c,c2c", "4,3"), ("c2c,r2c,dn", "3,4,7"), ("cheb,neu,dir", "3,6,5"))


def space_cases(claims, ops, var, th):
    out = []
    for kinds, sizes, real in combos(th):
        for op in ops:
            out.append(case(claims, sc="space", kinds=kinds, sizes=sizes, op=op, var=var, _eq=True))
            if real and op in ("to", "from"):
                out.append(case(claims, sc="space", kinds=kinds, sizes=sizes, op=op, var=var, t="c", _eq=True))
    return out


def plan_p12(th, seed):
    v = "alloc,inpl,par,parin"
    cs = space_cases("same", ["fwd", "bwd", "to", "from"], v, th)
    for kinds, sizes in SPACES_SMALL:
        for op in ("fwd", "bwd", "to", "from"):
            for var in v.split(","):
                for li, lo in LAYS:
                    cs.append(case("same", sc="space", kinds=kinds, sizes=sizes, op=op, var=var, li=li, lo=lo, _eq=True, _mayrefuse=True))
    for kinds, sizes, real in combos(th):
        # the pseudo-inverse of the Laplacian needs three points
        if all(k in ("r2c", "c2c") or int(n) > 2 for k, n in zip(kinds.split(","), sizes.split(","))):
            cs.append(case("spacemeta", sc="space", kinds=kinds, sizes=sizes, op="meta"))
        n = 1
        for x in sizes.split(","):
            n *= int(x)
        if n <= 400:
            cs.append(case("roundtrip", sc="space", kinds=kinds, sizes=sizes, op="rt"))
    return {"cases": sort_by(cs, weight), "functions": FN["space"]}


def weight(c):
    n = 1
    for x in c["kv"].get("sizes", "1").split(","):
        n *= int(x)
    return n * (20 if c["kv"].get("op") == "rt" else 3 if c["kv"].get("scale") == "sym" else 1)


def orders(N, th):
    if N == 1:
        return [(0,), (1,), (2,), (3,), (4,)]
    if N == 2:
        return [(2, 2), (3, 3), (3, 0), (4, 4), (0, 3), (3, 2), (0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (1, 2), (2, 1), (3, 1), (2, 4), (5, 0), (0, 5), (4, 1), (0, 4), (6, 3), (1, 6)] + ([(a, b) for a in range(5) for b in range(5)] if th else [])
    return [(2, 2, 2), (2, 0, 0), (0, 2, 0), (0, 0, 2), (0, 1, 1), (1, 0, 1), (1, 1, 0), (0, 0, 3), (3, 0, 0), (0, 3, 0), (3, 3, 3), (0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (1, 2, 3), (2, 0, 1), (0, 3, 2), (2, 2, 0), (4, 0, 1), (0, 4, 0), (1, 0, 4), (5, 0, 0), (0, 5, 1), (0, 0, 5), (6, 1, 0), (0, 1, 6)] + (
        [(a, b, c) for a in range(3) for b in range(3) for c in range(3)] if th else [])


def grad_cases(claims, var, th, scales=("none",)):
    out = []
    for i, (kinds, sizes, real) in enumerate(combos(th)):
        N = len(kinds.split(","))
        ds = orders(N, th)
        if not th:
            # every combination gets some of the orders, all orders occur with every class of combination
            ds = [ds[(i + 3 * j) % len(ds)] for j in range(12 if N == 2 else 14)] if N > 1 else ds
        for j, d in enumerate(ds):
            for sc in scales:
                if sc != "none" and math.prod(map(int, sizes.split(","))) > 700:
                    continue
                if sc == "num":
                    sc = ",".join(["2", "-0.5", "3", "0.7", "-1.25"][(i + j + k) % 5] for k in range(N))
                elif sc == "far":
                    # far from one, one, minus one, equal values
                    sc = ",".join((("1e5", "1e-4", "1e-5"), ("1", "1e-6", "-1"), ("1e-4", "1", "1e8"), ("-1e-3", "-1e-3", "-1e-3"), ("1", "1", "1"), ("-1", "-1", "-1"), ("1e6", "1e-6", "1"),
                                   ("2", "2", "2"), ("1e-4", "1e-4", "1e-4"), ("7", "-1", "1e6"))[(i + 7 * j) % 10][:N])
                t = "c" if real and j % 2 else None
                c = case(claims, sc="space", kinds=kinds, sizes=sizes, op="grad", d=",".join(map(str, d)), var=var, t=t, scale=sc if sc != "none" else None)
                if sc == "none":
                    c["eq"] = True
                if sc == "sym":
                    ks = kinds.split(",")
                    nx = 1 if all(k in CHEB for k in ks) and t != "c" else 2
                    for k, z in zip(ks, sizes.split(",")):
                        nx *= S.len_spec(k, int(z))
                    c["ranges"] = {nx + k: (0.5, 2.0) for k in range(N)}
                out.append(c)
    return out


def plan_p13(th, seed):
    cs = grad_cases("scaled", "alloc,par", th, ("none", "sym", "num", "far"))
    return {"cases": sort_by(cs, weight), "functions": FN["space"]}


# ------------------------------------------------------------------ histories
def plan_p14(th, seed):
    rnd = random.Random(3)
    cs = []
    ops = ["fwd", "bwd", "to", "from", "g0", "g1", "g2", "g3", "g4", "g6", "mats", "pfwd", "pbwd", "pto", "pfrom", "pg1", "pg2", "bad",
           "Afwd", "Abwd", "Ato", "Afrom", "Ag1", "Ag2", "Bfwd", "Bbwd", "Bto", "Bfrom", "Bg1", "Bg3"]
    for kind in ALL:
        lo = max(S.MIN[kind], 3)
        for n in [lo, lo + 1, lo + 4, 17] + ([lo + 2, 24, 32] if th else []):
            cops = ops + (["Cto", "Cfrom", "Cg1", "Cg2", "Cg3"] if kind in CHEB else [])
            base = cops + ["clone"] + cops[::-1]
            cs.append(case("hist", sc="hist", kind=kind, n=n, seq=",".join(base), _eq=True))
            for rep in range(12 if th else 5):
                seq, objs = [], 1
                for _ in range(18):
                    if rnd.random() < 0.15:
                        seq.append("clone")
                        objs += 1
                    else:
                        o = rnd.choice(cops)
                        seq.append(o if rnd.random() < 0.5 else "%s@%d" % (o, rnd.randrange(objs)))
                cs.append(case("hist", sc="hist", kind=kind, n=n, seq=",".join(seq), _eq=True))
        # one long history, one of many repetitions of a single call
        n = lo + 2
        cs.append(case("hist", sc="hist", kind=kind, n=n, seq=",".join(rnd.choice(ops) for _ in range(60 if not th else 150)), _eq=True))
        for o in ("fwd", "bwd", "to", "from", "g1", "g2", "g3"):
            cs.append(case("hist", sc="hist", kind=kind, n=n, seq=",".join([o] * 35 + ["p" + o, o]), _eq=True))
            cs.append(case("hist", sc="hist", kind=kind, n=lo, seq=",".join([o] * (600 if not th else 2200)), _eq=True, _timeout=300))
    # other bases, of the same and of neighbouring sizes, are used before: judged by the specification
    for kind in ALL:
        for n in (S.MIN[kind] + 1, 12) if not th else (S.MIN[kind] + 1, 12, 13, 17, 20):
            others = [(k, m) for k in ALL for m in (n, n + 1, n - 1) if (k, m) != (kind, n) and m >= max(3, S.MIN[k])]
            rnd.shuffle(others)
            w = ",".join("%s:%d" % o for o in others)
            cs.append(case("p02" if kind in ORTH else "p05", sc="tr", kind=kind, n=n, warm=w, S=None if kind in ORTH else 1))
            cs.append(case("p04", sc="conv", kind=kind, n=n, warm=w, t="r", S=1))
            cs.append(case("p06", sc="grad", kind=kind, n=n, warm=w, t="r", S=1, d="0,1,2,3"))
            cs.append(case("p07", sc="mats", kind=kind, n=n, warm=w, what="D1,D2,L"))
            cs.append(case("p15", sc="meta", kind=kind, n=n, warm=w))
    sops = ["fwd", "bwd", "to", "from", "g1", "g2", "pfwd", "pbwd", "mats", "pto", "pfrom", "pg1", "pg2", "g4", "g0", "bad", "h1", "k1", "h2", "k2", "g3"]
    for kinds, sizes in (("cheb,dir", "4,6"), ("neu,dn", "7,8"), ("r2c,cheb", "5,4"), ("r2c,ba", "4,11"), ("c2c,r2c", "3,5"), ("c2c,c2c", "4,3"),
                         ("c2c,r2c,dir", "3,4,6"), ("cheb,dir,neu", "3,5,6"), ("cheb,cheb", "5,5")):
        cs.append(case("hist", sc="histspace", kinds=kinds, sizes=sizes, seq=",".join(sops + ["clone"] + sops[::-1]), _eq=True))
        for rep in range(12 if th else 5):
            seq = [rnd.choice(sops) for _ in range(10)]
            seq.insert(4, "clone")
            cs.append(case("hist", sc="histspace", kinds=kinds, sizes=sizes, seq=",".join(seq), _eq=True))
        for o in ("fwd", "bwd", "to", "from", "g1", "pfwd"):
            cs.append(case("hist", sc="histspace", kinds=kinds, sizes=sizes, seq=",".join([o] * (70 if not th else 300)), _eq=True, _timeout=300))
    pre = []
    for kind in ALL:
        n = S.MIN[kind] + (0 if S.MIN[kind] > 4 else 3)
        for seq in ("fwd,fwd", "fwd,bwd", "g1,g2", "to,from", "fwd,bwd,fwd", "from,from,g1", "pfwd,bwd", "g2,g2", "Afwd,Bbwd", "Ag1,g2", "Bto,from"):
            pre.append(case("hist", sc="hist", kind=kind, n=n, seq=seq, how="threads", _eq=True, _func="func_sched", _native="s"))
    for kinds, sizes in (("cheb,dir", "3,5"), ("r2c,cheb", "4,3"), ("c2c,r2c", "3,4"), ("c2c,c2c", "3,2")):
        for seq in ("fwd,fwd", "fwd,bwd", "g1,to", "pfwd,pbwd"):
            pre.append(case("hist", sc="histspace", kinds=kinds, sizes=sizes, seq=seq, how="threads", _eq=True, _func="func_sched", _native="s"))
    for i, (kinds, sizes) in enumerate(MPI_SPACES):
        for p in (2, 3) if not th else (1, 2, 3, 4):
            for seq in ("fwd,bwd,fwd,bwd,to,from,to,fwd", "move,fwd,grad,move,grad,bwd,move", "grad,fwd,from,grad,from,bwd,grad,bwd"):
                cs.append(case("mpi", sc="mpi", kinds=kinds, sizes=sizes, p=p, op=seq, d="1,2", scale=("2,0.5", None)[i % 2], _eq=True))
    return {"cases": pre + cs, "functions": FN["arrays"] + FN["space"] + FN["dist"][-1:]}


# ------------------------------------------------------------------ distributed arrays
def shapes_for(p, th):
    out = [(p, p), (p + 1, p), (p, p + 1), (2 * p + 1, p + 2), (p + 2, 3 * p - 1)]
    if th:
        out += [(2 * p, 2 * p), (3 * p + 1, 2 * p - 1 if p > 1 else 2), (p, 4 * p + 3), (5 * p - 1, p)]
    return [(max(a, 1), max(b, 1)) for a, b in out]


def plan_p17(th, seed):
    cs = small_dec("split", th) + dec_layouts("split", th)
    for p in range(1, 9 if not th else 17):
        for s in shapes_for(p, True):
            cs.append(case("dec", sc="dec", shape="%d,%d" % s, p=p, op="split", _eq=True, _tables=True))
    for p in range(1, 13 if not th else 33):
        for a in range(p, 28 if not th else 70):
            cs.append(case("table", sc="table", shape="%d,%d" % (a, max(p, 40 - a)), p=p))
    for p in (1, 2, 3, 7, 8, 13, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100):
        for a in (p, p + 1, 2 * p - 1, 2 * p, 2 * p + 1, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1024, 4095, 4097, 65535, 65537, 100003):
            if a >= p:
                cs.append(case("table", sc="table", shape="%d,%d" % (a, p + a % 7), p=p))
                cs.append(case("table", sc="table", shape="%d,%d" % (p + a % 5, a), p=p))
    return {"cases": cs, "functions": FN["dist"]}


LAYS = (("f", "f"), ("c", "f"), ("f", "c"), ("w", "w"), ("s", "s"), ("r", "r"), ("s", "f"))


def dec_layouts(op, th):
    """arguments in other memory layouts: the same result or a refusal"""
    out = []
    for li, lo in LAYS:
        for p, sh in ((1, (3, 4)), (2, (3, 4)), (2, (4, 4)), (3, (5, 7))) + (((4, (9, 6)),) if th else ()):
            for t in "rc":
                out.append(case("dec", sc="dec", shape="%d,%d" % sh, p=p, t=t, op=op, li=li, lo=lo, _eq=True, _mayrefuse=True))
    return out


def mpi_layouts(op, th, ns=4, **kw):
    return [case("mpi", sc="mpi", kinds=kinds, sizes=sizes, p=p, op=op, li=li, lo=lo, _eq=True, _mayrefuse=True, **kw)
            for kinds, sizes in MPI_SPACES[:ns] for p in (1, 2, 3) for li, lo in LAYS]


def large_dec(op, th):
    """more processes and larger arrays"""
    return [case("dec", sc="dec", shape="%d,%d" % sh, p=p, t=t, op=op, _eq=True)
            for p, sh, t in ((2, (65, 64), "c"), (3, (100, 33), "r"), (4, (64, 64), "r"), (4, (63, 66), "c"), (5, (257, 6), "r"), (3, (4, 300), "r"), (2, (130, 129), "r"), (1, (70, 70), "r"),
                             (11, (12, 23), "r"), (12, (12, 12), "c"), (12, (25, 13), "r"), (13, (14, 27), "r"), (16, (16, 17), "c"), (16, (33, 31), "r"))]


def small_dec(op, th):
    """every small shape"""
    return [case("dec", sc="dec", shape="%d,%d" % (a, b), p=p, t="rc"[(a + b) % 2], op=op, _eq=True)
            for p in range(1, 5 if not th else 7) for a in range(p, p + (8 if not th else 12)) for b in range(p, p + (8 if not th else 12))]


def plan_p18(th, seed):
    cs = small_dec("tr,counts", th) + dec_layouts("tr", th) + mpi_layouts("move", th, 2)
    for p in range(1, 10 if not th else 17):
        for s in shapes_for(p, True):
            for t in "rc":
                cs.append(case("dec", sc="dec", shape="%d,%d" % s, p=p, t=t, op="tr,counts", _eq=True))
    cs += [case("dec", sc="dec", shape="23,31", p=p, t="r", op="tr,counts", _eq=True) for p in (3, 4, 7, 8)]
    cs += large_dec("tr,counts", th)
    for kinds, sizes in MPI_SPACES[:4]:
        for p in (1, 2, 3):
            cs.append(case("mpi", sc="mpi", kinds=kinds, sizes=sizes, p=p, op="move", _eq=True))
    return {"cases": cs, "functions": FN["dist"]}


MPI_SPACES = [("cheb,dir", "7,9"), ("r2c,neu", "8,8"), ("c2c,r2c", "5,9"), ("c2c,c2c", "6,5"),
              ("dn,cheb", "9,6"), ("dir,neu", "8,7"), ("r2c,cheb", "9,5"), ("r2c,dn", "10,8"), ("c2c,r2c", "4,8"), ("cheb,cheb", "6,6"), ("ba,cheb", "11,5"), ("r2c,bb", "7,12")]
# larger ones, with extents that do and do not divide by the number of processes
MPI_MORE = [("cheb,cheb", "12,13"), ("cheb,dn", "15,14"), ("neu,ba", "13,16"), ("bb,dir", "14,12"), ("r2c,dir", "16,15"), ("r2c,ba", "21,13"), ("c2c,r2c", "11,20"), ("c2c,r2c", "8,17"),
            ("c2c,c2c", "10,9"), ("dir,cheb", "5,17"), ("cheb,cheb", "19,6"), ("c2c,c2c", "4,11")]


def plan_p19(th, seed):
    cs = small_dec("gather,scatter,allgather,counts", th) + dec_layouts("gather", th) + dec_layouts("scatter", th) + dec_layouts("allgather", th) + mpi_layouts("move", th, 4)
    for p in range(1, 10 if not th else 17):
        for s in shapes_for(p, True):
            for t in "rc":
                cs.append(case("dec", sc="dec", shape="%d,%d" % s, p=p, t=t, op="gather,scatter,allgather,counts", _eq=True))
    cs += large_dec("gather,scatter,allgather,counts", th)
    for t in "rc":
        for p in list(range(1, 13)) + [16]:
            cs.append(case("reduce", sc="reduce", p=p, t=t))
    for kinds, sizes in MPI_SPACES[:6]:
        for p in (1, 2, 3, 4):
            cs.append(case("mpi", sc="mpi", kinds=kinds, sizes=sizes, p=p, op="move", _eq=True))
    return {"cases": cs, "functions": FN["dist"]}


def plan_p20(th, seed):
    cs = []
    for op in ("fwd", "bwd", "to", "from", "grad"):
        cs += mpi_layouts(op, th, d="1,2")
    for i, (kinds, sizes) in enumerate(MPI_SPACES + MPI_MORE):
        ks = kinds.split(",")
        ns = [int(x) for x in sizes.split(",")]
        small = min(min(n, S.len_spec(k, n)) for k, n in zip(ks, ns))
        for p in range(1, min(small, 7 if not th else 10) + 1):
            cs.append(case("mpi", sc="mpi", kinds=kinds, sizes=sizes, p=p, op="fwd,bwd,to,from,shapes", _eq=True, _tables=True))
            cs.append(case("mpi", sc="mpi", kinds=kinds, sizes=sizes, p=p, op="serial", d="1,2", scale="2,0.5", _eq=True))
            ds = [(0, 0), (1, 0), (0, 1), (2, 1), (1, 3), (2, 2), (0, 2), (4, 0), (3, 3)]
            for j, d in enumerate(ds if th or p < 4 else [ds[(i + p + q) % 9] for q in (0, 1, 3, 6)]):
                cs.append(case("mpi", sc="mpi", kinds=kinds, sizes=sizes, p=p, op="grad", d="%d,%d" % d, _eq=True))
                cs.append(case("mpi", sc="mpi", kinds=kinds, sizes=sizes, p=p, op="grad", d="%d,%d" % d, scale=("2,-0.5", "0.7,3", "1,1e-3", "-1,1", "1e-2,1e-2")[(j + i + p) % 5], _eq=True))
    # every combination of bases
    allk = [(a, b) for a in CHEB for b in CHEB] + [("r2c", b) for b in CHEB] + [("c2c", "r2c"), ("c2c", "c2c")]
    for i, (a, b) in enumerate(allk):
        n0, n1 = max(S.MIN[a] + i % 3, 5), max(S.MIN[b] + (i + 1) % 4, 5)
        m = min(S.len_spec(a, n0), S.len_spec(b, n1), 4)
        for p in sorted({min(2, m), min(3, m)}):
            kw = dict(sc="mpi", kinds="%s,%s" % (a, b), sizes="%d,%d" % (n0, n1), p=p, _eq=True)
            cs.append(case("mpi", op="fwd,bwd,to,from,shapes", _tables=True, **kw))
            cs.append(case("mpi", op="grad", d="%d,%d" % (i % 4, (i + p) % 3), scale="0.5,3", **kw))
    for kinds, sizes, ps in (("r2c,cheb", "64,33", (2, 4, 5)), ("c2c,r2c", "33,64", (3, 4)), ("cheb,cheb", "17,18", (8, 9, 10)), ("c2c,c2c", "32,31", (3,)), ("dir,neu", "34,30", (4,)), ("r2c,dn", "20,19", (7, 8))):
        for p in ps:
            cs.append(case("mpi", sc="mpi", kinds=kinds, sizes=sizes, p=p, op="fwd,bwd,to,from,shapes", _eq=True, _tables=True))
            for d in ((1, 1), (2, 0)):
                cs.append(case("mpi", sc="mpi", kinds=kinds, sizes=sizes, p=p, op="grad", d="%d,%d" % d, scale="2,-0.5", _eq=True))
    return {"cases": cs, "functions": FN["dist"] + FN["space"]}


# ------------------------------------------------------------------ helpers, limits
def plan_p21(th, seed):
    cs = []
    for op in ("approx_eq", "approx_eq_complex", "approx_eq_ndarray", "approx_eq_complex_ndarray"):
        cplx = "complex" in op
        shapes = [str(i) for i in (range(10) if not th or cplx else range(25))] + (["17", "33", "65", "100"] if not cplx else [])
        if "ndarray" in op:
            shapes += ["1,2", "2,1", "1,2,1", "2,2"] + (["3,4", "2,3,2"] if not cplx else ["2,3"])
        for sh in shapes:
            cs.append(case("none", sc="util", op=op, shape=sh, _func="func_util", _paths=600))
            cs.append(case("none", sc="util", op=op, shape=sh, _func="func_util", _paths=600, _single=True))
        if "ndarray" in op:
            for li, lo in LAYS + (("c", "w"), ("r", "c"), ("c", "s")):
                for sh in ("2,3",) + (("2,2,2", "1,3,2") if not cplx else ("1,1,2",)):
                    cs.append(case("none", sc="util", op=op, shape=sh, li=li, lo=lo, _func="func_util", _paths=600))
    return {"cases": cs, "functions": ["utils::approx_eq", "utils::approx_eq_complex", "utils::approx_eq_ndarray", "utils::approx_eq_complex_ndarray"]}


def io_len(kind, n, op):
    """lengths (in, out) along the axis"""
    m, o = S.len_spec(kind, n), S.len_orth(kind, n)
    return {"fwd": (n, m), "bwd": (m, n), "to": (m, o), "from": (o, m)}.get(op, (m, o))


def plan_p16(th, seed):
    cs = []
    L = lambda must, claims="none", **kv: cs.append(case(claims, _func="func_limits", _must=must, **kv))
    ops = ["fwd", "bwd", "to", "from", "g0", "g1", "g2", "g3"]
    for kind in ALL:
        lo = S.MIN[kind]
        # slices of any length
        for n in ([lo, lo + 1, lo + 2, lo + 3, lo + 4, 16, 17] if not th else list(range(lo, lo + 10)) + [16, 17, 24, 33]):
            for op in ops:
                a, b = io_len(kind, n, op)
                w = 3 if not th else 5
                ins = sorted({x for x in list(range(max(a - w, 0), a + w + 1)) + [0, 1, 2, a // 2, 2 * a, 3 * a] if x >= 0})
                outs = sorted({x for x in list(range(max(b - w, 0), b + w + 1)) + [0, 1, 2, b // 2, 2 * b, 3 * b] if x >= 0})
                for x in ins:
                    for y in outs:
                        # all pairs near the right lengths, and each wrong length alone
                        if (abs(x - a) <= 2 and abs(y - b) <= 2) or x == a or y == b or th or (x < 3 and y < 3):
                            L("run" if (x, y) == (a, b) else "any", "guard", sc="slices", kind=kind, n=n, op=op, li=x, lo=y)
                            if kind in CHEB and op not in ("fwd", "bwd") and (abs(x - a) + abs(y - b) <= 2):
                                L("run" if (x, y) == (a, b) else "any", "guard", sc="slices", kind=kind, n=n, op=op, li=x, lo=y, t="c")
        # sizes below the supported ones: no memory error
        for n in range(0, lo):
            for sc, kv in (("tr", {}), ("conv", {"t": "r"}), ("grad", {"t": "r", "d": "0,1,2,3"}), ("meta", {}),
                           ("mats", {"what": "D1"}), ("mats", {"what": "P1"}), ("mats", {"what": "P2"}), ("mats", {"what": "S"}), ("mats", {"what": "I"}), ("mats", {"what": "L,Q"})):
                L("any", sc=sc, kind=kind, n=n, **kv)
        # supported sizes never panic
        for n in list(range(lo, 41 if not th else 70)) + [64, 65, 100, 128, 129, 255, 256, 257, 300]:
            w = ["D%d" % d for d in range(1, 5)] + ["P%d" % d for d in range(1, 5) if n > d or kind in ("r2c", "c2c")] + ["S", "I", "L"] + (["Q"] if n > 2 or kind in ("r2c", "c2c") else [])
            for sc, kv in (("tr", {}), ("conv", {"t": "r"}), ("conv", {"t": "c"}), ("grad", {"t": "r", "d": "0,1,2,3,4,5,6"}), ("grad", {"t": "c", "d": "0,1,2,3,4,5,6"}), ("meta", {"arrays": 1}),
                           ("mats", {"what": ",".join(w)})):
                if kv.get("t") == "c" and kind in ("r2c", "c2c"):
                    continue
                L("run", sc=sc, kind=kind, n=n, **kv)
        # arrays whose extents do not fit
        n = lo + 2
        for op in ops[:6] + ["g2"]:
            a, b = io_len(kind, n, op)
            for dim, axis in ((1, 0), (2, 0), (2, 1), (3, 1), (3, 0), (3, 2)):
                rest = [2, 3][:dim - 1]
                mk = lambda k, r=rest: ",".join(map(str, r[:axis] + [k] + r[axis:]))
                for how in ("alloc", "inpl", "par", "parin"):
                    L("run", sc="reject", kind=kind, n=n, op=op, sin=mk(a), sout=mk(b), axis=axis, how=how)
                    for r in ([0] + rest[1:], rest[:-1] + [0]) if dim > 1 else ():
                        # no lanes at all
                        L("run", sc="reject", kind=kind, n=n, op=op, sin=mk(a, r), sout=mk(b, r), axis=axis, how=how)
                        L("refuse", sc="reject", kind=kind, n=n, op=op, sin=mk(a + 1, r), sout=mk(b, r), axis=axis, how=how)
                        if how in ("inpl", "parin"):
                            L("refuse", sc="reject", kind=kind, n=n, op=op, sin=mk(a, r), sout=mk(b + 1, r), axis=axis, how=how)
                    for x in sorted({0, 1, a // 2, a - 2, a - 1, a + 1, a + 2, 2 * a - 1, 2 * a, 3 * a} - {a}):
                        if x >= 0:
                            L("refuse", sc="reject", kind=kind, n=n, op=op, sin=mk(x), sout=mk(b), axis=axis, how=how)
                    if how in ("inpl", "parin"):
                        for y in sorted({0, 1, b // 2, b - 2, b - 1, b + 1, b + 2, 2 * b - 1, 2 * b, 3 * b} - {b}):
                            if y >= 0:
                                L("refuse", sc="reject", kind=kind, n=n, op=op, sin=mk(a), sout=mk(y), axis=axis, how=how)
                        if dim > 1:
                            # the last: another shape with as many lanes
                            for r in ([rest[0] + 1] + rest[1:], [rest[0] - 1] + rest[1:], rest[:-1] + [rest[-1] + 1], [0] + rest[1:], [1] * len(rest)) + ((rest[::-1], [1, 6], [6, 1]) if dim == 3 else ()):
                                L("refuse", sc="reject", kind=kind, n=n, op=op, sin=mk(a), sout=mk(b, r), axis=axis, how=how)
                    if kind in CHEB and op not in ("fwd", "bwd"):
                        L("refuse", sc="reject", kind=kind, n=n, op=op, sin=mk(a + 1), sout=mk(b), axis=axis, how=how, t="c")
                        if how in ("inpl", "parin"):
                            L("refuse", sc="reject", kind=kind, n=n, op=op, sin=mk(a), sout=mk(b - 1), axis=axis, how=how, t="c")
    # spaces
    for kinds, sizes in (("cheb,dir", "4,6"), ("r2c,neu", "5,7"), ("c2c,r2c", "3,4"), ("c2c,c2c", "4,3"), ("c2c,r2c,dn", "3,4,7"), ("cheb,neu,dir", "3,6,5")):
        ks, ns = kinds.split(","), [int(x) for x in sizes.split(",")]
        for op in ("fwd", "bwd", "to", "from", "grad"):
            io = [io_len(k, n, op) for k, n in zip(ks, ns)]
            a, b = [x for x, _ in io], [y for _, y in io]
            j = lambda l: ",".join(map(str, l))
            for how in ("alloc", "inpl", "par", "parin") if op != "grad" else ("alloc", "par"):
                L("run", sc="rejspace", kinds=kinds, sizes=sizes, op=op, sin=j(a), sout=j(b), how=how)
                for ax in range(len(ks)):
                    for dlt in (-1, 1):
                        x = list(a)
                        x[ax] += dlt
                        L("refuse", sc="rejspace", kinds=kinds, sizes=sizes, op=op, sin=j(x), sout=j(b), how=how)
                        if how in ("inpl", "parin"):
                            y = list(b)
                            y[ax] += dlt
                            L("refuse", sc="rejspace", kinds=kinds, sizes=sizes, op=op, sin=j(a), sout=j(y), how=how)
    # distributed arrays
    dl = ["1,0", "-1,0", "0,1", "0,-1", "1,-1", "-1,1"]
    for p in (1, 2, 3):
        for sh in ("5,7", "6,6"):
            for op in ("txy", "tyx", "agx", "agy", "gx", "gy", "gxa", "gya", "sx", "sy", "sxa", "sya", "ckx", "cky"):
                L("run", sc="rejdec", shape=sh, p=p, op=op, who=0)
                for who in sorted({0, p - 1}):
                    for d in dl if p < 3 else dl[:4]:
                        if not (op[0] == "s" and who != 0):
                            L("refuse", sc="rejdec", shape=sh, p=p, op=op, who=who, ds=d, t="rc"[p % 2])
                        if op[-1] != "a" and op[0] != "c" and not (op[0] == "g" and who != 0):
                            L("refuse", sc="rejdec", shape=sh, p=p, op=op, who=who, dr=d, t="rc"[p % 2])
    for kinds, sizes in MPI_SPACES[:4]:
        for p in (1, 2):
            for op in ("fwd", "bwd", "to", "from", "grad", "fwdi", "bwdi", "toi", "fromi"):
                L("run", sc="rejmpi", kinds=kinds, sizes=sizes, p=p, op=op, who=0)
                for d in dl[:4]:
                    L("refuse", sc="rejmpi", kinds=kinds, sizes=sizes, p=p, op=op, who=p - 1, ds=d)
                    if op[-1] == "i":
                        L("refuse", sc="rejmpi", kinds=kinds, sizes=sizes, p=p, op=op, who=p - 1, dr=d)
    return {"cases": cs, "functions": FN["transform"] + FN["compo"] + FN["arrays"] + FN["space"] + FN["dist"]}
