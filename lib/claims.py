"""The properties as claims about the values a scenario produced. The same code states them over symbolic forms and,
on replay, over the numbers the real code returned."""
import math
from fractions import Fraction
import spec as S
from core import Claim, V, const, vcomb, vint, vsub
from engine import F, ONE, CheckError, fl, fx, mkey

ZERO = V({})


def eq_lists(name, a, b, comps=1, tol=None):
    if len(a) != len(b):
        return [Claim("%s has %d values instead of %d" % (name, len(a), len(b)), const(len(a) * ONE), const(len(b) * ONE))]
    part = ["", ""] if comps == 1 else [".re", ".im"]
    return [Claim("%s[%d]%s" % (name, i // comps, part[i % comps]), x, y, tol) for i, (x, y) in enumerate(zip(a, b))]


def parts(v):
    return v[0::2], v[1::2]


def weave(re, im):
    o = []
    for a, b in zip(re, im):
        o += [a, b]
    return o


def kn(case):
    return case["kv"]["kind"], int(case["kv"]["n"])


def cplx(kind):
    """components of physical and spectral values"""
    return {"r2c": (1, 2), "c2c": (2, 2)}.get(kind, (1, 1))


# ---------------------------------------------------------------- transforms
def claims_p01(g, case):
    kind, n = kn(case)
    cp, cs = cplx(kind)
    return eq_lists("backward(forward(x))", g["bf"], g["in:x"], cp) + eq_lists("forward(backward(y))", g["fb"], g["in:y"], cs)


def fourier_fwd(kind, n, x):
    c, s = S.unit_circle(n)
    m = S.len_spec(kind, n)
    out = []
    if kind == "r2c":
        for k in range(m):
            out.append(vcomb([c[k * j % n] for j in range(n)], x))
            out.append(vcomb([-s[k * j % n] for j in range(n)], x))
        return out
    re, im = parts(x)
    both = re + im
    for k in range(m):
        out.append(vcomb([c[k * j % n] for j in range(n)] + [s[k * j % n] for j in range(n)], both))
        out.append(vcomb([-s[k * j % n] for j in range(n)] + [c[k * j % n] for j in range(n)], both))
    return out


def fourier_bwd(kind, n, y):
    c, s = S.unit_circle(n)
    re, im = parts(y)
    both = re + im
    m = len(re)
    out = []
    for j in range(n):
        if kind == "r2c":
            row_re, row_im = [], []
            for k in range(m):
                w = 1 if k == 0 or 2 * k == n else 2
                row_re.append(w * c[k * j % n] // n)
                row_im.append(0 if w == 1 else -w * s[k * j % n] // n)
            out.append(vcomb(row_re + row_im, both))
        else:
            out.append(vcomb([c[k * j % n] // n for k in range(m)] + [-s[k * j % n] // n for k in range(m)], both))
            out.append(vcomb([s[k * j % n] // n for k in range(m)] + [c[k * j % n] // n for k in range(m)], both))
    return out


def claims_p02(g, case):
    kind, n = kn(case)
    cp, cs = cplx(kind)
    if kind == "cheb":
        fw = [vcomb(r, g["in:x"]) for r in S.cheb_fwd(n)]
        bw = [vcomb(r, g["in:y"]) for r in S.cheb_bwd(n)]
    else:
        fw = fourier_fwd(kind, n, g["in:x"])
        bw = fourier_bwd(kind, n, g["in:y"])
    return eq_lists("forward", g["fwd"], fw, cs) + eq_lists("backward", g["bwd"], bw, cp)


def tmat(rows, nc):
    """transpose of a sparse matrix"""
    t = [dict() for _ in range(nc)]
    for i, r in enumerate(rows):
        for j, v in r.items():
            t[j][i] = v
    return t


def gram(rows, nc):
    a = [dict() for _ in range(nc)]
    for r in rows:
        for i, v in r.items():
            for j, w in r.items():
                a[i][j] = a[i].get(j, 0) + ((v * w) >> F)
    return a


def claims_p05(g, case):
    kind, n = kn(case)
    rows, (r, c) = g.matrix("S")
    m = S.len_spec(kind, n)
    if (r, c) != (n, m):
        return [Claim("stencil has shape %dx%d" % (r, c), const(ONE), ZERO)]
    B = S.cheb_bwd(n)
    y, x = g["in:y"], g["in:x"]
    cl = eq_lists("backward", g["bwd"], prod(B, [vcomb(r, y) for r in rows]))
    cl += eq_lists("forward(backward(y))", g["fb"], y)
    coef = prod(S.cheb_fwd(n), x)
    A, At = gram(rows, m), tmat(rows, m)
    rhs = [vcomb(a, coef) for a in At]
    lhs = [vcomb(a, g["fwd"]) for a in A]
    for i in range(m):
        cl.append(Claim("normal equation %d of the projection" % i, lhs[i], rhs[i]))
    cl += eq_lists("backward(forward(x))", g["bf"], prod(B, [vcomb(r, g["fwd"]) for r in rows]))
    for name, row in S.bc_rows(kind, n).items():
        if name.startswith("value at"):
            i = 0 if name.endswith("-1") else n - 1
            cl.append(Claim("backward at the boundary, " + name, g["bwd"][i], ZERO))
    return cl


def prod(M, v):
    return [vcomb(r, v) for r in M]


# ---------------------------------------------------------------- conversions
def by_comp(f, vs, comps):
    """applies a real linear map to every component"""
    if comps == 1:
        return f(vs)
    re, im = parts(vs)
    return weave(f(re), f(im))


def comps(case):
    return 2 if case["kv"].get("t") == "c" or case["kv"]["kind"] in ("r2c", "c2c") else 1


def claims_p03(g, case):
    kind, n = kn(case)
    nc = comps(case)
    tau = case.get("tau", 1e-10)
    cl = []
    to = parts(g["to"]) if nc == 2 else [g["to"]]
    for p, t in zip(("real", "imaginary"), to):
        for name, row in S.bc_rows(kind, n).items():
            cl.append(Claim("%s part: %s" % (p, name), vint(row, t), ZERO, tol=0.0,
                            w=[(tau * abs(a), v) for a, v in zip(row, t) if a]))
    return cl


def claims_p04(g, case):
    kind, n = kn(case)
    nc = comps(case)
    m, o = S.len_spec(kind, n), S.len_orth(kind, n)
    rows, shape = g.matrix("S")
    if shape != (o, m):
        return [Claim("stencil has shape %dx%d" % shape, const(ONE), ZERO)]
    u, v = g["in:u"], g["in:v"]
    cl = eq_lists("to_ortho(u) = S u", g["to"], by_comp(lambda z: [vcomb(r, z) for r in rows], u, nc), nc)
    if case.get("from", True):
        cl += eq_lists("from_ortho(to_ortho(u))", g["ft"], u, nc)
        A, At = gram(rows, m), tmat(rows, m)
        cl += eq_lists("normal equations of from_ortho", by_comp(lambda z: [vcomb(r, z) for r in A], g["fr"], nc),
                       by_comp(lambda z: [vcomb(r, z) for r in At], v, nc), nc)
        if S.CODIM[kind] == 0:
            cl += eq_lists("to_ortho(u) = u", g["to"], u, nc)
            cl += eq_lists("from_ortho(v) = v", g["fr"], v, nc)
    inv, shape = g.matrix("I")
    if shape != (m, o):
        return [Claim("stencil inverse has shape %dx%d" % shape, const(ONE), ZERO)]
    f = [g.free(i) for i in range(m)]
    Sf = [vcomb(r, f) for r in rows]
    cl += eq_lists("stencil_inv (stencil u)", [vcomb(r, Sf) for r in inv], f)
    return cl


# ---------------------------------------------------------------- derivatives
def deriv_cheb(n, d, su):
    """rows of the d-th derivative applied to values, with weights"""
    cols = S.cheb_dmat(n, d)
    out = []
    for j in range(n):
        row = {k: cols[k][j] for k in range(n) if cols[k][j]}
        out.append((vint(row, su), [(row[k], su[k]) for k in row]))
    return out


def deriv_fourier(kind, n, d, u):
    re, im = parts(u)
    out = []
    for i, k in enumerate(S.fourier_k(kind, n)):
        a, b = S.ipow(d)
        kd = k ** d
        a, b = a * kd, b * kd
        out.append((vint([a, -b], [re[i], im[i]]), [(abs(kd), re[i]), (abs(kd), im[i])]))
        out.append((vint([b, a], [re[i], im[i]]), [(abs(kd), re[i]), (abs(kd), im[i])]))
    return out


def wclaims(name, got, exp, tau, nc=1):
    if len(got) != len(exp):
        return [Claim("%s has %d values instead of %d" % (name, len(got), len(exp)), const(len(got) * ONE), const(len(exp) * ONE))]
    part = [""] if nc == 1 else [".re", ".im"]
    return [Claim("%s[%d]%s" % (name, i // nc, part[i % nc]), g, e, 0.0, [(tau * abs(w), v) for w, v in ws])
            for i, (g, (e, ws)) in enumerate(zip(got, exp))]


def claims_p06(g, case):
    kind, n = kn(case)
    nc = comps(case)
    tau = case.get("tau", 1e-11)
    u = g["in:u"]
    cl = []
    for d in [int(x) for x in case["kv"]["d"].split(",")]:
        got = g["g%d" % d]
        if kind in ("r2c", "c2c"):
            cl += wclaims("gradient order %d" % d, got, deriv_fourier(kind, n, d, u), tau, 2)
        else:
            rows, _ = g.matrix("S")
            f = lambda z: deriv_cheb(n, d, [vcomb(r, z) for r in rows])
            if nc == 1:
                cl += wclaims("gradient order %d" % d, got, f(u), tau)
            else:
                a, b = parts(u)
                cl += wclaims("gradient order %d" % d, got, weave(f(a), f(b)), tau, 2)
    return cl


def cmatvec(rows, re, im):
    """complex sparse matrix times complex vector"""
    out = []
    both = {}
    for r in rows:
        rr, ri = {}, {}
        n = len(re)
        for j, (a, b) in r.items():
            rr[j], rr[n + j] = a, -b
            ri[j], ri[n + j] = b, a
        out += [vcomb(rr, re + im), vcomb(ri, re + im)]
    return out


def claims_p07(g, case):
    kind, n = kn(case)
    tau = case.get("tau", 1e-11)
    fourier = kind in ("r2c", "c2c")
    o = S.len_orth(kind, n)
    cl = []
    re = [g.free(i) for i in range(o)]
    im = [g.free(o + i) for i in range(o)] if fourier else []
    for w in case["kv"]["what"].split(","):
        if w[0] == "D":
            d = int(w[1:])
        elif w == "L":
            d = 2
        else:
            continue
        name = "diffmat(%d) u" % d if w[0] == "D" else "laplacian u"
        if fourier:
            exp = deriv_fourier(kind, n, d, weave(re, im))
            if w == "L":
                rows, shape = g.matrix(w)
                got = weave([vcomb(r, re) for r in rows], [vcomb(r, im) for r in rows])
            else:
                rows, shape = g.matrix(w, 2)
                got = cmatvec(rows, re, im)
            cl += wclaims(name, got, exp, tau, 2)
        else:
            rows, shape = g.matrix(w)
            if shape[1] != o:
                raise CheckError("differentiation matrix of shape %dx%d" % shape)
            cl += wclaims(name, [vcomb(r, re) for r in rows], deriv_cheb(n, d, re), tau)
    if fourier:
        k = g["k"]
        exp = []
        for q in S.fourier_k(kind, n):
            exp += [const(0), const(q * ONE)]
        cl += eq_lists("wavenumber", k, exp, 2)
    return cl


def claims_p08(g, case):
    kind, n = kn(case)
    tau = case.get("tau", 1e-10)
    o = S.len_orth(kind, n)
    fourier = kind in ("r2c", "c2c")
    cl = []
    re = [g.free(i) for i in range(o)]
    im = [g.free(o + i) for i in range(o)] if fourier else []
    for w in case["kv"]["what"].split(","):
        if w[0] == "P":
            d = int(w[1:])
            names, D = ("P%d" % d, "E%d" % d), "D%d" % d
            cd, cp, ce = (2, 2, 2) if fourier else (1, 1, 1)
        elif w == "Q":
            names, D, d = ("Q", "QE"), "L", 2
            cd, cp, ce = 1, 1, 1
        else:
            continue
        P, ps = g.matrix(names[0], cp)
        E, es = g.matrix(names[1], ce)
        Dm, ds = g.matrix(D, cd)
        low = 1 if fourier else d
        if ps != (o, o) or es != (o - low, o) or ds != (o, o):
            cl.append(Claim("shapes of %s: %s %s %s" % (w, ps, es, ds), const(ONE), ZERO))
            continue
        # the identity-like matrix selects the rows from `low` on
        for r in range(es[0]):
            one = (ONE, 0) if ce == 2 else ONE
            ok = E[r] == {r + low: one}
            cl.append(Claim("row %d of the identity-like matrix of %s" % (r, w), const(ONE if ok else 0), const(ONE)))
        if cd == 1:
            Du = [vcomb(r, re) for r in Dm]
            got = [vcomb(P[r + low], Du) for r in range(es[0])]
            for r in range(es[0]):
                ws = [(abs(fl(c)) * tau, Du[k]) for k, c in P[r + low].items()]
                cl.append(Claim("row %d of pinv diffmat u, %s" % (r + low, w), got[r], re[r + low], 0.0, ws + [(tau, re[r + low])]))
        else:
            Du = cmatvec(Dm, re, im)
            dre, dim = parts(Du)
            got = cmatvec([P[r + low] for r in range(es[0])], dre, dim)
            for r in range(es[0]):
                i = r + low
                for q, (a, b) in enumerate(((got[2 * r], re[i]), (got[2 * r + 1], im[i]))):
                    cl.append(Claim("row %d of pinv diffmat u, %s" % (i, w), a, b, 0.0, [(tau, re[i]), (tau, im[i])]))
    return cl


# ---------------------------------------------------------------- sizes, coordinates
def ints(name, got, exp):
    return Claim("%s: got %s, expected %s" % (name, got, exp), const(ONE if str(got) == str(exp) else 0), const(ONE))


def coords_spec(kind, n):
    if kind in ("r2c", "c2c"):
        import mpmath
        return [S.mpfx(2 * mpmath.pi * k / n) for k in range(n)]
    return S.points(n)


def claims_p15(g, case):
    kind, n = kn(case)
    m = g.meta
    cl = [ints("physical size", m["phys"], n), ints("spectral size", m["spec"], S.len_spec(kind, n)),
          ints("orthogonal size", m["orth"], S.len_orth(kind, n)), ints("kind", m["kind"], S.KINDNAME[kind]),
          ints("transform kind", m["tkind"], {"r2c": "R2c", "c2c": "C2c"}.get(kind, "R2r"))]
    if "len_fwd" in m:
        cl += [ints("length of forward", m["len_fwd"], S.len_spec(kind, n)), ints("length of backward", m["len_bwd"], n)]
    exp = [const(c) for c in coords_spec(kind, n)]
    got = g["coords"]
    cl.append(ints("number of coordinates", len(got), n))
    tol = case.get("tol", 1e-13 * 8)
    cl += [Claim("coordinate %d of %d" % (i, n), a, b, tol) for i, (a, b) in enumerate(zip(got, exp))]
    if len(got) == n and kind not in ("r2c", "c2c"):
        # both ends included, exactly
        cl.append(Claim("first coordinate", got[0], const(-ONE), tol))
        cl.append(Claim("last coordinate", got[-1], const(ONE), tol))
    return cl


# ---------------------------------------------------------------- equality of variants
def claims_same(g, case):
    """every variant equals the reference"""
    cl = []
    for v in case["kv"]["var"].split(","):
        if v in LAYOUTS and "refused:" + v in g.meta:
            continue
        cl.append(ints("shape of " + v, g.meta.get("shape:" + v), g.meta.get("shape:ref")))
        cl += eq_lists(v, g[v], g["ref"])
    for k in g.groups:
        if k.startswith("rim:"):
            cl += eq_lists("what surrounds the output of " + k[4:], g[k], g["keep:" + k[4:]])
    cl += eq_lists("the input afterwards", g["after:x"], g["in:x"])
    return cl


# variants on arrays that are not in standard layout: refused, or the same result
LAYOUTS = ("fin", "fpar", "sin", "rin", "finpl", "fparin")


def claims_par(g, case):
    cl = []
    pairs = {"par": "alloc", "parin": "inpl"}
    for v in case["kv"]["var"].split(","):
        if v in pairs:
            cl.append(ints("shape of " + v, g.meta.get("shape:" + v), g.meta.get("shape:" + pairs[v])))
            cl += eq_lists(v, g[v], g[pairs[v]])
    return cl


def claims_inplace(g, case):
    cl = []
    pairs = {"inpl": "alloc", "parin": "par", "slice2": "ref"}
    for v in case["kv"]["var"].split(","):
        if v in pairs and (pairs[v] in g.groups):
            cl.append(ints("shape of " + v, g.meta.get("shape:" + v), g.meta.get("shape:" + pairs[v])))
            cl += eq_lists(v, g[v], g[pairs[v]])
    cl += eq_lists("the input afterwards", g["after:x"], g["in:x"])
    return cl


def claims_hist(g, case):
    cl = []
    n = 0
    for k in g.groups:
        if k.startswith("used:"):
            i = k[5:]
            op = case["kv"]["seq"].split(",")[int(i)]
            cl += eq_lists("call %s (%s) on the used object" % (i, op), g[k], g["fresh:" + i])
            if "again:" + i in g.groups:
                cl += eq_lists("call %s (%s) repeated at the end" % (i, op), g["again:" + i], g["fresh:" + i])
            n += 1
    if n == 0:
        raise CheckError("no results")
    return cl


def claims_spacemeta(g, case):
    cl = []
    m = g.meta
    for k in ("phys", "spec", "orth"):
        cl.append(ints("shape " + k, m["sp:" + k], m["b:" + k]))
    cl.append(ints("ndarray_physical", m["sp:ndphys"], m["b:phys"]))
    cl.append(ints("ndarray_spectral", m["sp:ndspec"], m["b:spec"]))
    kinds = case["kv"]["kinds"].split(",")
    sizes = [int(x) for x in case["kv"]["sizes"].split(",")]
    cl.append(ints("physical shape", m["sp:phys"], ",".join(map(str, sizes))))
    cl.append(ints("spectral shape", m["sp:spec"], ",".join(str(S.len_spec(k, n)) for k, n in zip(kinds, sizes))))
    cl.append(ints("orthogonal shape", m["sp:orth"], ",".join(str(S.len_orth(k, n)) for k, n in zip(kinds, sizes))))
    for ax in range(len(kinds)):
        cl.append(ints("kind of axis %d" % ax, m["sp:kind%d" % ax], S.KINDNAME[kinds[ax]]))
        cl.append(ints("transform kind of axis %d" % ax, m["sp:tkind%d" % ax], m["b:tkind%d" % ax]))
        for w in ("S", "I", "L", "P", "E", "coords"):
            a, b = "sp:%s%d" % (w, ax), "b:%s%d" % (w, ax)
            cl.append(ints("shape of %s of axis %d" % (w, ax), m["shape:" + a], m["shape:" + b]))
            cl += eq_lists("%s of axis %d" % (w, ax), g[a], g[b])
        cl += eq_lists("coords()[%d]" % ax, g["sp2:coords%d" % ax], g["b:coords%d" % ax])
    return cl


def claims_roundtrip(g, case):
    """backward undoes forward as far as the bases do"""
    kinds = case["kv"]["kinds"].split(",")
    cl = []
    if all(S.CODIM[k] == 0 for k in kinds):
        cl += eq_lists("backward(forward(x))", g["bf"], g["in:x"])
    cl += eq_lists("forward(backward(forward(x)))", g["fbf"], g["f"])
    return cl


def claims_scaled(g, case):
    """gradient = unscaled composition / prod scale_i^d_i"""
    from engine import mmul, mkey
    d = [int(x) for x in case["kv"]["d"].split(",")]
    sc = case["kv"].get("scale", "none")
    ref = g["ref"]
    mult = Fraction(1)
    if sc == "sym":
        s = g["in:s"]
        if g.symbolic:
            mono = ()
            for v, e in zip(s, d):
                (k, _), = v.f.items()
                if e:
                    mono = mmul(mono, ((k, -e),))
            exp = [V({mmul(k, mono): c for k, c in v.f.items()}, 0.0) for v in ref]
        else:
            p = Fraction(1)
            for v, e in zip(s, d):
                p *= Fraction(v.f.get((), 0), ONE) ** e
            exp = [V({k: fx(Fraction(c, ONE) / p) for k, c in v.f.items()}) for v in ref]
    elif sc == "none":
        exp = ref
    else:
        # compared before the division, so that the tolerance means the same for every scale
        exp = ref
        for x, e in zip(sc.split(","), d):
            mult *= Fraction(x) ** e
    cl = []
    for v in case["kv"]["var"].split(","):
        cl.append(ints("shape of " + v, g.meta.get("shape:" + v), g.meta.get("shape:ref")))
        got = g[v] if mult == 1 else [V({k: (c * mult.numerator) // mult.denominator for k, c in x.f.items()}, x.e * abs(float(mult))) for x in g[v]]
        cl += eq_lists("%s%s with scale %s and order %s" % (v, "" if mult == 1 else " * prod scale^order", sc, d), got, exp)
    cl += eq_lists("the input afterwards", g["after:x"], g["in:x"])
    return cl


# ---------------------------------------------------------------- distributed arrays
def table_row(s):
    import ast
    p = s.split("|")
    return [ast.literal_eval(x) for x in p]


def table_claims(meta, shape, p, what):
    """what: 'x' (split along axis 1) or 'y' (split along axis 0), name prefix of the table"""
    cl = []
    rows = [table_row(meta["%s%d" % (what, r)]) for r in range(p)]
    ax = 1 if what[-1] == "x" else 0
    other = 1 - ax
    st_p, en_p, sz_p = rows[0][3:6]
    pos = 0
    for r in range(p):
        st, en, sz, sp, ep, zp, nprocs, nrank, contig, length = rows[r]
        cl.append(ints("%s: table of rank %d" % (what, r), (sp, ep, zp), (st_p, en_p, sz_p)))
        cl.append(ints("%s: own row of rank %d" % (what, r), (st, en, sz), (st_p[r], en_p[r], sz_p[r])))
        cl.append(ints("%s: size of rank %d" % (what, r), sz, [en[i] - st[i] + 1 for i in range(2)]))
        cl.append(ints("%s: whole axis of rank %d" % (what, r), (st[other], en[other]), (0, shape[other] - 1)))
        cl.append(ints("%s: start of rank %d" % (what, r), st[ax], pos))
        cl.append(ints("%s: rank %d has a block" % (what, r), en[ax] >= st[ax], True))
        cl.append(ints("%s: nprocs, rank of rank %d" % (what, r), (nprocs, nrank), (p, r)))
        pos = en[ax] + 1
        cl.append(ints("%s: balanced block of rank %d" % (what, r), sz[ax] in (shape[ax] // p, -(-shape[ax] // p)), True))
    cl.append(ints("%s: end of the last block" % what, pos, shape[ax]))
    return cl


def claims_table(g, case):
    shape = [int(x) for x in case["kv"]["shape"].split(",")]
    p = int(case["kv"]["p"])
    return table_claims(g.meta, shape, p, "x") + table_claims(g.meta, shape, p, "y")


def block(flat, shape, st, en, nc):
    out = []
    for i in range(st[0], en[0] + 1):
        for j in range(st[1], en[1] + 1):
            k = (i * shape[1] + j) * nc
            out += flat[k:k + nc]
    return out


def claims_dec(g, case):
    shape = [int(x) for x in case["kv"]["shape"].split(",")]
    p = int(case["kv"]["p"])
    nc = 2 if case["kv"].get("t") == "c" else 1
    glob = g["in:g"]
    cl = []
    if case.get("tables"):
        cl += table_claims(g.meta, shape, p, "x") + table_claims(g.meta, shape, p, "y")
    blocks = {}
    for r in range(p):
        for w in "xy":
            st, en = table_row(g.meta["%s%d" % (w, r)])[:2]
            blocks["b%s" % w, r] = (block(glob, shape, st, en, nc), [en[i] - st[i] + 1 for i in range(2)])
        cl.append(ints("shapes reported by rank %d" % r, g.meta["pen%d" % r], "%s%s%s" % (shape, blocks["bx", r][1], blocks["by", r][1])))
    cl += eq_lists("the global array afterwards", g["g"], glob)
    for k in list(g.groups):
        if "@" not in k:
            continue
        n, r = k.split("@")
        r = int(r)
        what = n.split(".")[0]
        if what == "g":
            exp, sh = glob, shape
        elif what in ("bx", "by"):
            exp, sh = blocks[what, r]
        else:
            continue
        cl.append(ints("shape of %s on rank %d" % (n, r), g.meta["shape:" + k], ",".join(map(str, sh))))
        cl += eq_lists("%s on rank %d" % (n, r), g[k], exp, nc)
    if "counts" in case["kv"]["op"].split(","):
        cl += count_claims(g, p, shape)
    return cl


def count_claims(g, p, shape):
    """counts of every pair match; displacements tile the buffers"""
    import ast
    cl = []
    tab = lambda k: [[ast.literal_eval(x) for x in g.meta["%s%d" % (k, r)].split("|")] for r in range(p)]
    xy, yx = tab("a2a_xy"), tab("a2a_yx")
    rx = [table_row(g.meta["x%d" % r]) for r in range(p)]
    ry = [table_row(g.meta["y%d" % r]) for r in range(p)]
    size = lambda row: row[2][0] * row[2][1]
    for s in range(p):
        for r in range(p):
            cl.append(ints("x to y: rank %d sends rank %d what it expects" % (s, r), xy[s][0][r], yx[r][0][s]))
            both = (rx[s][2][1]) * (ry[r][2][0])
            cl.append(ints("x to y: elements of rank %d for rank %d" % (s, r), xy[s][0][r], both))
    for name, t, rows in (("x to y", xy, rx), ("y to x", yx, ry)):
        for s in range(p):
            pos = 0
            for r in range(p):
                cl.append(ints("%s: displacement of rank %d for rank %d" % (name, s, r), t[s][1][r], pos))
                pos += t[s][0][r]
            cl.append(ints("%s: total of rank %d" % (name, s), pos, size(rows[s])))
    for name, t, rows in (("x", tab("ag_x"), rx), ("y", tab("ag_y"), ry)):
        for s in range(p):
            pos = 0
            for r in range(p):
                cl.append(ints("gather %s: count of rank %d on rank %d" % (name, r, s), t[s][0][r], size(rows[r])))
                cl.append(ints("gather %s: displacement of rank %d on rank %d" % (name, r, s), t[s][1][r], pos))
                pos += t[s][0][r]
            cl.append(ints("gather %s: total on rank %d" % (name, s), pos, shape[0] * shape[1]))
    return cl


def claims_reduce(g, case):
    cl = []
    nc = 2 if case["kv"].get("t") == "c" else 1
    p = int(case["kv"]["p"])
    v = g["in:v"]
    total = [vint([1] * p, v[i::nc]) for i in range(nc)]
    for r in range(p):
        cl += eq_lists("broadcast on rank %d" % r, g["root.broadcast@%d" % r], v[:nc], nc)
        cl += eq_lists("all_gather_sum on rank %d" % r, g["sum.all_gather_sum@%d" % r], total, nc)
    cl += eq_lists("gather_sum on the root", g["sum.gather_sum@0"], total, nc)
    return cl


def claims_mpi(g, case):
    kv = case["kv"]
    kinds = kv["kinds"].split(",")
    sizes = [int(x) for x in kv["sizes"].split(",")]
    p = int(kv["p"])
    real = all(k not in ("r2c", "c2c") for k in kinds)
    allc = all(k == "c2c" for k in kinds)
    ncp = 2 if allc else 1
    ncs = 1 if real else 2
    shapes = {"p": sizes, "s": [S.len_spec(k, n) for k, n in zip(kinds, sizes)], "o": [S.len_orth(k, n) for k, n in zip(kinds, sizes)]}
    cl = []
    ops = kv["op"].split(",")
    sel = case.get("only")  # restrict to a part of the groups

    def blk(flat, what, r):
        shape = shapes[what[0]]
        nc = ncp if what[0] == "p" else ncs
        st, en = table_row(g.meta["%s%d" % (what, r)])[:2]
        return block(flat, shape, st, en, nc), [en[i] - st[i] + 1 for i in range(2)]
    for k in list(g.groups):
        if "@" not in k:
            continue
        n, r = k.split("@")
        r = int(r)
        q = n.split(".")
        alt = q[-1].startswith("#a")  # the second set of data
        if q[0] in ("fwd", "bwd", "to", "from", "grad") and len(q) > 1:
            exp, sh = blk(g["ref." + q[0] + "~" * alt], q[1], r)
        elif q[0] in ("phys", "spec"):
            flat = g["in:" + "d" * alt + q[0]]
            if q[1] == "g":
                exp, sh = flat, shapes[q[0][0]]
            else:
                exp, sh = blk(flat, q[1], r)
        elif q[0] in ("fwdg", "bwdg", "tog", "fromg", "gradg", "pfwdg", "pbwdg", "ptog", "pfromg", "pgradg"):
            base = q[0].lstrip("p") if q[0][0] == "p" else q[0]
            ref = base[:-1] + "r@%d" % r
            exp, sh = g[ref], [int(x) for x in g.meta["shape:" + ref].split(",")]
        elif q[0].startswith("sp:") or q[0].startswith("sp2:"):
            ref = "b:" + k.split(":", 1)[1]
            exp, sh = g[ref], [int(x) for x in g.meta["shape:" + ref].split(",")]
        else:
            continue
        cl.append(ints("shape of %s on rank %d" % (n, r), g.meta["shape:" + k], ",".join(map(str, sh))))
        cl += eq_lists("%s on rank %d" % (n, r), g[k], exp)
    m = g.meta
    for r in range(p):
        for k in list(m):
            if k.startswith("sp:kind") and k.endswith("@%d" % r):
                cl.append(ints(k, m[k], m["b:" + k[3:]]))
        if "sp:sh@%d" % r in m:
            cl.append(ints("global shapes on rank %d" % r, m["sp:sh@%d" % r], m["b:sh@%d" % r]))
        if "shapes" in ops:
            for w in ("px", "py", "sx", "sy"):
                sz = str(table_row(m["%s%d" % (w, r)])[2])
                cl.append(ints("local shape %s of rank %d" % (w, r), m["sh:%s@%d" % (w, r)], sz))
                cl.append(ints("local array %s of rank %d" % (w, r), m["nd:%s@%d" % (w, r)], sz))
            cl.append(ints("rank and size of rank %d" % r, m["nrank@%d" % r], "%d %d" % (r, p)))
            for k in list(m):
                if k.startswith("dec:") and k.endswith("@%d" % r):
                    cl.append(ints("decomposition " + k[4:], m[k], m["exp:" + k[4:]]))
    for w in ("px", "py", "sx", "sy", "ox", "oy"):
        if case.get("tables"):
            cl += table_claims(m, shapes[w[0]], p, w)
    if not cl:
        raise CheckError("no claims")
    return cl


# ---------------------------------------------------------------- schedules
def func_sched(case, st):
    """the claims of the case under the serial schedule, the reverse one, and with a switch of threads at every step"""
    import core
    c = {k: v for k, v in case.items() if k != "func"}
    r = core.run("s", dict(c["kv"], cone="0", sched="i:", nt="4"), timeout=120)
    if r["status"] != "ok":
        steps = 0
    else:
        steps = int(r["meta"].get("sched_steps", r["sched"][0]))
    st.add("schedule_steps", steps)
    pts = list(range(steps + 1))
    cap = case.get("cap", 80)
    if len(pts) > cap:
        pts = sorted({round(i * steps / (cap - 1)) for i in range(cap)})
        st.add("schedules_capped")
    scheds = [("seq", 4), ("rev", 4), ("rev", 2)] + [("i:%d" % i, 4) for i in pts]
    if len(pts) > 3:
        # two switches
        scheds += [("i:%d+%d" % (pts[i], pts[j]), 4) for i in range(0, len(pts) - 1, max(1, len(pts) // 4)) for j in range(i + 1, len(pts), max(1, len(pts) // 4))]
    for i, (s, nt) in enumerate(scheds):
        out = {"violation": None}
        c2 = dict(c, kv=dict(c["kv"], sched=s, nt=str(nt)), nonative=(i > 2 and i % 8 != 3))
        core.explore(c2, st, out)
        st.add("schedules")
        if out["violation"]:
            return out["violation"]
    return None


# ---------------------------------------------------------------- accept or reject
def util_pairs(case, ninputs):
    h = ninputs // 2
    return [(i, h + i) for i in range(h)]


def util_delta(case):
    return 2e-6 if case.get("single") else 1e-9


def util_broken(case, vals):
    """does the real code accept (reject) what it must reject (accept)?"""
    import core
    from fractions import Fraction as Q
    n = core.native(case, vals)
    if n["status"] != "ok":
        return True, "the call ends with %s: %s" % (n["status"], n["msg"])
    acc = n["meta"]["accepted"] == "1"
    h = len(vals) // 2
    ds = [abs(Q(vals[i]) - Q(vals[h + i])) for i in range(h)]
    big = max(ds) if ds else Q(0)
    d = Q(util_delta(case)) / 2
    bad = (acc and big > Q(1, 1000) + d) or (not acc and big < Q(1, 1000) - d)
    return bad, "%s with largest difference %.9g of a component is %s" % (case["kv"]["op"], float(big), "accepted" if acc else "refused")


def func_util(case, st):
    """accepted on a path: no pair may differ by more than the tolerance; refused: some pair must"""
    import core, engine as E
    from fractions import Fraction as Q
    single = case.get("single", False)
    work, seen = [""], {""}
    sol = E.solver("z3")
    while work:
        dec = work.pop(0)
        kv = dict(case["kv"], cone="1")
        if dec:
            kv["dec"] = dec
        if single:
            kv["single"] = "1"
        res = E.run("s", kv)
        if res["status"] == "unsupported":
            # no encoding: differences next to the tolerance on the compiled code
            h = int(math.prod(int(x) for x in case["kv"]["shape"].split(",") if x)) * (2 if "complex" in case["kv"]["op"] else 1)
            for dv in (0.0, 9e-4, 1.1e-3, -9e-4, -1.1e-3, 0.5, -0.5, 1e6, -1e6) if h else ():
                for at in {0, h // 2, h - 1}:
                    for base in (0.0, 1.0, -3.0):
                        vals = [base] * (2 * h)
                        vals[h + at] = base + dv
                        bad, desc = util_broken(case, vals)
                        if bad:
                            return {"case": case, "claim": None, "vals": vals, "free": {}, "tol": None, "what": desc}
            raise core.NotEncoded(res["msg"])
        if res["status"] != "ok":
            raise CheckError(res["msg"])
        st.add("paths")
        st.add("nodes", res["nnodes"])
        st.add("inputs", res["ninputs"])
        if st["paths"] > case.get("paths", 600):
            raise CheckError("too many paths")
        fs = E.Forms(dict(res, groups={}), u=2.0 ** -24 if single else 2.0 ** -53)
        st.add("ops", fs.count)
        acc = res["meta"]["accepted"] == "1"
        d = Q(util_delta(case))
        for span in (1.0, 1000.0) if not single else (1.0,):
            q = E.Question(fs, span=span, K=64)
            q.add_path()
            pairs = util_pairs(case, res["ninputs"])
            for a, b in pairs:
                q.need(a)
                q.need(b)
            t = Q(1, 1000) + (d if acc else -d)
            T = "(/ %d %d)" % (t.numerator, t.denominator)
            far = ["(or (> (- x%d x%d) %s) (< (- x%d x%d) (- %s)))" % (a, b, T, a, b, T) for a, b in pairs]
            goal = "(or false %s)" % " ".join(far)
            if not acc:
                goal = "(not %s)" % goal
            text = "".join(q.head) + "".join("(assert %s)" % p for p in q.pathtext) + "(assert %s)(check-sat)" % goal
            names = ["x%d" % i for i in range(res["ninputs"])]
            t0 = sol.time
            ans = sol.ask(text, timeout=100)
            st.add("solver_s", sol.time - t0)
            st.add("queries")
            st.add("claims")
            if ans is None or ans.split()[0] not in ("sat", "unsat"):
                raise CheckError("solver: %s" % ans)
            if ans.startswith("unsat"):
                st.add("unsat")
                continue
            st.add("sat")
            vals = []
            if names:
                ans = sol.ask(text + "(get-value (%s))" % " ".join(names), timeout=100)
                m = dict(core.parse_model(ans.strip()[3:].strip()))
                vals = [float(m[n]) for n in names]
            st.add("replays")
            bad, desc = util_broken(case, vals)
            if bad:
                return {"case": case, "claim": None, "vals": vals, "free": {}, "tol": None, "what": desc}
            raise CheckError("the solver finds a violation that the real code does not show: %s" % desc)
        if not dec:
            # the encoding against the real code
            import random
            rnd = random.Random(case.get("seed", 1))
            h = res["ninputs"] // 2
            for j in range(4):
                a = [rnd.uniform(-1, 1) for _ in range(h)]
                b = [x + rnd.choice((0, 5e-4, -9e-4)) for x in a]
                if j % 2 and h:
                    b[rnd.randrange(h)] += rnd.choice((4e-3, -4e-3))
                bad, desc = util_broken(case, a + b)
                st.add("native")
                if bad:
                    return {"case": case, "claim": None, "vals": a + b, "free": {}, "tol": None, "what": desc}
        flags = "".join(str(x[3]) for x in res["path"])
        for i in range(len(dec), len(flags)):
            e = flags[:i] + ("0" if flags[i] == "1" else "1")
            if e not in seen:
                seen.add(e)
                work.append(e)
    return None


# ---------------------------------------------------------------- limits
def claims_none(g, case):
    return []


def claims_guard(g, case):
    cl = eq_lists("memory around the output slice", g["guard"], g["in:guard"]) + eq_lists("memory of the input", g["x"], g["in:x"])
    # what the call returns does not depend on the memory around its arguments
    outer = guard_inputs(g.meta["guard"])
    cl += [Claim("result %d, memory around the arguments set to zero" % i, v, V({k: c for k, c in v.f.items() if not any(q in outer for q, _ in mkey(k))}, v.e))
           for i, v in enumerate(g["res"])]
    return cl


def guard_inputs(meta):
    """numbers of the inputs that stand for the memory around the slices"""
    G, li, c1, lo, c2 = [int(x) for x in meta.split()]
    out = set()
    pos = 0
    for n, c in ((li, c1), (lo, c2)):
        out |= set(range(pos, pos + G * c)) | set(range(pos + (G + n) * c, pos + (n + 2 * G) * c))
        pos += (n + 2 * G) * c
    return out


def guard_broken(case, vals):
    """natively: the memory around the slices changes, or the results change with it"""
    import core
    runs = []
    for alt in (0, 1):
        n = core.native(case, vals)
        if n["status"] != "ok":
            return False, "the call ends with %s" % n["status"]
        runs.append(n["values"])
        v = n["values"]
        for a, b in (("guard", "in:guard"), ("x", "in:x")):
            if v[a] != v[b]:
                return True, "%s: memory around the arguments is changed" % core.label(case)
        if alt == 0:
            vals = list(vals)
            for i in guard_inputs(dict(n["meta"])["guard"]):
                if i < len(vals):
                    vals[i] = -0.5 * vals[i] + 0.3
    if runs[0]["res"] != runs[1]["res"]:
        return True, "%s: the result depends on memory around the arguments" % core.label(case)
    return False, "native run leaves the memory around the arguments alone"


def func_limits(case, st):
    """every path of the call, whatever the contents, ends as `must` says: refuse (a panic), any (no crash), run (no panic)"""
    import core, engine as E
    work, seen = [""], {""}
    must = case["must"]
    while work:
        dec = work.pop(0)
        kv = dict(case["kv"], cone="1")
        if dec:
            kv["dec"] = dec
        res = E.run("s", kv, timeout=60)
        st.add("paths")
        st.add("nodes", res.get("nnodes", 0))
        st.add("inputs", res.get("ninputs", 0))
        if res["status"] in ("unsupported", "harness"):
            raise CheckError("%s: %s" % (core.label(case), res["msg"]))
        bad = {"refuse": res["status"] != "panic", "any": res["status"] in ("crash", "timeout"), "run": res["status"] != "ok"}[must]
        fs = E.Forms(dict(res, groups={}), u=2.0 ** -53) if res.get("path") else None
        if bad:
            model = {}
            if fs is not None:
                model = core.feasible_model(case, fs, 1.0)
                st.add("queries")
            if model is not None:
                vals = core.input_values(max(res.get("ninputs", 0), 600), {k: v for k, v in model.items() if isinstance(k, int)}, {})
                if not model:
                    import random
                    rnd = random.Random(1)
                    vals = [rnd.uniform(-1, 1) for _ in vals]
                b, desc = limits_broken(case, vals)
                st.add("replays")
                if b:
                    return {"case": case, "claim": None, "vals": vals, "free": {}, "tol": None, "what": desc}
                raise CheckError("%s: symbolic run: %s (%s); %s" % (core.label(case), res["status"], res["msg"][:200], desc))
        elif res["status"] == "ok" and case["claims"] != "none":
            f2 = E.Forms(res)
            g = core.G(core.sym_groups(res, f2), res["meta"], lambda i: None, 0, True)
            sat, nsat = core.decide(case, res, f2, core.claims_of(case, g), st, 1.0)
            if sat:
                vals = core.input_values(res["ninputs"], {k: v for k, v in sat[0][1].items() if isinstance(k, int)}, {})
                st.add("replays")
                b, desc = guard_broken(case, vals)
                if b:
                    return {"case": case, "claim": None, "vals": vals, "free": {}, "tol": None, "what": desc}
                raise CheckError("%s: %s: %s" % (core.label(case), core.claims_of(case, g)[sat[0][0]].name, desc))
        flags = "".join(str(x[3]) for x in res.get("path") or [])
        for i in range(len(dec), len(flags)):
            e = flags[:i] + ("0" if flags[i] == "1" else "1")
            if e not in seen and len(seen) < 40:
                seen.add(e)
                work.append(e)
    if case.get("seed", 1) and core.hash_str(core.label(case)) % 4 == 0 or must == "refuse":
        import random
        rnd = random.Random(case.get("seed", 1))
        b, desc = limits_broken(case, [rnd.uniform(-1, 1) for _ in range(600)])
        st.add("native")
        if b:
            return {"case": case, "claim": None, "vals": [0.5] * 600, "free": {}, "tol": None, "what": desc}
    return None


def limits_broken(case, vals):
    import core
    n = core.native(case, vals)
    s = n["status"]
    if s == "ok" and case["claims"] == "guard":
        b, desc = guard_broken(case, vals)
        if b:
            return b, desc
    bad = {"refuse": s != "panic", "any": s in ("crash", "timeout"), "run": s != "ok"}[case["must"]]
    want = {"refuse": "must be refused", "any": "must not touch other memory", "run": "must succeed"}[case["must"]]
    return bad, "%s: the call %s and ends with %s %s" % (core.label(case), want, s, n["msg"][:300].strip())
