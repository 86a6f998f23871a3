"""One case: run symbolically, state the claims, let the solver decide, replay what it finds."""
import json, math, os, random, time
from fractions import Fraction
import engine as E
import spec as S
from engine import F, ONE, CheckError, Forms, Question, bits, comb, f64, fl, fx_of_float, num, run, solver, sub


class V:
    """a value: form, rounding bound, reference in the expression graph (None: derived)"""
    __slots__ = ("f", "e", "r")

    def __init__(self, f, e=0.0, r=None):
        self.f, self.e, self.r = f, e, r


def const(c):
    return V({(): c} if c else {})


def vcomb(row, vs):
    """sum row[i]*vs[i], fixed-point coefficients"""
    it = row.items() if isinstance(row, dict) else enumerate(row)
    it = [(i, c) for i, c in it if c]
    f, e = {}, 0.0
    for i, c in it:
        v = vs[i]
        for k, w in v.f.items():
            f[k] = f.get(k, 0) + ((c * w) >> F)
        if v.e:
            e += abs(fl(c)) * v.e
    return V(f, e)


def vint(row, vs):
    """sum row[i]*vs[i], integer coefficients"""
    it = row.items() if isinstance(row, dict) else enumerate(row)
    f, e = {}, 0.0
    for i, c in it:
        if not c:
            continue
        v = vs[i]
        for k, w in v.f.items():
            f[k] = f.get(k, 0) + c * w
        if v.e:
            e += abs(c) * v.e
    return V(f, e)


def vsub(a, b):
    return V(sub(a.f, b.f), a.e + b.e)


class Claim:
    """|L - R| <= tol + sum w*|x| for all values"""
    __slots__ = ("name", "L", "R", "tol", "w", "rel")

    def __init__(self, name, L, R, tol=None, w=None):
        self.name, self.L, self.R, self.tol, self.w = name, L, R, tol, w


class G:
    """what a claims function sees: groups of values, metadata, and free vectors"""

    def __init__(self, groups, meta, free, tau, symbolic):
        self.groups, self.meta, self._free, self.tau, self.symbolic = groups, meta, free, tau, symbolic

    def __getitem__(self, k):
        if k not in self.groups:
            raise CheckError("result %s is missing" % k)
        return self.groups[k]

    def free(self, i):
        return self._free(i)

    def fixed(self, name):
        """a group of constants as fixed-point numbers"""
        out = []
        for v in self[name]:
            if any(k != () for k in v.f):
                raise CheckError("%s is not constant" % name)
            out.append(v.f.get((), 0))
        return out

    def matrix(self, name, comps=1):
        """rows of a constant matrix: dicts column -> fixed-point number (comps=2: of pairs)"""
        r, c = [int(x) for x in self.meta["shape:" + name].split(",")]
        d = self.fixed(name)
        if comps == 1:
            return [{j: d[i * c + j] for j in range(c) if d[i * c + j]} for i in range(r)], (r, c)
        return [{j: (d[2 * (i * c + j)], d[2 * (i * c + j) + 1]) for j in range(c)
                 if d[2 * (i * c + j)] or d[2 * (i * c + j) + 1]} for i in range(r)], (r, c)


class Violation(Exception):
    def __init__(self, data):
        self.data = data


class Stats(dict):
    def add(self, k, n=1):
        self[k] = self.get(k, 0) + n


K_UNIFORM, K_WEIGHTED = 64, 120  # fraction bits of the integers sent to the solver; what they cut off is added to the query
TAU = {53: 1e-9, 24: 5e-4}


def sym_groups(res, fs):
    out = {}
    for name, refs in res["groups"].items():
        l = []
        for r in refs:
            f, e, _ = fs.get(r)
            l.append(V(f, e, r))
        out[name] = l
    return out


def native_groups(nres):
    out = {}
    for name, vals in nres["values"].items():
        l = []
        for b in vals:
            x = f64(b)
            if not math.isfinite(x):
                l.append(None)
            else:
                l.append(V({(): fx_of_float(x)} if x else {}))
        out[name] = l
    return out


def input_values(ninputs, model, ranges):
    v = []
    for i in range(ninputs):
        x = float(model.get(i, Fraction(0)))
        if i in ranges and i not in model:
            x = float(ranges[i][0])
        v.append(x)
    return v


def native(case, vals, which=None):
    kv = dict(case["kv"])
    kv["vals"] = ",".join(str(bits(x)) for x in vals) or ","
    which = which or case.get("native") or ("q" if case.get("single") else "d")
    return run(which, kv, timeout=case.get("timeout", 120))


def eval_form(f, vals, atoms=None):
    s = Fraction(0)
    for k, v in f.items():
        t = Fraction(v, ONE)
        for var, e in E.mkey(k):
            t *= Fraction(vals[var]) ** e
        s += t
    return s


def claims_of(case, g):
    import claims as C
    return getattr(C, "claims_" + case["claims"])(g, case)


def value_of(v, free):
    """constant form to Fraction"""
    if v is None:
        return None
    return Fraction(v.f.get((), 0), ONE)


def replay_claim(case, ci, tol, vals, freevals, factor=0.5):
    """is claim number ci broken by the real code on these inputs? returns (broken, description)"""
    nres = native(case, vals)
    if nres["status"] in ("panic", "crash", "timeout"):
        return True, "the call ends with %s: %s" % (nres["status"], nres["msg"])
    if nres["status"] != "ok":
        raise CheckError("replay: " + nres["msg"])
    if "concrete" in nres:
        pass
    groups = native_groups(nres) if "values" in nres else concrete_groups(nres)
    bad = [n for n, l in groups.items() if any(x is None for x in l)]
    g = G({n: [x if x is not None else V({}) for x in l] for n, l in groups.items()}, nres["meta"],
          lambda i: const(fx_of_float(freevals.get(i, 0.0))), case.get("tau", TAU[53]), False)
    cl = claims_of(case, g)
    c = cl[ci]
    d = abs(value_of(c.L, None) - value_of(c.R, None))
    lim = Fraction(tol if tol is not None else 0)
    if c.w:
        for w, v in c.w:
            lim += Fraction(w) * abs(value_of(v, None))
    desc = "%s: got %.17g, expected %.17g" % (c.name, float(value_of(c.L, None)), float(value_of(c.R, None)))
    if bad:
        return True, "%s; not finite: %s" % (desc, bad[:3])
    return d > lim * Fraction(factor), desc


def concrete_groups(res):
    """groups of a run of the symbolic binary on constants"""
    out = {}
    for name, refs in res["groups"].items():
        l = []
        for r in refs:
            if r >= 0:
                raise CheckError("not concrete")
            x = f64(res["consts"][-r - 1])
            l.append(V({(): fx_of_float(x)} if x else {}) if math.isfinite(x) else None)
        out[name] = l
    return out


def decide(case, res, fs, cl, st, span, solvername="z3", info=None):
    """queries for all claims of one path; returns list of (claim index, model) for satisfiable ones"""
    info = {} if info is None else info
    single = case.get("single", False)
    tau = case.get("tau", TAU[24 if single else 53])
    K = K_WEIGHTED if any(c.w is not None for c in cl) else K_UNIFORM
    if span < 1:
        K += math.ceil(-math.log2(span))
    q = Question(fs, ranges=case.get("ranges", {}), span=span, K=K)
    homog = fs is None or not fs.atoms
    body = []
    idx = []
    ndrop = 0
    ydecl = set()
    same = 0
    for ci, c in enumerate(cl):
        if c.L.r is not None and c.L.r == c.R.r:
            same += 1
            continue
        # the difference as a normalised polynomial, not yet judged: its size is for the solver to bound
        df = sub(c.L.f, c.R.f)
        homog = homog and () not in df
        d = q.lin(df)
        if c.w is None:
            if c.tol is None:
                l1 = sum(abs(fl(v)) * (fs.mbound(k) if fs else 1.0) for k, v in c.R.f.items())
                l2 = sum(abs(fl(v)) * (fs.mbound(k) if fs else 1.0) for k, v in c.L.f.items())
                c.tol = tau * max(1.0, min(l1, 1e300)) if l1 > 0 else tau * max(1.0, 0 * l2)
            e = (c.L.e + c.R.e) * span
            t = c.tol * span
            if e > t / 4:
                ndrop += 1
                e = 0.0
            T = max(int(t * 2 ** K) - int((len(df) + 2) * max(span, 1.0)), 0)
            if e > 0:
                ee = num(int(e * 2 ** K) + 1)
                body.append("(push 1)(declare-const e Real)(assert (<= (- %s) e %s))(assert (let ((d (+ %s e))) (or (> d %d) (< d (- %d)))))(check-sat)(pop 1)" % (ee, ee, d, T, T))
            else:
                body.append("(push 1)(assert (let ((d %s)) (or (> d %d) (< d (- %d)))))(check-sat)(pop 1)" % (d, T, T))
        else:
            # weights: sum w*|x|
            t = []
            agg = {}
            for w, v in c.w:
                for k, x in v.f.items():
                    agg[k] = agg.get(k, 0.0) + w * abs(fl(x))
            base = int((c.tol or 0.0) * span * 2 ** K)
            for k, w in agg.items():
                W = int(w * 2 ** K)
                if k == ():
                    base += W
                    continue
                q.need(k)
                n = E.vname(k)
                if n not in ydecl:
                    ydecl.add(n)
                    q.head.append("(declare-const y%s Real)(assert (and (>= y%s %s) (>= y%s (- %s))))" % (n, n, n, n, n))
                t.append("(* %d y%s)" % (W, n))
            t.append(num(base))
            wt = "(+ %s)" % " ".join(t) if len(t) > 1 else t[0]
            body.append("(push 1)(assert (let ((d %s) (w %s)) (or (> d w) (< d (- w)))))(check-sat)(pop 1)" % (d, wt))
        idx.append(ci)
    if same:
        # identical terms of the expression graph: one query in the theory of uninterpreted functions
        eqs = " ".join("(= n%s n%s)" % (nm(c.L.r), nm(c.R.r)) for c in cl if c.L.r is not None and c.L.r == c.R.r)
        ds = "".join("(declare-const n%s U)" % n for n in sorted({nm(c.L.r) for c in cl if c.L.r is not None and c.L.r == c.R.r}))
        body.append("(push 1)(declare-sort U 0)%s(assert (not (and %s)))(check-sat)(pop 1)" % (ds, eqs))
        idx.append(None)
    nonlin = any(op == 7 for op, _, _ in (fs.atoms.values() if fs else []))
    head = ("" if nonlin or same else "(set-logic QF_LRA)") if solvername.startswith("z3") else "(set-logic ALL)"
    base = head + "".join(q.head)
    long = bool(fs and fs.res["path"])
    sol = solver(solvername)
    t0 = sol.time
    # first without the path condition: what holds for every input holds on the path
    todo = list(range(len(body)))
    if long:
        ans = verdicts(sol, base, body, 60)
        if ans is not None:
            todo = [n for n in todo if ans[n] != "unsat"]
    sat = []
    lost = 0
    pre = base
    if long and todo:
        q.add_path()
        pre = head + "".join(q.head) + "".join("(assert %s)" % p for p in q.pathtext)
    if not long or todo:
        ans = verdicts(sol, pre, [body[n] for n in todo], 40 if long else case.get("solver_timeout", 200))
        if ans is None and not long:
            raise SolverTime("solver time limit")
        if ans is None:
            # a path that depends on the data and is too long for the solver: counted, not judged
            lost = len(todo)
            st.add("undecided", lost)
        else:
            for n, a in zip(todo, ans):
                if a == "sat":
                    sat.append((idx[n], body[n]))
                elif a == "unknown":
                    raise SolverTime("solver: unknown")
                elif a != "unsat":
                    raise CheckError("solver: %s" % a)
    st.add("solver_s", sol.time - t0)
    st.add("queries", len(idx))
    st.add("claims", len(cl))
    st.add("same", same)
    st.add("eps_dropped", ndrop)
    st.add("sat", len(sat))
    st.add("unsat", len(idx) - len(sat) - lost)
    out = []
    for ci, b in sat[:case.get("maxsat", 4)]:
        names = [n for n, k in q.decl.items() if isinstance(k, int) and k >= 0] + (
            [n for n, k in q.decl.items() if not isinstance(k, int)])
        b2 = b.replace("(check-sat)(pop 1)", "(check-sat)")
        ans = sol.ask(pre + b2 + ("(get-value (%s))" % " ".join(names) if names else ""), timeout=100)
        if ans is None:
            raise CheckError("solver time limit (model)")
        model = {}
        if names and ans and ans.startswith("sat"):
            s = ans[3:].strip()
            for n, val in parse_model(s):
                k = q.decl[n]
                model[k] = val
        out.append((ci, model))
    # settled without the path condition, for data of every size
    if not todo and homog and not case.get("ranges"):
        info["scales"] = True
    return out, len(sat)


def verdicts(sol, pre, body, timeout):
    """one answer per query, or None when the time is up"""
    ans = sol.ask(pre + "\n".join(body), timeout=timeout)
    if ans is None:
        return None
    ans = ans.split()
    if len(ans) != len(body):
        raise CheckError("solver answered %d of %d queries: %s" % (len(ans), len(body), ans[:5]))
    return ans


def nm(r):
    return "c%d" % (-r) if r < 0 else str(r)


def parse_model(s):
    """((x1 (/ 1 2)) (x2 3.0)) -> pairs"""
    out = []
    depth, start, i = 0, None, 0
    while i < len(s):
        c = s[i]
        if c == "(":
            depth += 1
            if depth == 2:
                start = i
        elif c == ")":
            if depth == 2:
                n, v = s[start + 1:i].split(None, 1)
                out.append((n, E.parse_num(v)))
            depth -= 1
        i += 1
    return out


def feasible_model(case, fs, span):
    """a model of the path condition, or None"""
    q = Question(fs, ranges=case.get("ranges", {}), span=span)
    q.add_path()
    names = [n for n, k in q.decl.items() if isinstance(k, int) and k >= 0]
    pre = "".join(q.head) + "".join("(assert %s)" % p for p in q.pathtext)
    ans = solver().ask(pre + "(check-sat)" + ("(get-value (%s))" % " ".join(names) if names else ""), timeout=60) \
        if names or q.pathtext else "sat"
    if ans is None or not ans.startswith("sat"):
        if ans is not None and ans.startswith("unsat"):
            return None
        raise CheckError("solver: path condition: %s" % (ans or "")[:80])
    model = {}
    for n, val in parse_model(ans[3:].strip()):
        model[q.decl[n]] = val
    return model


# ------------------------------------------------------------------ one case
def label(case):
    return " ".join("%s=%s" % (k, v if len(v) < 160 else "%s...(%d)" % (v[:120], v.count(",") + 1)) for k, v in case["kv"].items())


def nonok(case, res, fs, st, span):
    """a run that did not end normally: a violation if the real code does the same on some input"""
    if res["status"] == "unsupported":
        raise NotEncoded("%s: %s" % (label(case), res["msg"]))
    if res["status"] == "harness":
        raise CheckError("%s: %s" % (label(case), res["msg"]))
    model = {}
    if res.get("path"):
        f = Forms(dict(res, groups={}))
        model = feasible_model(case, f, span)
        if model is None:
            return None
    vals = input_values(max(res.get("ninputs", 64), 64), {k: v for k, v in model.items() if isinstance(k, int)}, case.get("ranges", {}))
    if not model:
        rnd = random.Random(case.get("seed", 1))
        vals = [rnd.uniform(*case.get("ranges", {}).get(i, (-1, 1))) for i in range(len(vals))]
    nres = native(case, vals)
    st.add("replays")
    if nres["status"] in ("panic", "crash", "timeout"):
        return {"case": case, "claim": None, "vals": vals, "free": {}, "tol": None,
                "what": "%s: the call ends with %s: %s" % (label(case), nres["status"], nres["msg"][:300])}
    if res["status"] == "timeout":
        raise SolverTime("symbolic run")
    raise CheckError("%s: symbolic run ends with %s (%s), native run with %s" % (label(case), res["status"], res["msg"][:300], nres["status"]))


def mono_inputs(case, model, tries):
    """inputs from a model that also assigns monomials: fix the scales, solve for the rest"""
    tup = {k: v for k, v in model.items() if not isinstance(k, int)}
    base = {k: v for k, v in model.items() if isinstance(k, int)}
    if not tup:
        return [base]
    out = []
    rg = case.get("ranges", {})
    rnd = random.Random(7)
    for t in range(tries):
        m = dict(base)
        for v, (lo, hi) in rg.items():
            m[v] = Fraction(rnd.uniform(lo, hi)).limit_denominator(64)
        for k, val in tup.items():
            for v, e in k:
                if v not in rg:
                    m[v] = Fraction(1 if val >= 0 else -1)
        out.append(m)
    return out


def one_path(case, res, st, span, seed, first, info):
    """claims of one path; returns a violation or None"""
    eq = case.get("eq")
    nin = res["ninputs"]
    u = 2.0 ** -24 if case.get("single") else 2.0 ** -53
    free = lambda i: V({nin + i: ONE})
    if eq and not res["nodes"]:
        groups = {}
        cf = [fx_of_float(f64(b)) if math.isfinite(f64(b)) else None for b in res["consts"]]
        for name, refs in res["groups"].items():
            groups[name] = [V(({(): cf[-r - 1]} if cf[-r - 1] else {}) if r < 0 else {}, 0.0, r) for r in refs]
        g = G(groups, res["meta"], free, case.get("tau", TAU[53]), True)
        cl = claims_of(case, g)
        diff = [c for c in cl if c.L.r != c.R.r or (c.L.r is None and c.L.f != c.R.f)]
        # derived values of this mode are only the integer claims
        if not diff:
            fs = None
            # equal terms are equal on every path and for data of every size
            decide(case, res, Forms(dict(res, path=[], groups={})), cl, st, span)
            info["scales"] = True
            return native_check(case, res, None, cl, st, seed, nin) if first else None
        kv = dict(case["kv"], cone="1")
        res = run("s", kv, timeout=case.get("timeout", 120))
        if res["status"] != "ok":
            raise CheckError("second run: " + res["msg"])
        st.add("refined")
    t = time.time()
    fs = Forms(res, ranges=case.get("ranges"), u=u)
    st.add("ops", fs.count)
    g = G(sym_groups(res, fs), res["meta"], free, case.get("tau", TAU[53]), True)
    cl = claims_of(case, g)
    st.add("encode_s", time.time() - t)
    sat, nsat = decide(case, res, fs, cl, st, span, info=info)
    notes = []
    for ci, model in sat:
        c = cl[ci]
        for m in mono_inputs(case, model, 6):
            vals = input_values(nin, {k: v for k, v in m.items() if k < nin}, case.get("ranges", {}))
            fr = {k - nin: float(v) for k, v in m.items() if k >= nin}
            st.add("replays")
            tol = c.tol * span if c.tol is not None else None
            bad, desc = replay_claim(case, ci, tol, vals, fr)
            if bad:
                return {"case": case, "claim": ci, "name": c.name, "tol": tol, "vals": vals, "free": fr,
                        "what": "%s: %s" % (label(case), desc)}
            notes.append(desc)
    if sat and res["path"]:
        # values next to the border of the path: the real code takes the other branch there
        st.add("undecided", nsat)
    elif sat:
        raise CheckError("%s: the solver finds a violation (%d) that the real code does not show: %s" % (label(case), nsat, notes[:2]))
    if first:
        return native_check(case, res, fs if not res["path"] else None, cl, st, seed, nin)
    return None


def not_finite(case, seed):
    """the real code at a random point: does a result come out infinite or undefined?"""
    rnd = random.Random(seed)
    rg = case.get("ranges", {})
    vals = [rnd.uniform(*rg.get(i, (-1.0, 1.0))) for i in range(4096)]
    nres = native(case, vals)
    if nres["status"] != "ok":
        return vals, "the call ends with %s: %s" % (nres["status"], nres["msg"][:300])
    ng = native_groups(nres) if "values" in nres else concrete_groups(nres)
    bad = ["%s[%d]" % (n, l.index(None)) for n, l in ng.items() if None in l]
    return vals, "not finite: %s" % ", ".join(bad[:4]) if bad else None


def native_check(case, res, fs, cl, st, seed, nin):
    """the encoding against the real code, at a random point"""
    if case.get("nonative"):
        return None
    rnd = random.Random(seed * 1000003 + hash_str(label(case)))
    rg = case.get("ranges", {})
    vals = [rnd.uniform(*rg.get(i, (-1.0, 1.0))) for i in range(nin)]
    nres = native(case, vals)
    st.add("native")
    if nres["status"] != "ok":
        return {"case": case, "claim": None, "vals": vals, "free": {}, "tol": None,
                "what": "%s: the call ends with %s: %s" % (label(case), nres["status"], nres["msg"][:300])}
    rndf = {}

    def fr(i):
        if i not in rndf:
            rndf[i] = rnd.uniform(-1, 1)
        return const(fx_of_float(rndf[i]))
    ng = native_groups(nres) if "values" in nres else concrete_groups(nres)
    bad = [n for n, l in ng.items() if any(x is None for x in l)]
    g = G({n: [x if x is not None else V({}) for x in l] for n, l in ng.items()}, nres["meta"], fr, case.get("tau", TAU[53]), False)
    ncl = claims_of(case, g)
    if len(ncl) != len(cl):
        bad.append("number of claims")
    for ci, (c, d) in enumerate(zip(ncl, cl)):
        dist = abs(value_of(c.L, None) - value_of(c.R, None))
        lim = Fraction(d.tol if d.tol is not None else TAU[24 if case.get("single") else 53])
        if c.w:
            for w, v in c.w:
                lim += Fraction(w) * abs(value_of(v, None)) + Fraction(w) * Fraction(1, 100)
        if dist > 2 * lim or bad:
            return {"case": case, "claim": ci, "name": c.name, "tol": d.tol, "vals": vals, "free": rndf,
                    "what": "%s: %s: got %.17g, expected %.17g %s" % (label(case), c.name, float(value_of(c.L, None)), float(value_of(c.R, None)), bad)}
    if fs is not None and not fs.atoms:
        # encoder: every result of the real code against the form of the symbolic run
        worst = 0.0
        for n, l in ng.items():
            for i, r in enumerate(res["groups"][n]):
                f, e, m = fs.get(r)
                ex = math.fsum(fl(w) * math.prod(vals[v] ** p for v, p in E.mkey(k)) for k, w in f.items())
                d = abs(ex - float(value_of(l[i], None)))
                lim = 64 * e + (1e-4 if case.get("single") else 1e-10) * max(1.0, m)
                if d > lim:
                    raise CheckError("%s: encoding of %s[%d] gives %r, the real code %r" % (label(case), n, i, ex, float(value_of(l[i], None))))
        st.add("encoder_points")
    return None


class SolverTime(CheckError):
    """no verdict in the time given: the case is counted as undecided"""


class NotEncoded(CheckError):
    """the code does something to its data that has no encoding (a conversion to an integer, a bit pattern)"""


def not_encoded(case, st, msg):
    """nothing is decided here; the claims are at least evaluated on the compiled code at some points. All cases of a check like this: an error"""
    st.add("not_encoded")
    if case.get("func") or case.get("nonative"):
        return None
    rnd = random.Random(case.get("seed", 1) * 7919 + hash_str(label(case)))
    rg = case.get("ranges", {})
    for k in range(8):
        sc = (1.0, 1.0, 1e-6, 1e6, 1.0, 1.0, 30.0, 1.0)[k]
        vals = [rnd.uniform(*rg[i]) if i in rg else rnd.uniform(-sc, sc) * (k not in (4, 5) or rnd.random() < 0.1) for i in range(4096)]
        nres = native(case, vals)
        st.add("native")
        if nres["status"] != "ok":
            return {"case": case, "claim": None, "vals": vals, "free": {}, "tol": None,
                    "what": "%s: the call ends with %s: %s" % (label(case), nres["status"], nres["msg"][:300])}
        ng = native_groups(nres) if "values" in nres else concrete_groups(nres)
        fr = {}

        def free(i):
            if i not in fr:
                fr[i] = rnd.uniform(-1, 1)
            return const(fx_of_float(fr[i]))
        if any(x is None for l in ng.values() for x in l):
            return {"case": case, "claim": None, "vals": vals, "free": {}, "tol": None, "what": "%s: not finite" % label(case)}
        g = G(ng, nres["meta"], free, case.get("tau", TAU[53]), False)
        top = max([abs(float(value_of(x, None))) for l in ng.values() for x in l] + [sc])
        for ci, c in enumerate(claims_of(case, g)):
            lim = (c.tol or 0.0) * sc + top * (1e-3 if case.get("single") else 1e-7)
            if abs(value_of(c.L, None) - value_of(c.R, None)) > 2 * lim:
                return {"case": case, "claim": ci, "name": c.name, "tol": lim, "vals": vals, "free": fr,
                        "what": "%s: %s: got %.17g, expected %.17g" % (label(case), c.name, float(value_of(c.L, None)), float(value_of(c.R, None)))}
    return None


def hash_str(s):
    h = 0
    for c in s.encode():
        h = (h * 131 + c) & 0xFFFFFFFF
    return h


def do_case(case):
    st = Stats()
    t0 = time.time()
    out = {"label": label(case), "violation": None, "error": None}
    try:
        if case.get("func"):
            import claims
            out["violation"] = getattr(claims, case["func"])(case, st)
        else:
            explore(case, st, out)
    except NotEncoded as e:
        out["violation"] = not_encoded(case, st, str(e))
        out["note"] = "%s: %s" % (label(case), e)
    except SolverTime as e:
        st.add("undecided_time")
        out["note"] = "%s: %s" % (label(case), e)
    except CheckError as e:
        out["error"] = "%s: %s" % (label(case), e)
    except Exception as e:  # noqa
        import traceback
        out["error"] = "%s: %s" % (label(case), traceback.format_exc()[-1500:])
    st["wall"] = time.time() - t0
    out["stats"] = dict(st)
    return out


def explore(case, st, out):
    work, seen, npath = [""], {""}, 0
    t_start = time.time()
    cap = case.get("paths", 24)
    seed = case.get("seed", 1)
    while work:
        dec = work.pop(0)
        if npath >= cap or (npath and time.time() - t_start > case.get("path_s", 25)):
            st.add("truncated")
            break
        kv = dict(case["kv"])
        if dec:
            kv["dec"] = dec
        if case.get("single"):
            kv["single"] = "1"
        kv["cone"] = "0" if case.get("eq") else "1"
        c2 = dict(case, kv=dict(case["kv"], **({"dec": dec} if dec else {}), **({"single": "1"} if case.get("single") else {})))
        t = time.time()
        res = run("s", kv, timeout=case.get("timeout", 120))
        st.add("run_s", time.time() - t)
        npath += 1
        st.add("paths")
        st.add("inputs", res.get("ninputs", 0))
        st.add("nodes", res.get("nnodes", 0))
        if res["status"] == "panic" and case.get("mayrefuse"):
            st.add("refused")
            continue
        info = {}
        for spn in ([1.0, 1e6, 1e-9] if res.get("path") else [1.0]):
            if info.get("scales"):
                break
            if res["status"] not in ("ok", "unsupported", "harness") and res.get("path") and not res["nodes"]:
                res = run("s", dict(kv, cone="1"), timeout=case.get("timeout", 120))
            if res["status"] != "ok":
                v = nonok(c2, res, None, st, spn)
            else:
                try:
                    v = one_path(c2, res, st, spn, seed, npath == 1 and spn == 1.0, info)
                except E.NonFinite:
                    vals, what = not_finite(c2, seed)
                    st.add("replays")
                    if what is None:
                        raise
                    v = {"case": c2, "claim": None, "vals": vals, "free": {}, "tol": None, "what": "%s: %s" % (label(case), what)}
            if v:
                out["violation"] = v
                return
        p = res.get("path") or []
        flags = "".join(str(x[3]) for x in p)
        for i in range(len(dec), len(flags)):
            d = flags[:i] + ("0" if flags[i] == "1" else "1")
            if d not in seen and len(seen) < 4 * cap:
                seen.add(d)
                work.append(d)
