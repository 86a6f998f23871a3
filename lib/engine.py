"""Build the harness, run scenarios, turn their expression graphs into exact (Laurent) polynomial forms
with a bound on the rounding error of the floating-point run, and put questions about them to an SMT solver."""
import ctypes, json, math, os, select, signal, struct, subprocess, sys, time
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")
TGT = os.path.join(BUILD, "t")
LIBC = ctypes.CDLL(None)


def die_with_parent():
    """a child ends when the worker that started it ends (PR_SET_PDEATHSIG)"""
    LIBC.prctl(1, 9)


F = 256  # fraction bits of the fixed-point numbers
ONE = 1 << F


class CheckError(Exception):
    """the check itself could not decide"""


class NonFinite(CheckError):
    """an infinite or undefined number enters a result"""


# ------------------------------------------------------------------ building
def cargo_env(extra=None):
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = "--cfg funspace_verif -A warnings"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    if extra:
        e.update(extra)
    return e


def build(bins):
    os.makedirs(BUILD, exist_ok=True)
    args = ["cargo", "build", "--offline", "--quiet", "--target-dir", TGT]
    for b in bins:
        args += ["--bin", b]
    t = time.time()
    r = subprocess.run(args, cwd=os.path.join(ROOT, "harness"), env=cargo_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=800)
    if r.returncode != 0:
        raise CheckError("the harness does not build against /repo:\n" + r.stdout[-20000:])
    return time.time() - t


# ------------------------------------------------------------------ running scenarios
class Runner:
    """one process of the harness, fed with one case per line; restarted when it dies"""

    def __init__(self, which):
        self.which = which
        self.p = None
        self.buf = b""

    def start(self):
        self.p = subprocess.Popen([os.path.join(TGT, "debug", self.which)], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=die_with_parent)
        os.set_blocking(self.p.stderr.fileno(), False)
        self.buf = b""

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
                for f in (self.p.stdin, self.p.stdout, self.p.stderr):
                    f.close()
            except Exception:
                pass
            self.p = None

    def line(self, deadline):
        fd = self.p.stdout.fileno()
        parts = [self.buf]
        while True:
            if b"\n" in parts[-1]:
                whole = b"".join(parts)
                a, b = whole.split(b"\n", 1)
                self.buf = b
                return a
            left = deadline - time.time()
            if left <= 0:
                return "timeout"
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                return "timeout"
            d = os.read(fd, 1 << 20)
            if not d:
                return "dead"
            parts.append(d)

    def run(self, kv, timeout=60.0):
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        s = " ".join("%s=%s" % (k, v) for k, v in kv.items() if v is not None) + "\n"
        deadline = time.time() + timeout
        try:
            self.p.stdin.write(s.encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        a = self.line(deadline)
        if isinstance(a, bytes):
            a = self.line(deadline)
        if a == "timeout":
            self.stop()
            return {"status": "timeout", "msg": "no answer within %g s" % timeout}
        if a == "dead":
            rc = self.p.wait()
            try:
                err = self.p.stderr.read() or b""
            except Exception:
                err = b""
            self.stop()
            return {"status": "crash", "msg": "process ended with status %d: %s" % (rc, err[-600:].decode("utf8", "replace"))}
        return json.loads(a)


_runners = {}


def run(which, kv, timeout=60.0):
    if which not in _runners:
        _runners[which] = Runner(which)
    return _runners[which].run(kv, timeout)


def f64(bits):
    return struct.unpack("<d", struct.pack("<Q", bits))[0]


def bits(x):
    return struct.unpack("<Q", struct.pack("<d", float(x)))[0]


def fx_of_float(c):
    """exact fixed-point value (rounded toward minus infinity below 2^-F)"""
    m, d = float(c).as_integer_ratio()
    return (m << F) // d


def fx(q):
    q = Fraction(q)
    return (q.numerator << F) // q.denominator


def fl(v):
    """fixed point to float"""
    try:
        return v / ONE
    except OverflowError:
        return math.inf


# ------------------------------------------------------------------ forms
# A form is a dict: monomial -> fixed-point coefficient. Monomials: an int v (the variable v), or a sorted tuple of
# (variable, exponent) pairs; () is 1. Variables 0.. are the inputs, negative ones are atoms (results of operations
# that are not polynomial), each with a definition.
def mkey(k):
    return ((k, 1),) if isinstance(k, int) else k


def mmul(a, b):
    d = dict(mkey(a))
    for v, e in mkey(b):
        d[v] = d.get(v, 0) + e
    t = tuple(sorted((v, e) for v, e in d.items() if e != 0))
    return t[0][0] if len(t) == 1 and t[0][1] == 1 else t


def minv(a):
    return mmul((), tuple((v, -e) for v, e in mkey(a)))


class Forms:
    """forms and rounding bounds of the nodes of one symbolic run"""

    def __init__(self, res, ranges=None, u=2.0 ** -53, want=None):
        self.res = res
        self.u = u
        self.ranges = ranges or {}
        self.atoms = {}  # negative var -> (op, form)
        self.arange = {}
        self.consts = [f64(b) for b in res["consts"]]
        self.cfx = [fx_of_float(c) if math.isfinite(c) else None for c in self.consts]
        self.form = {}
        self.eps = {}
        self.mag = {}
        self.nonlin = False
        nodes = res["nodes"]
        left = {}
        for i, op, a, b in nodes:
            if op != 0:
                left[a] = left.get(a, 0) + 1
                if op < 5 or op == 9:
                    left[b] = left.get(b, 0) + 1
        for v in res["groups"].values():
            for r in v:
                left[r] = left.get(r, 0) + 1
        for _, a, b, _ in res["path"]:
            left[a] = left.get(a, 0) + 1
            left[b] = left.get(b, 0) + 1
        self.count = 0
        for i, op, a, b in nodes:
            self.node(i, op, a, b)
            if op != 0:
                for x in ((a, b) if (op < 5 or op == 9) else (a,)):
                    left[x] -= 1
                    if left[x] == 0 and x >= 0:
                        self.form.pop(x, None)

    def rng(self, v):
        """bounds of |v| and of 1/|v|"""
        if v in self.arange:
            return self.arange[v], math.inf
        lo, hi = self.ranges.get(v, (-1.0, 1.0))
        m = max(abs(lo), abs(hi))
        return m, (1.0 / min(abs(lo), abs(hi)) if lo * hi > 0 else math.inf)

    def mbound(self, k):
        if isinstance(k, int):
            return self.rng(k)[0]
        b = 1.0
        for v, e in k:
            hi, inv = self.rng(v)
            b *= hi ** e if e > 0 else inv ** (-e)
        return b

    def get(self, r):
        """(form, eps, magnitude) of a reference"""
        if r < 0:
            c = self.consts[-r - 1]
            if not math.isfinite(c):
                raise NonFinite("constant %r reaches a result" % c)
            return ({(): self.cfx[-r - 1]} if c != 0 else {}), 0.0, abs(c)
        return self.form[r], self.eps[r], self.mag[r]

    def l1(self, f):
        if not self.ranges and not self.atoms and not self.nonlin:
            return fl(sum(map(abs, f.values())))
        return sum(abs(fl(v)) * self.mbound(k) for k, v in f.items())

    def node(self, i, op, a, b):
        self.count += 1
        u = self.u
        if op == 0:
            self.form[i] = {a: ONE}
            self.eps[i] = 0.0
            self.mag[i] = self.rng(a)[0]
            return
        fa, ea, ma = self.get(a)
        if op == 5:
            self.form[i] = {k: -v for k, v in fa.items()}
            self.eps[i], self.mag[i] = ea, ma
            return
        if op in (6, 7, 8, 10):
            if op == 8 or op == 10:
                raise CheckError("operation %d on symbolic values" % op)
            v = -1 - len(self.atoms)
            self.atoms[v] = (op, fa, ea)
            self.arange[v] = ma if op == 6 else math.sqrt(ma) + 1e-9
            self.form[i] = {v: ONE}
            self.eps[i] = ea if op == 6 else math.sqrt(ea) + u * self.arange[v]
            self.mag[i] = self.arange[v]
            return
        fb, eb, mb = self.get(b)
        if op == 1 or op == 2:
            f = dict(fa)
            if op == 1:
                for k, v in fb.items():
                    w = f.get(k, 0) + v
                    if w:
                        f[k] = w
                    else:
                        f.pop(k, None)
            else:
                for k, v in fb.items():
                    w = f.get(k, 0) - v
                    if w:
                        f[k] = w
                    else:
                        f.pop(k, None)
            e = ea + eb
        elif op == 3 or op == 9:
            if b < 0 or a < 0:
                if b < 0:
                    c, g, eg, mg = self.consts[-b - 1], fa, ea, ma
                else:
                    c, g, eg, mg = self.consts[-a - 1], fb, eb, mb
                if not math.isfinite(c):
                    raise NonFinite("product with a non-finite constant")
                n, d = c.as_integer_ratio()
                s = d.bit_length() - 1
                f = {k: (v * n) >> s for k, v in g.items()} if n else {}
                e = abs(c) * eg
            else:
                self.nonlin = True
                f = {}
                for k, v in fa.items():
                    for l, w in fb.items():
                        m = mmul(k, l)
                        x = f.get(m, 0) + ((v * w) >> F)
                        if x:
                            f[m] = x
                        else:
                            f.pop(m, None)
                e = ma * eb + mb * ea + ea * eb
        elif op == 4:
            if b < 0:
                c = self.consts[-b - 1]
                if c == 0 or not math.isfinite(c):
                    raise NonFinite("division by %r" % c)
                n, d = c.as_integer_ratio()
                f = {k: (v * d) // n for k, v in fa.items()}
                e = ea / abs(c)
            elif len(fb) == 1:
                self.nonlin = True
                (k, v), = fb.items()
                inv = minv(k)
                f = {mmul(l, inv): (w << F) // v for l, w in fa.items()}
                lo = abs(fl(v)) / self.mbound(inv) if math.isfinite(self.mbound(inv)) else 0.0
                e = (ea + eb * ma / lo) / lo if lo > 0 else math.inf
            else:
                raise CheckError("division by a symbolic sum")
        else:
            raise CheckError("unknown operation %d" % op)
        m = self.l1(f)
        self.form[i] = f
        self.mag[i] = m
        self.eps[i] = e + (0.0 if op == 9 else u * (m + e)) + 1e-300


def forms_of(fs, refs):
    return [fs.get(r)[0] for r in refs]


def comb(row, forms):
    """sum of row[i]*forms[i]; row: dict or list of fixed-point numbers"""
    f = {}
    it = row.items() if isinstance(row, dict) else enumerate(row)
    for i, c in it:
        if c == 0:
            continue
        for k, v in forms[i].items():
            f[k] = f.get(k, 0) + ((c * v) >> F)
    return f


def sub(f, g):
    d = dict(f)
    for k, v in g.items():
        d[k] = d.get(k, 0) - v
    return d


# ------------------------------------------------------------------ SMT
K = 120  # fraction bits of the integers sent to the solver


class Solver:
    def __init__(self, cmd=("z3", "-in")):
        self.cmd = list(cmd)
        self.p = None
        self.queries = 0
        self.time = 0.0
        self.depth = 0

    def start(self):
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=die_with_parent)
        self.buf = b""
        self.out = []

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def ask(self, script, timeout=60.0):
        """runs a self-contained script after (reset); returns output lines up to the end marker"""
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        t = time.time()
        data = ("(reset)\n" + script + '\n(echo "@@end")\n').encode()
        fdi, fdo = self.p.stdin.fileno(), self.p.stdout.fileno()
        os.set_blocking(fdi, False)
        pos, got = 0, b""
        deadline = t + timeout
        while True:
            left = deadline - time.time()
            if left <= 0:
                self.stop()
                self.time += time.time() - t
                return None
            w = [fdi] if pos < len(data) else []
            r, w, _ = select.select([fdo], w, [], left)
            if w:
                try:
                    pos += os.write(fdi, data[pos:pos + (1 << 16)])
                except BrokenPipeError:
                    self.stop()
                    raise CheckError("solver died")
            if r:
                d = os.read(fdo, 1 << 16)
                if not d:
                    self.stop()
                    raise CheckError("solver died: " + got[-300:].decode())
                got += d
                if b"@@end" in got:
                    break
        self.time += time.time() - t
        s = got.decode().split("@@end")[0].strip()
        if "(error" in s:
            raise CheckError("solver reports " + s[:500])
        return s


_solvers = {}


def solver(name="z3"):
    if name not in _solvers:
        cmd = {"z3": ("z3", "-in"), "z3-new": ("z3-new", "-in"), "cvc5": ("cvc5", "--incremental", "--produce-models", "--lang=smt2")}[name]
        _solvers[name] = Solver(cmd)
    return _solvers[name]


def num(i):
    return str(i) if i >= 0 else "(- %d)" % -i


def vname(k):
    if isinstance(k, int):
        return "x%d" % k if k >= 0 else "a%d" % -k
    return "m" + "".join("_%s%d_%s%d" % ("" if v >= 0 else "a", abs(v), "" if e >= 0 else "i", abs(e)) for v, e in k)


def lin(f, K=K):
    """term of a form with integer coefficients scaled by 2^K"""
    sh = F - K
    t = []
    c0 = 0
    for k, v in f.items():
        w = v >> sh
        if k == ():
            c0 += w
        elif w:
            t.append("(* %s %s)" % (num(w), vname(k)))
    if c0 or not t:
        t.append(num(c0))
    return "(+ %s)" % " ".join(t) if len(t) > 1 else t[0]


def parse_num(s):
    """an SMT-LIB real term to a Fraction"""
    s = s.replace("(", " ( ").replace(")", " ) ").split()

    def go(i):
        if s[i] == "(":
            op = s[i + 1]
            a, i = go(i + 2)
            if op == "-" and s[i] == ")":
                return -a, i + 1
            b, i = go(i)
            assert s[i] == ")"
            return (a / b if op == "/" else a - b), i + 1
        return Fraction(s[i]), i + 1

    return go(0)[0]


class Question:
    """declarations shared by the queries of one case (inputs, monomials, atoms, path condition)"""

    def __init__(self, fs, ranges=None, span=1.0, K=K):
        self.fs = fs
        self.K = K
        self.span = span
        self.decl = {}
        self.head = []
        self.pathtext = []
        self.ranges = ranges or {}

    def add_path(self):
        fs = self.fs
        for rel, a, b, taken in fs.res["path"]:
            fa, ea, _ = fs.get(a)
            fb, eb, _ = fs.get(b)
            e = "pe%d" % len(self.pathtext)
            bound = num(int((ea + eb) * self.span * 2 ** self.K) + 2)
            self.head.append("(declare-const %s Real)(assert (<= (- %s) %s %s))" % (e, bound, e, bound))
            d = "(+ %s %s)" % (self.lin(sub(fa, fb)), e)
            c = {"<": "(< %s 0)", "<=": "(<= %s 0)", "=": "(= %s 0)"}[rel] % d
            self.pathtext.append(c if taken else "(not %s)" % c)

    def need(self, k):
        n = vname(k)
        if n in self.decl or k == ():
            return
        self.decl[n] = k
        if isinstance(k, int) and k < 0:
            op, f, _ = self.fs.atoms[k]
            t = self.lin(f)
            if op == 6:
                self.head.append("(declare-const %s Real)(assert (= (* %d %s) (ite (>= %s 0) %s (- %s))))" % (n, 1 << self.K, n, t, t, t))
            else:
                self.head.append("(declare-const %s Real)(assert (>= %s 0))(assert (= (* %d %s %s) %s))" % (n, n, 1 << self.K, n, n, t))
            return
        if isinstance(k, int):
            lo, hi = self.ranges.get(k, (-self.span, self.span))
        else:
            b = self.fs.mbound(k)
            if not math.isfinite(b):
                raise CheckError("unbounded monomial")
            b = b * 1.0000001
            lo, hi = -b, b
        lo, hi = Fraction(lo), Fraction(hi)
        q = lambda x: "(/ %s %d)" % (num(x.numerator), x.denominator) if x.denominator != 1 else num(x.numerator)
        self.head.append("(declare-const %s Real)(assert (<= %s %s %s))" % (n, q(lo), n, q(hi)))

    def lin(self, f):
        for k in f:
            self.need(k)
        return lin(f, self.K)
