"""run.py <property> <tier> | run.py replay <file>"""
import json, math, multiprocessing as mp, os, sys, time, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, engine
from engine import ROOT, CheckError


def known():
    f = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known:"):
                # known: property=<id> <text that the description of the violation starts with>
                a = l[6:].strip().split(None, 1)
                out.append((a[0].split("=", 1)[1], a[1]))
    return out


def init():
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def run_cases(cases, jobs=8, budget=None, stop=True):
    t0 = time.time()
    tot = core.Stats()
    viol, errs, slow, done, notes = [], [], [], 0, []
    skipped = 0
    with mp.Pool(jobs, initializer=init) as pool:
        for r in pool.imap_unordered(core.do_case, cases, chunksize=1):
            done += 1
            for k, v in r["stats"].items():
                tot.add(k, v)
            slow.append((r["stats"]["wall"], r["label"]))
            if r["violation"]:
                viol.append(r["violation"])
                if stop and len(viol) >= 1:
                    break
            if r.get("note"):
                notes.append(r["note"])
            if r["error"]:
                errs.append(r["error"])
                if len(errs) > 20:
                    break
            if budget and time.time() - t0 > budget:
                skipped = len(cases) - done
                break
        pool.terminate()
    if 2 * len(notes) > done and not viol:
        errs.append("%d of %d cases are not decided (no encoding or no time): %s" % (len(notes), done, notes[0]))
    slow.sort(reverse=True)
    return viol, errs, tot, done, skipped, slow[:5]


def small(case):
    kv = case["kv"]
    n = [int(x) for k in ("n", "sizes", "shape") for x in str(kv.get(k, "")).split(",") if x.isdigit()]
    return bool(n) and math.prod(n) <= 12


def describe(cases):
    """the bounds of a run, taken from its cases"""
    keys = {}
    for c in cases:
        for k, v in c["kv"].items():
            keys.setdefault(k, set()).add(v)
    out = {}
    for k, v in sorted(keys.items()):
        if all(x.isdigit() for x in v):
            xs = sorted(int(x) for x in v)
            r, i = [], 0
            while i < len(xs):
                j = i
                while j + 1 < len(xs) and xs[j + 1] == xs[j] + 1:
                    j += 1
                r.append(str(xs[i]) if i == j else "%d..%d" % (xs[i], xs[j]))
                i = j + 1
            out[NAMES.get(k, k)] = ",".join(r)
        else:
            xs = sorted(v)
            out[NAMES.get(k, k)] = " ".join(xs) if len(xs) <= 24 else " ".join(xs[:24]) + " ... (%d in all)" % len(xs)
    out["precision"] = "f64" + (" and f32" if any(c.get("single") for c in cases) else "")
    return out


NAMES = {"sc": "scenarios", "kind": "bases", "kinds": "space bases", "n": "base sizes", "sizes": "space sizes", "t": "coefficients (r real, c complex)", "d": "derivative orders",
         "op": "operations", "dim": "array rank", "p": "processes", "var": "variants", "S": "stencil read", "what": "matrices", "li": "input slice lengths", "lo": "output slice lengths",
         "sin": "input shapes", "sout": "output shapes", "seq": "call sequences", "sched": "schedules", "nt": "threads"}
DOMAIN = ("every array entry is a real variable over [-1,1] (linear operations: the claims are homogeneous, so the verdict scales with the data); sizes, shapes, "
          "axes, orders, process counts and schedules are the concrete ones listed under bounds; paths that depend on the data are forked and all explored")


def write_json(path, d):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(d, f, indent=1, default=str)


def replay(path):
    d = json.load(open(path))
    if d.get("kind") == "kani":
        import kani
        bad, text = kani.replay_native(d["harness"], d["vals"])
        print(("broken: " if bad else "not broken: ") + text)
        return 1 if bad else 0
    if d.get("kind") == "bound":
        text = uncallable()
        print("broken: " + text if text else "not broken: every operation can be called")
        return 1 if text else 0
    engine.build(["s", "d"] + (["q"] if d["case"].get("single") else []))
    case = d["case"]
    case["ranges"] = {int(k): tuple(v) for k, v in case.get("ranges", {}).items()}
    if case.get("func") == "func_util":
        import claims
        bad, desc = claims.util_broken(case, d["vals"])
        print(("broken: " if bad else "not broken: ") + desc)
        return 1 if bad else 0
    if case.get("func") == "func_limits":
        import claims
        bad, desc = claims.limits_broken(case, d["vals"])
        print(("broken: " if bad else "not broken: ") + desc)
        return 1 if bad else 0
    if d["claim"] is None:
        r = core.native(case, d["vals"])
        bad = [n for n, l in r.get("values", {}).items() for b in l if not math.isfinite(engine.f64(b))] if r["status"] == "ok" else []
        print(r["status"], r["msg"], "not finite: %s" % bad[:4] if bad else "")
        return 1 if r["status"] != "ok" or bad else 0
    bad, desc = core.replay_claim(case, d["claim"], d["tol"], d["vals"], {int(k): v for k, v in d["free"].items()})
    print(("broken: " if bad else "not broken: ") + desc)
    return 1 if bad else 0


def uncallable():
    """an operation of the crate that no supported type can call: the crate builds, and the f64 scenarios,
    which call every operation on every supported combination, fail with an unsatisfiable bound of the crate"""
    import re
    try:
        engine.build(["d"])
        return None
    except CheckError as e:
        t = str(e)
    m = re.search(r"required by a bound in `(funspace::[\w:<>]+)`", t)
    b = re.search(r"the trait bound `[^`]*` is not satisfied|the trait `[^`]*` is not implemented for `[^`]*`", t)
    if "error[E0277]" in t and m and b and "could not compile `funspace`" not in t:
        return "%s cannot be called on a supported space: %s" % (m.group(1), b.group(0))
    return None


def main(argv):
    if argv[0] == "replay":
        return replay(argv[1])
    if argv[0] == "setup":
        engine.build(["s", "d", "q"])
        return 0
    prop, tier = argv[0], argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import plan
    P = plan.plan(prop, tier, seed)
    extra = {}
    viol, errs = [], []
    try:
        bt = engine.build(P["bins"])
        cases = P["cases"]
        for c in cases:
            c["seed"] = seed
        # small cases first: a broken property shows in seconds, then the largest first
        cases = [c for c in cases if small(c)] + [c for c in cases if not small(c)]
        v, e, tot, done, skipped, slow = run_cases(cases, budget=P.get("budget", 500 if tier == "quick" else 720))
        viol += v
        errs += e
        for fn in P.get("extra", []):
            if viol:
                break
            import kani
            v, e, info = getattr(kani, fn)(tier, seed)
            viol += v
            errs += e
            extra.update(info)
    except CheckError as e:
        text = uncallable() if prop == "P12" and "does not build" in str(e) else None
        if text:
            f = os.path.join(ROOT, "evidence", "replay", "%s-0.json" % prop)
            write_json(f, {"kind": "bound", "what": text})
            print("property %s is broken: %s" % (prop, text))
            print("VIOLATION property=%s replay=%s" % (prop, f))
            return 1
        print("CHECK-ERROR property=%s %s" % (prop, str(e)[-4000:]))
        return 2
    kn = known()
    new = []
    for v in viol:
        k = [t for p, t in kn if p == prop and v["what"].startswith(t)]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0]))
        else:
            new.append(v)
    rnd = random.Random(seed)
    samples = rnd.sample([core.label(c) for c in cases], min(6, len(cases))) if cases else []
    cov = {
        "states": int(tot.get("paths", 0)), "transitions": int(tot.get("nodes", 0) + tot.get("ops", 0)),
        "traces_validated_against_impl": int(tot.get("native", 0)),
        "samples": samples + extra.pop("samples", []),
        "explanation": "states: symbolic paths executed to their end; transitions: symbolic operations executed by the real code or translated to solver terms; traces: runs of the compiled code at a random point compared with the encoding and the claims",
        "cases": len(cases), "cases_done": done, "cases_skipped_for_time": skipped,
        "functions_encoded": P["functions"], "bounds": describe(cases), "symbolic_domain": P.get("domain", DOMAIN), "outside": P.get("outside", ""),
        "symbolic_inputs": int(tot.get("inputs", 0)), "claims": int(tot.get("claims", 0)),
        "queries": int(tot.get("queries", 0)), "unsat": int(tot.get("unsat", 0)), "sat": int(tot.get("sat", 0)),
        "identical_terms": int(tot.get("same", 0)), "replays": int(tot.get("replays", 0)),
        "cases_refined_to_arithmetic": int(tot.get("refined", 0)),
        "claims_undecided_on_long_paths": int(tot.get("undecided", 0)), "cases_without_encoding": int(tot.get("not_encoded", 0)), "cases_undecided_for_time": int(tot.get("undecided_time", 0)), "paths_truncated": int(tot.get("truncated", 0)), "layouts_refused": int(tot.get("refused", 0)), "rounding_bound_dropped": int(tot.get("eps_dropped", 0)),
        "encoder_points": int(tot.get("encoder_points", 0)),
        "solver_s": round(tot.get("solver_s", 0), 2), "encode_s": round(tot.get("encode_s", 0), 2),
        "build_s": round(bt, 2), "slowest": ["%.1f s %s" % s for s in slow],
    }
    cov.update(extra)
    write_json(os.path.join(ROOT, "evidence", prop + ".json"),
               {"property": prop, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"), "coverage": cov,
                "errors": errs[:10], "wall_s": round(time.time() - t0, 2)})
    if new:
        for i, v in enumerate(new[:3]):
            f = os.path.join(ROOT, "evidence", "replay", "%s-%d.json" % (prop, i))
            write_json(f, v)
            print("property %s is broken: %s" % (prop, v["what"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    if errs:
        for e in errs[:5]:
            print("CHECK-ERROR property=%s %s" % (prop, e))
        return 2
    left = int(tot.get("undecided_time", 0) + tot.get("not_encoded", 0))
    if left:
        print("%d cases are not decided (see the evidence)" % left)
    print("property %s: %d cases, %d queries, %d paths, %.1f s" % (prop, done, tot.get("queries", 0), tot.get("paths", 0), time.time() - t0))
    return 0
