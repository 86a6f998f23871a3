"""Bounded model checking with Kani (CBMC): harnesses of /verif/kani, judged per check, counterexamples replayed natively."""
import json, os, re, subprocess, time
import engine
from engine import ROOT, BUILD, CheckError

TGT = os.path.join(BUILD, "k")
IGNORED = ("NaN on ",)  # a NaN result is not an error in floating-point code
TOLERANT = ("unwinding assertion", "is not currently supported by Kani", "reached unsupported", "recursion unwinding")


def env():
    e = engine.cargo_env()
    for k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    return e


def cargo_kani(names, jobs, timeout, playback=False):
    js = os.path.join(BUILD, "kani.json")
    if os.path.exists(js):
        os.remove(js)
    args = ["cargo", "kani", "--target-dir", TGT, "--lib", "-Z", "unstable-options", "--no-assertion-reach-checks",
            "--harness-timeout", "%ds" % timeout, "--exact"]
    if playback:
        args += ["-Z", "concrete-playback", "--concrete-playback=print"]
    else:
        args += ["--output-into-files", "--export-json", js, "-j", str(jobs), "--output-format", "terse"]
    for n in names:
        args += ["--harness", n]
    try:
        r = subprocess.run(args, cwd=os.path.join(ROOT, "kani"), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout * (1 + len(names) // jobs) + 120)
        out = r.stdout
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        subprocess.run(["pkill", "-f", "--", TGT])
    d = json.load(open(js)) if os.path.exists(js) else None
    return out, d


def replay_native(name, vals):
    """runs the body of a harness natively; True if it panics"""
    e = engine.cargo_env()
    t = os.path.join(BUILD, "kr")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--target-dir", t], cwd=os.path.join(ROOT, "kani"), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0:
        raise CheckError("kanifun does not build: " + r.stdout[-1000:])
    r = subprocess.run([os.path.join(t, "debug", "kanifun"), name] + vals, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    bad = r.returncode == 101
    if name.endswith("_reject"):
        bad = bad and "a difference was accepted" in r.stdout
    return bad, r.stdout


def counterexamples(out):
    """the values of every generated playback test"""
    res = []
    for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        vs = re.findall(r"vec!\[([0-9, ]*)\]", m.group(1))
        res.append(["".join("%02x" % int(x) for x in v.split(",") if x.strip()) for v in vs])
    return res


def run(names, tier, jobs, timeout):
    viol, errs, notes = [], [], []
    t0 = time.time()
    out, d = cargo_kani(names, jobs, timeout)
    info = {"harnesses": names, "checks": 0, "verified": 0, "inconclusive": notes, "bounds": "see the bounds in kani/src/lib.rs: every harness name is NAME_PROCESSES_CONTIGUOUS-AXIS; "
            "extents up to 2^bits-1, ranks all, loops unwound completely (unwinding assertions on)"}
    if d is None:
        notes.append("Kani did not run: " + out[-400:])
        return viol, errs, {"kani": info}
    seen = set()
    for r in d["verification_results"]["results"]:
        n = r["harness_id"]
        seen.add(n)
        checks = r["checks"]
        info["checks"] += len(checks)
        bad, soft, reached = [], [], False
        for c in checks:
            ds, st = c.get("description", ""), c["status"]
            if "PROP: reached" in ds:
                reached = st == "Satisfied"
                continue
            if st in ("Success", "Satisfied", "Unreachable") or ds.startswith(IGNORED):
                continue
            if n.endswith("_reject") and "a difference was accepted" not in ds:
                if any(t in ds for t in TOLERANT):
                    soft.append(ds)
                continue
            if st == "Failure" and not any(t in ds for t in TOLERANT):
                bad.append("%s (%s)" % (ds, c.get("function", "")))
            else:
                soft.append("%s: %s" % (st, ds))
        if bad:
            o, _ = cargo_kani([n], 1, timeout, playback=True)
            cex = counterexamples(o)
            ok = False
            for vals in cex:
                hit, text = replay_native(n, vals)
                if hit:
                    viol.append({"kind": "kani", "harness": n, "vals": vals, "what": "Kani harness %s with values %s (hex, in order): %s\n%s" % (n, vals, bad[:3], text[-600:])})
                    ok = True
                    break
            if not ok:
                if any("PROP" in b for b in bad):
                    errs.append("Kani reports %s in %s; no counterexample of %d reproduced" % (bad[:3], n, len(cex)))
                else:
                    notes.append("%s: %s, not reproduced natively" % (n, bad[:3]))
            if viol:
                break
        elif soft or not checks:
            notes.append("%s: %s" % (n, soft[:3] or "no answer (time or memory)"))
        elif not reached:
            errs.append("Kani harness %s never reaches its assertions" % n)
        else:
            info["verified"] += 1
    for n in names:
        if n not in seen:
            notes.append("%s: no answer" % n)
    info["cbmc_s"] = round(sum(x["cbmc_stats"].get("runtime_decision_procedure_s", 0) for x in d.get("cbmc", []) if x.get("cbmc_stats")), 1)
    info["vccs"] = sum(x["cbmc_stats"].get("vccs_generated", 0) for x in d.get("cbmc", []) if x.get("cbmc_stats"))
    info["wall_s"] = round(time.time() - t0, 1)
    return viol, errs, {"kani": info}


def kani_p17(tier, seed):
    ps = range(1, 5) if tier == "quick" else range(1, 8)
    names = ["table_%d_%d" % (p, c) for p in reversed(ps) for c in (0, 1)]
    return run(names, tier, 6 if tier == "quick" else 4, 250 if tier == "quick" else 400)


def kani_p18(tier, seed):
    return run(["counts_2", "counts_1"] + ([] if tier == "quick" else ["counts_3"]), tier, 3 if tier == "quick" else 2, 350 if tier == "quick" else 500)


def kani_p19(tier, seed):
    ns = ["gathers_2_0", "gathers_2_1", "gathers_1_0", "gathers_3_1"]
    if tier != "quick":
        ns += ["gathers_3_0", "gathers_4_0", "gathers_4_1"]
    return run(ns, tier, 4 if tier == "quick" else 3, 350 if tier == "quick" else 400)


def kani_p21(tier, seed):
    ns = ["approx_d1_accept", "approx_d1_reject", "approx_s3_accept", "approx_s3_reject", "approx_dc1_accept", "approx_dc1_reject", "approx_sc2_accept", "approx_sc2_reject",
          "approx_nd1_accept", "approx_nd1_reject", "approx_ns2_reject", "approx_nc1_accept", "approx_nc1_reject"]
    if tier != "quick":
        ns += ["approx_d2_accept", "approx_d2_reject"]
    return run(ns, tier, 6, 180 if tier == "quick" else 400)
