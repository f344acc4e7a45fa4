"""Driver of one property check.   usage: check.py Cxx   (VERIF_TIER, VERIF_SEED in the environment)

Outcome ladder (DESIGN.md):
  1. every obligation generated from the current source is discharged   -> exit 0
  2. an obligation fails and an input makes the real code fail          -> VIOLATION, exit 1
  3. an obligation fails, no failing input found                        -> VIOLATION ... no-failing-input-found, exit 1
  4. the source is outside the extractor's reach / tool limit           -> the bounded stand-in decides, labelled, exit 0/1
The native stand-in (the real compiled code against the executable contract) always runs too.
"""
import concurrent.futures as cf
import glob, importlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "props"))
import front
from cbmc import Result

REPO = front.REPO


class Native:
    """A C++ harness compiled against /repo's current sources."""
    def __init__(self, src, seconds=8, thorough_seconds=120, cxx=("-O1",), link=(), bound="", includes_all=True):
        self.src, self.seconds, self.thorough_seconds = src, seconds, thorough_seconds
        self.cxx, self.link, self.bound = tuple(cxx), tuple(link), bound

    def build(self, work, san=False):
        src = os.path.join(VERIF, "props", self.src)
        exe = os.path.join(work, os.path.basename(self.src) + (".san" if san else "") + ".bin")
        objs = []
        txt = open(src).read()
        if "ALL_REPO" in txt:
            for c in sorted(glob.glob(os.path.join(REPO, "bwtransforms", "*.c"))):
                o = os.path.join(work, os.path.basename(c) + (".san.o" if san else ".o"))
                subprocess.run(["gcc", "-O2", "-w", "-c", c, "-o", o], check=False,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                if os.path.exists(o):
                    objs.append(o)
        # include list of the current sources
        inc = os.path.join(work, "all_repo.inc")
        with open(inc, "w") as f:
            for s in front.repo_sources():
                f.write('#include "%s"\n' % s)
        flags = list(self.cxx) + (["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] if san else [])
        cmd = ["g++", "-std=gnu++17", "-w", "-g0", "-I", HERE, "-I", os.path.join(VERIF, "props"), "-I", REPO, "-I", work] \
            + flags + [src] + objs + ["-o", exe] + list(self.link)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            return None, p.stderr.decode(errors="replace")
        return exe, ""

    def run(self, exe, seed, seconds, thorough=False, replay=None, timeout=None, cwd=None):
        cmd = [exe, "--seed", str(seed), "--seconds", str(seconds)]
        if thorough:
            cmd.append("--thorough")
        if replay:
            cmd += ["--replay", replay[0]] + ["%s=%s" % kv for kv in replay[1].items()]
        env = dict(os.environ, VP_BIN=os.path.join(os.path.dirname(exe), "bin"), ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0",
                   UBSAN_OPTIONS="abort_on_error=1:halt_on_error=1")
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                               timeout=timeout or max(60, seconds * 3 + 60))
            out = p.stdout.decode(errors="replace")
            rc = p.returncode
            err = p.stderr.decode(errors="replace")[-2000:]
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b"").decode(errors="replace")
            rc, err = -1, "timeout"
        r = {"cases": 0, "distinct": 0, "samples": [], "fail": None, "done": False, "stderr": err, "rc": rc, "cmd": " ".join(cmd)}
        for l in out.split("\n"):
            if l.startswith("CASES "):
                a = l.split()
                r["cases"], r["distinct"] = int(a[1]), int(a[2])
            elif l.startswith("SAMPLE "):
                r["samples"].append(l[7:])
            elif l.startswith("FAIL "):
                r["fail"] = l[5:]
            elif l.startswith("KNOWN "):
                r.setdefault("known", []).append(l[6:])
            elif l == "DONE":
                r["done"] = True
        if rc != 0 and not r["fail"]:
            r["fail"] = None
        return r


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"^KNOWN-FINDING: property=(\w+) key=(\S+) (.*)$", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module(pid)
    work = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    try:
        rc = decide(pid, tier, seed, mod, work, evdir, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(pid, tier, seed, mod, work, evdir, t0):
    thorough = tier == "thorough"
    nat = getattr(mod, "NATIVE", None)
    notes = []
    results = []
    budget = float(os.environ.get("VP_BUDGET", "780"))

    # --- native harness build + first run, in parallel with the proofs
    natres = {}
    exe_box = {}

    def native_job():
        if nat is None:
            return
        exe, err = nat.build(work)
        if exe is None:
            natres["build_error"] = err
            return
        exe_box["exe"] = exe
        r = nat.run(exe, seed, nat.thorough_seconds if thorough else nat.seconds, thorough)
        natres.update(r)

    ix = None
    try:
        ix = front.load(work, getattr(mod, "EXTRA_TU", ""))
    except front.FrontError as e:
        notes.append("front end: " + str(e)[-1500:])
    groups = mod.groups(tier)
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        nf = ex.submit(native_job)
        futs = []
        for g in groups:
            if ix is None and getattr(g, "needs_ix", True):
                r = Result(g.name)
                r.note = "front end failed"
                results.append(r)
                continue
            futs.append((g, ex.submit(run_group, g, ix, work)))
        for g, f in futs:
            results.append(f.result())
        nf.result()

    violation = None            # (kind, text, replay dict)
    failed = [r for r in results if r.status == "FAILED"]
    # 1. native harness found a failing input
    known = load_known(pid)
    if natres.get("fail"):
        violation = ("input", natres["fail"], {"cmd": natres.get("cmd")})
    elif natres.get("build_error"):
        notes.append("native harness does not build against the current tree: " + natres["build_error"][-1200:])
    elif nat is not None and not natres.get("done"):
        notes.append("native harness did not finish: rc=%s %s" % (natres.get("rc"), natres.get("stderr", "")[-800:]))
    # 2. replay counterexamples / directed search
    if failed:
        rep = None
        if "exe" in exe_box:
            for r in failed:
                for d, inp, prop in r.failed[:6]:
                    if not inp:
                        continue
                    q = nat.run(exe_box["exe"], seed, 10, True, replay=(r.name, inp), timeout=90)
                    if q["fail"]:
                        rep = (r, d, inp, q)
                        break
                if rep:
                    break
            if rep is None and violation is None:
                left = budget - (time.time() - t0)
                if left > 30:
                    secs = min(150, left - 20)
                    jobs = [seed + 1000 + i for i in range(6)]
                    with cf.ThreadPoolExecutor(max_workers=6) as ex:
                        for q in ex.map(lambda s: nat.run(exe_box["exe"], s, secs, True, timeout=secs + 60), jobs):
                            if q["fail"] and violation is None:
                                violation = ("input", q["fail"], {"cmd": q["cmd"]})
        if rep:
            r, d, inp, q = rep
            violation = ("input", q["fail"], {"obligation": d, "group": r.name, "counterexample": inp, "cmd": q["cmd"]})
        elif violation is None:
            r = failed[0]
            violation = ("obligation", "%s: %s" % (r.name, r.failed[0][0]),
                         {"verifier_output": r.log[-6000:]})

    # --- evidence
    obl = sum(r.obligations for r in results)
    dis = sum(r.discharged for r in results)
    proved = [r for r in results if r.status == "PROVED"]
    bounded = [r for r in results if r.status == "BOUNDED"]
    errors = [r for r in results if r.status == "ERROR"]
    funcs = sorted({f for r in results for f in r.functions})
    dropped = sorted({d for r in results for d in r.dropped})
    models = sorted({m for r in results for m in r.models})
    trusted = list(getattr(mod, "TRUSTED", [])) + [
        "clang 18 AST of the current /repo sources and the extractor in /verif/vlib (C++ -> C / Rust, structural)",
        "CBMC 6.11 with its bundled SAT solver / Verus with Z3, as applicable"]
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": (results[0].cmd if results and results[0].cmd else "bash /verif/check.sh " + pid),
        "trusted_base": trusted,
        "functions_under_contract": funcs,
        "groups": [{"name": r.name, "status": r.status, "obligations": r.obligations, "discharged": r.discharged,
                    "backend": r.backend, "solver_s": round(r.time, 2), "reachability_marks": r.reach,
                    "loops_with_invariants": r.loops_cut, "note": r.note.strip()} for r in results],
        "proved_groups": len(proved), "bounded_groups": len(bounded), "undecided_groups": len(errors),
        "solver_s_total": round(sum(r.time for r in results), 2),
        "models_and_stubs": models, "extraction_drops": dropped,
    }
    if nat is not None:
        cov["native_stand_in"] = {
            "what": "the real compiled code against the executable contract; bounded, never counted as proved",
            "bound": nat.bound, "evaluations": natres.get("cases", 0), "distinct_nontrivial": natres.get("distinct", 0),
            "samples": natres.get("samples", [])[:6], "finished": bool(natres.get("done"))}
        cov["evaluations"] = natres.get("cases", 0)
        cov["distinct_nontrivial"] = natres.get("distinct", 0)
        cov["samples"] = natres.get("samples", [])[:6]
        cov["rule"] = "native cases; distinct by full input description, non-trivial when the case exercises more than the empty path"
    cov["explanation"] = getattr(mod, "EXPLANATION", "")
    if errors:
        cov["explanation"] += " Undecided on this tree (bounded stand-in only): " + "; ".join(
            "%s: %s" % (r.name, r.note.strip()[:200]) for r in errors)
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed,
          "level": getattr(mod, "LEVEL", "proof"), "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + notes,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for r in results:
        print("%-7s %-46s %4d/%-4d %6.1fs %s" % (r.status, r.name[:46], r.discharged, r.obligations, r.time, r.note.strip()[:240]))
    for n in notes:
        print("note:", n[:800])
    if nat is not None:
        print("native  %s cases, %s distinct%s" % (natres.get("cases"), natres.get("distinct"),
                                                  "" if natres.get("done") else " (not finished)"))
    for k in natres.get("known", ()):
        for key, txt in known:
            if k.split()[0] == key:
                print("KNOWN-FINDING: property=%s %s" % (pid, txt))
                break
        else:
            violation = violation or ("input", k, {})
    for key, txt in getattr(mod, "known_from_proof", lambda *_: [])(results):
        print("KNOWN-FINDING: property=%s %s" % (pid, txt))
    if violation is None:
        return 0
    kind, text, extra = violation
    path = os.path.join(evdir, "replay_%s.json" % pid)
    extra = dict(extra)
    extra.update({"property": pid, "kind": kind, "what": text,
                  "failed_obligations": [{"group": r.name, "obligation": d, "verifier_counterexample": inp, "id": prop}
                                         for r in failed for d, inp, prop in r.failed[:20]],
                  "how_to_replay": "bash /verif/check.sh %s (the harness source is /verif/props/%s)" % (pid, nat.src if nat else "")})
    for r in failed:
        if r.log:
            extra.setdefault("verifier_output", r.log[-6000:])
    with open(path, "w") as f:
        json.dump(extra, f, indent=1)
    print("failing: " + text[:1500])
    print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if kind == "input" else " no-failing-input-found"))
    return 1


def run_group(g, ix, work):
    try:
        return g.run(ix, work)
    except Exception as e:
        r = Result(g.name)
        r.note = "internal: %s: %s" % (type(e).__name__, traceback.format_exc()[-500:])
        return r


if __name__ == "__main__":
    main()
