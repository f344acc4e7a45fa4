"""Run CBMC on emitted C and classify every obligation."""
import json, os, re, subprocess, time
from front import Unsupported
import cgen

CBMC = "cbmc"
HERE = os.path.dirname(os.path.abspath(__file__))


class Result:
    def __init__(self, name):
        self.name = name
        self.status = "ERROR"      # PROVED | FAILED | BOUNDED | ERROR
        self.obligations = 0
        self.discharged = 0
        self.failed = []           # [(description, inputs)]
        self.reach = 0
        self.time = 0.0
        self.note = ""
        self.functions = []
        self.cmd = ""
        self.backend = "cbmc 6.11 (SAT)"
        self.models = []
        self.dropped = []
        self.loops_cut = []
        self.log = ""


class Group:
    """One CBMC harness.

    body: C text; @{qualified::name} / @{name|type-substring} -> extracted C function,
          @T{class} -> extracted struct type.  Entry point: void harness(void).
    pre:  C text emitted before the extracted bodies (stub definitions); after struct defs.
    """
    def __init__(self, name, body, pre="", stubs=None, loops=None, unwind=None, flags=(), defines="",
                 timeout=300, bounded=None, unwindset=None, checks=True, ptr_fields=(), split=0):
        self.name, self.body, self.pre = name, body, pre
        self.stubs, self.loops = stubs or {}, loops or {}
        self.unwind, self.flags, self.defines, self.timeout = unwind, tuple(flags), defines, timeout
        self.bounded = bounded
        self.unwindset = unwindset or {}
        self.checks = checks
        self.ptr_fields = ptr_fields
        self.split = split        # discharge every obligation in a solver run of its own, this many at a time

    def generate(self, ix, path):
        g = cgen.CGen(ix, self.stubs, self.loops, self.ptr_fields, dict(containers=self.defines))
        def sub_fn(m):
            f = ix.find(m.group(1).strip())
            n = g.need(f)
            g.run()
            return n
        def sub_ty(m):
            return g.ctype(g.ty.parse(m.group(1).strip()))
        def sub_gv(m):
            q = m.group(1).strip().replace("dcsbwt::", "dcsbwt_bwtc::").replace("utils::", "utils_bwtc::")
            v = ix.var_qual.get(q)
            if v is None:
                raise Unsupported("variable %s not found in the current source" % q)
            return g.const_var(v)
        def subst(t):
            t = re.sub(r"@T\{([^}]*)\}", sub_ty, t)
            t = re.sub(r"@G\{([^}]*)\}", sub_gv, t)
            return re.sub(r"@\{([^}]*)\}", sub_fn, t)
        pre, body = subst(self.pre), subst(self.body)
        structs, protos, funcs = g.text()
        with open(path, "w") as f:
            f.write(self.defines + '\n#include "%s/models.h"\n' % HERE)
            f.write(structs + "\n" + pre + "\n" + protos + "\n" + funcs + "\n\n" + body + "\n")
        return g

    def run(self, ix, work):
        r = Result(self.name)
        t0 = time.time()
        path = os.path.join(work, re.sub(r"\W+", "_", self.name) + ".c")
        try:
            g = self.generate(ix, path)
        except Unsupported as e:
            r.status, r.note = "ERROR", "extraction: %s" % e
            return r
        except (KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
            r.status, r.note = "ERROR", "extraction: internal %s: %s" % (type(e).__name__, e)
            return r
        r.functions = sorted(set(g.qual_of.values()))
        r.models = sorted(g.used_models)
        r.dropped = sorted(g.dropped)
        r.loops_cut = ["%s loop %d" % (q, k) for q, d in self.loops.items() for k in d if isinstance(k, int)]
        cmd = [CBMC, path, "--function", "harness", "--json-ui", "--trace", "--slice-formula", "--object-bits", "10",
               "--no-standard-checks"]
        if self.checks:
            cmd += ["--bounds-check", "--pointer-check", "--div-by-zero-check", "--signed-overflow-check",
                    "--undefined-shift-check", "--pointer-primitive-check"]
        if self.unwind:
            cmd += ["--unwind", str(self.unwind), "--unwinding-assertions"]
        for k, v in self.unwindset.items():
            cmd += ["--unwindset", "%s:%d" % (k, v)]
        cmd += list(self.flags)
        r.cmd = " ".join(cmd)
        if "--z3" in self.flags:
            r.backend = "cbmc 6.11 + z3 (SMT)"
        elif "cadical" in self.flags:
            r.backend = "cbmc 6.11 (SAT, cadical)"
        late = ""
        if self.split:
            res, note, late = self.one_by_one(cmd)
        else:
            res, note = run_cbmc(cmd, self.timeout)
        r.time = time.time() - t0
        if res is None:
            r.note = note
            return r
        unwind_fail = []
        reach_ok = reach_bad = 0
        for q in res:
            d = q.get("description", "")
            if d.startswith("REACH:"):
                if q["status"] == "FAILURE":
                    reach_ok += 1
                else:
                    reach_bad += 1
                    r.note += " vacuous: %s;" % d
                continue
            r.obligations += 1
            if q["status"] == "SUCCESS":
                r.discharged += 1
            elif "unwind" in q.get("property", "") or "unwinding assertion" in d or d.startswith("model: "):
                unwind_fail.append(d + " " + q.get("property", ""))
            elif q["status"] == "FAILURE":
                r.failed.append((d, inputs_of(q.get("trace", [])), q.get("property", "")))
            else:
                r.note += " %s: %s;" % (q["status"], d)
                r.status = "ERROR"
        r.reach = reach_ok
        if reach_bad or reach_ok == 0:
            r.status = "ERROR"
            r.note += " vacuity guard: %d of %d reachability marks reached" % (reach_ok, reach_ok + reach_bad)
            if r.failed and not unwind_fail:
                r.status = "FAILED"
        elif r.failed:
            r.status = "FAILED"
        elif unwind_fail:
            r.status = "BOUNDED"
            r.note += " unwinding/capacity not proved: %s" % "; ".join(unwind_fail[:3])
        elif r.obligations and r.discharged == r.obligations:
            r.status = "BOUNDED" if self.bounded else "PROVED"
            if self.bounded:
                r.note += " bounded: " + self.bounded
        if late and r.status != "FAILED":
            r.status = "ERROR"
            r.note += " cbmc: timeout after %d s: %s" % (self.timeout, late)
        return r

    def one_by_one(self, cmd):
        import concurrent.futures as cf
        try:
            p = subprocess.run([c for c in cmd if c != "--trace"] + ["--show-properties"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            props = [q["name"] for x in json.loads(p.stdout.decode(errors="replace")) for q in x.get("properties", ())]
        except (subprocess.TimeoutExpired, ValueError, KeyError) as e:
            return None, "cbmc: no property list: %s" % e, ""
        res, late = [], []
        with cf.ThreadPoolExecutor(max_workers=self.split) as ex:
            for q, (one, note) in zip(props, ex.map(lambda q: run_cbmc(cmd + ["--property", q], self.timeout), props)):
                if one is None:
                    if "timeout" not in note:
                        return None, note, ""
                    late.append(q)
                    continue
                res += [x for x in one if x.get("property") == q]
        return res, "", ", ".join(late[:3])


def run_cbmc(cmd, timeout):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "cbmc: timeout after %d s" % timeout
    out = p.stdout.decode(errors="replace")
    try:
        js = json.loads(out)
    except ValueError:
        return None, "cbmc: unreadable output: " + (out + p.stderr.decode(errors="replace"))[-600:]
    res, msgs = None, []
    for x in js:
        if "result" in x:
            res = x["result"]
        if x.get("messageType") == "ERROR":
            msgs.append(x.get("messageText", ""))
    if res is None:
        return None, "cbmc: no result: " + " | ".join(msgs)[-800:]
    return res, ""


def inputs_of(trace):
    """Last value of every harness variable named IN_* (arrays: IN_a[i])."""
    out = {}
    for s in trace:
        if s.get("stepType") == "assignment":
            l = s.get("lhs", "")
            if l.startswith("IN_") and "value" in s:
                put(out, re.sub(r"\[(\d+)[uUlL]*\]", r"[\1]", l), s["value"])
    return out


def put(out, name, v):
    if "data" in v:
        out[name] = re.sub(r"(?<=\d)[uUlL]+$", "", str(v["data"]))
    elif "elements" in v:
        for e in v["elements"]:
            put(out, "%s[%s]" % (name, e.get("index")), e.get("value", {}))
    elif "members" in v:
        for e in v["members"]:
            put(out, "%s.%s" % (name, e.get("name")), e.get("value", {}))
