"""Engine of the checks: encodes the real sources of /repo together with a harness (goto-cc), lets CBMC's SAT
back end decide every assertion for all values of the symbolic inputs within the bounds, and replays every
counterexample (and every reachability witness) natively against the same real sources before believing it."""
import concurrent.futures as cf
import copy, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 8)
MEM = int(3.7 * 1024 ** 3)          # per process; up to NCPU solvers run at once

CBMC_FLAGS = ["--unwinding-assertions", "--no-signed-overflow-check", "--no-undefined-shift-check",
              "--drop-unused-functions", "--no-malloc-may-fail", "--verbosity", "8"]
SAN = ["-fsanitize=address,bounds,object-size,null,unreachable,integer-divide-by-zero,float-cast-overflow,bool",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=97:detect_stack_use_after_return=0",
            "UBSAN_OPTIONS": "halt_on_error=1:exitcode=96"}


class Job:
    """One query batch: a harness entry point with its bounds."""
    def __init__(self, name, harness, entry="harness", srcs=(), defs=(), unwind=4, hunwind=20, unwindset=None,
                 incs=(), conf="std", flags=(), timeout=420, optional=False, bounds="", pre=None,
                 max_unwind=64, cases=None, stubs=(), replaced=()):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.defs = list(defs)
        self.case = ()                 # values of P(0), P(1), ...: one solver query per case
        self.base = name
        self.lock = threading.Lock()

    def split(self):
        """a case split: one query per tuple of constants; together they cover the stated range"""
        if not self.cases:
            return [self]
        r = []
        for c in self.cases:
            j = copy.copy(self)
            j.case = c if isinstance(c, tuple) else (c,)
            j.name = "%s[%s]" % (self.name, ",".join(map(str, j.case)))
            r.append(j)
        return r


class Outcome:
    def __init__(self, job):
        self.job = job
        self.status = "?"          # ok | violation | inconclusive
        self.detail = ""
        self.obligations = self.discharged = 0
        self.reach_total = self.reach_replayed = 0
        self.functions = []
        self.solver_s = 0.0
        self.wall = 0.0
        self.variables = self.clauses = 0
        self.violations = []       # (label, where, values, how)
        self.labels = []
        self.unwind = job.unwind
        self.queries = 0
        self.reach_seen, self.reach_unseen = set(), set()


def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


def run(cmd, timeout, cwd=None, env=None, limit=True):
    """-> (rc, stdout, stderr, timed_out); the whole process group is killed on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         preexec_fn=limits if limit else os.setsid)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace"), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return -9, o.decode("utf8", "replace"), e.decode("utf8", "replace"), True


def inc_flags(job):
    conf = os.path.join(VERIF, "conf", job.conf)
    r = ["-I" + conf] + ["-I" + i for i in job.incs] + ["-I" + REPO + "/gel", "-I" + REPO, "-I" + VERIF + "/harness"]
    return r + ['-DGEL_PAGEMANAGER_CONFIGURATION_HEADER="gel_conf.h"']


def src_path(job, s, work):
    if s.startswith("@"):                      # generated into the work directory
        return os.path.join(work, s[1:])
    if s.startswith("harness/"):
        return os.path.join(VERIF, s)
    return os.path.join(REPO, "gel", s)


def parse_inputs(trace):
    vals = []
    for st in trace:
        if st.get("stepType") != "input":
            continue
        for v in st.get("values", []):
            b = v.get("binary")
            vals.append(int(b, 2) if b is not None else int(re.sub(r"[^0-9-]", "", v["data"])))
    return vals


class Runner:
    def __init__(self, prop, tier, keep=False):
        self.prop, self.tier = prop, tier
        self.work = tempfile.mkdtemp(prefix="vh-%s-" % prop)
        self.replay_dir = os.path.join(VERIF, "out", "replays")
        self.keep = keep
        self.deadline = None

    # ------------------------------------------------------------------ native side
    def build_native(self, job, wd, variant="gcc"):
        with job.lock:                       # shared by all cases of a job
            return self._build_native(job, wd, variant)

    def _build_native(self, job, wd, variant):
        exe = os.path.join(wd, "native-" + variant)
        if os.path.exists(exe):
            return exe, ""
        cc = {"gcc": ["gcc"] + SAN,
              "pattern": ["gcc", "-ftrivial-auto-var-init=pattern"] + SAN,
              "zero": ["gcc", "-ftrivial-auto-var-init=zero"] + SAN,
              "msan": ["clang", "-fsanitize=memory", "-fno-sanitize-recover=all"]}[variant]
        cmd = cc + ["-g", "-O0", "-fwrapv", "-w", "-std=gnu11", "-DVH_ENTRY=vh_" + job.entry] + job.defs + inc_flags(job) + ["-I" + wd]
        cmd += [os.path.join(VERIF, "harness", job.harness), os.path.join(VERIF, "harness/native_main.c")]
        cmd += [src_path(job, s, wd) for s in job.srcs if s not in job.stubs]
        cmd += ["-o", exe, "-lm"]
        rc, o, e, to = run(cmd, 120, limit=False)
        return (exe, "") if rc == 0 else (None, e)

    def replay(self, job, wd, values, variant="gcc", timeout=10):
        exe, err = self.build_native(job, wd, variant)
        if not exe:
            return "build-failed", err[:2000]
        vf = tempfile.NamedTemporaryFile("w", dir=wd, delete=False)
        vf.write("\n".join(str(v) for v in values) + "\n")
        vf.close()
        env = dict(os.environ, **ASAN_ENV)
        rc, o, e, to = run([exe, vf.name] + [str(c) for c in job.case], timeout, limit=False, env=env)
        os.unlink(vf.name)
        txt = o + e
        if to:
            return "hang", txt
        if rc == 99:
            return "check", re.search(r"VH-CHECK-FAILED (.*)", txt).group(1)
        if rc == 77:
            return "assume", txt[-300:]
        if rc == 78:
            return "exhausted", txt[-300:]
        if rc == 0:
            return "clean", txt
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*|[^\n]*Assertion[^\n]*failed[^\n]*|WARNING: MemorySanitizer[^\n]*)", txt)
        return "crash", (m.group(1) if m else "exit status %s" % rc) + "\n" + txt[-3000:]

    # ------------------------------------------------------------------ solver side
    def show_loops(self, gb):
        rc, o, e, to = run(["cbmc", gb, "--show-loops"], 60)
        loops = []
        for part in re.split(r"^Loop ", o, flags=re.M)[1:]:
            m = re.search(r"^\s+file (.*?) line (\d+)", part, re.M)
            loops.append((part.split(":", 1)[0], m.group(1) if m else "<builtin>"))
        return loops

    def run_job(self, job):
        out = Outcome(job)
        t0 = time.time()
        wd = os.path.join(self.work, job.base)
        os.makedirs(wd, exist_ok=True)
        try:
            self._run_job(job, out, wd)
        except Exception as ex:                                        # an error of the machinery, never a verdict
            out.status, out.detail = "inconclusive", "engine error: %r" % ex
        out.wall = time.time() - t0
        return out

    def _run_job(self, job, out, wd):
        if job.pre:
            with job.lock:
                mark = os.path.join(wd, ".prepared")
                if not os.path.exists(mark):
                    err = job.pre(job, wd)
                    if err:
                        out.status, out.detail = "inconclusive", "preparation: " + err
                        return
                    open(mark, "w").close()
        nat = {}
        nt = threading.Thread(target=lambda: nat.update(r=self.build_native(job, wd)))
        nt.start()
        gb = os.path.join(wd, "h%s.gb" % "".join("_%s" % c for c in job.case))
        cmd = ["goto-cc", "-DVH_CBMC", "--function", "vh_" + job.entry, "-o", gb] + ["-DVH_P%d=%s" % ic for ic in enumerate((tuple(job.case) + (0,) * 4)[:max(4, len(job.case))])] + job.defs + inc_flags(job) + ["-I" + wd]
        rc, srcs = 0, [src_path(job, s, wd) for s in job.srcs]
        if job.replaced:                 # functions whose body the harness replaces by a specification that another job decides
            lib = gb[:-3] + "_lib.gb"
            rc, o, e, to = run(["goto-cc", "-c", "-DVH_CBMC", "-o", lib] + job.defs + inc_flags(job) + srcs, 120)
            for f in job.replaced if rc == 0 else ():
                rc, o, e, to = run(["goto-instrument", "--remove-function-body", f, lib, lib], 120)
            srcs = [lib]
        if rc == 0:
            rc, o, e, to = run(cmd + [os.path.join(VERIF, "harness", job.harness)] + srcs, 120)
        nt.join()
        if rc != 0:
            out.status, out.detail = "inconclusive", "goto-cc failed:\n" + (o + e)[-3000:]
            return
        if not nat["r"][0]:
            out.status, out.detail = "inconclusive", "native build failed:\n" + nat["r"][1][-3000:]
            return
        loops = self.show_loops(gb)
        ul, us = job.hunwind, job.unwind
        t_end = time.time() + job.timeout
        while True:
            r = self._solve(job, out, wd, gb, loops, us, ul, t_end)
            if r == "more-unwind":
                most = max(job.max_unwind, job.hunwind + 24)
                if us >= most:
                    out.status, out.detail = "inconclusive", "loops of the code need more than %d unwindings" % us
                    return
                us = min(most, us * 2)
                continue
            return

    def _solve(self, job, out, wd, gb, loops, us, ul, t_end):
        out.unwind = us
        uset = {}
        for lid, f in loops:
            if "/harness/" in f or f.startswith("<builtin") or VERIF in f or os.path.basename(f).startswith("vhgen_"):
                uset[lid] = ul
        for k, v in (job.unwindset or {}).items():
            for lid, f in loops:
                if re.fullmatch(k, lid):
                    uset[lid] = max(v, us) if "/repo/" in f else v
        cmd = ["cbmc", gb, "--json-ui", "--trace", "--unwind", str(us)] + CBMC_FLAGS + list(job.flags)
        if uset:
            cmd += ["--unwindset", ",".join("%s:%d" % kv for kv in sorted(uset.items()))]
        left = max(1, t_end - time.time())
        if "--sat-solver" in cmd or "--smt2" in cmd or "--z3" in cmd:
            rc, o, e, to = run(cmd, left)
        else:                            # MiniSat first, then the other solver: they are slow on different formulas
            rc, o, e, to = run(cmd, max(1, left * 0.45))
            if to:
                rc, o, e, to = run(cmd + ["--sat-solver", "cadical"], max(1, t_end - time.time()))
        if to:
            out.status, out.detail = "inconclusive", "solver did not finish within %d s" % job.timeout
            return
        try:
            js = json.loads(o)
        except ValueError:
            out.status, out.detail = "inconclusive", "cbmc gave no verdict (rc %d): %s" % (rc, (o + e)[-1500:])
            return
        results, msgs = None, []
        for x in js:
            if "result" in x:
                results = x["result"]
            if "messageText" in x:
                msgs.append(x["messageText"])
        if results is None:
            out.status, out.detail = "inconclusive", "cbmc gave no result: " + "\n".join(msgs)[-1500:]
            return
        out.queries += 1
        for m in msgs:
            g = re.match(r"Runtime decision procedure: ([\d.e+-]+)s", m)
            if g:
                out.solver_s += float(g.group(1))
            g = re.match(r"(\d+) variables, (\d+) clauses", m)
            if g:
                out.variables = max(out.variables, int(g.group(1)))
                out.clauses = max(out.clauses, int(g.group(2)))
            if "no body for function" in m.lower() or "no body for callee" in m.lower():
                out.labels.append("note: " + m)
        # every result: reach witnesses must fail, everything else must not
        viol, reach_missing, reach_ok, unw = [], [], [], []
        funcs, obligations, discharged, labels = set(), 0, 0, set()
        for r in results:
            d, st = r.get("description", ""), r.get("status")
            loc = r.get("sourceLocation", {})
            if "/repo/" in loc.get("file", "") or loc.get("file", "").startswith(REPO):
                funcs.add(loc.get("function", "?"))
            if d.startswith("REACH "):
                (reach_ok if st == "FAILURE" else reach_missing).append(r)
                continue
            obligations += 1
            if d.startswith("CHECK "):
                labels.add(d[6:])
            if st == "SUCCESS":
                discharged += 1
            elif st == "FAILURE":
                (unw if "unwinding assertion" in d or "recursion unwinding" in d else viol).append(r)
            else:
                out.status, out.detail = "inconclusive", "undecided assertion: %s (%s)" % (d, st)
                return
        out.functions = sorted(funcs)
        out.obligations, out.discharged = obligations, discharged
        out.labels = sorted(labels)
        out.reach_total = len(reach_ok)
        if unw and not viol:
            hangs = []
            in_code = [r for r in unw if "/repo/" in r.get("sourceLocation", {}).get("file", "")
                       or r.get("sourceLocation", {}).get("file", "").startswith(REPO)
                       or os.path.basename(r.get("sourceLocation", {}).get("file", "")).startswith("rw_")]
            for r in (in_code or unw)[:3]:
                vals = parse_inputs(r.get("trace", []))
                kind, txt = self.replay(job, wd, vals, timeout=5)
                if kind == "hang":
                    hangs.append((r, vals, "does not terminate"))
                elif kind in ("check", "crash"):
                    hangs.append((r, vals, txt))
            if hangs:
                out.status = "violation"
                for r, vals, how in hangs:
                    out.violations.append((r["description"], r.get("sourceLocation", {}), vals, how))
                return
            if not in_code:
                out.status, out.detail = "inconclusive", "harness bound too small: " + "; ".join(
                    "%s:%s" % (r.get("sourceLocation", {}).get("function"), r.get("sourceLocation", {}).get("line")) for r in unw)
                return
            return "more-unwind"
        unconfirmed = []
        # CHECK failures first: they say what broke
        viol.sort(key=lambda r: (not r["description"].startswith("CHECK "), r.get("property", "")))
        for r in viol:
            vals = parse_inputs(r.get("trace", []))
            done = False
            for variant in ("gcc", "pattern", "zero", "msan"):
                kind, txt = self.replay(job, wd, vals, variant)
                if kind in ("check", "crash", "hang"):
                    out.violations.append((r["description"], r.get("sourceLocation", {}), vals,
                                           txt if kind != "hang" else "does not terminate"))
                    done = True
                    break
                if kind in ("assume", "build-failed"):
                    txt = kind + ": " + txt
            if not done:
                unconfirmed.append((r, kind, txt))
            if len(out.violations) >= 3:
                break
        if out.violations:
            out.status = "violation"
            return
        if unconfirmed:
            if unw:
                return "more-unwind"
            out.status = "inconclusive"
            out.detail = "counterexample does not reproduce natively: " + "; ".join(
                "%s [%s] (%s)" % (r["description"], r.get("sourceLocation", {}).get("line"), k) for r, k, t in unconfirmed[:5])
            return
        if unw:
            return "more-unwind"
        # vacuity: all witnesses reached, and the real code takes the same way on the same values
        if reach_missing:
            out.reach_unseen = {r["description"] for r in reach_missing}
        for r in reach_ok:
            with job.lock:
                seen = self.__dict__.setdefault("_reach_done", set())
                if (job.base, r["description"]) in seen:
                    out.reach_seen.add(r["description"])
                    out.reach_total -= 1
                    continue
            vals = parse_inputs(r.get("trace", []))
            kind, txt = self.replay(job, wd, vals)
            if ("VH-REACH " + r["description"][6:]) in txt:
                out.reach_replayed += 1
                out.reach_seen.add(r["description"])
                with job.lock:
                    seen.add((job.base, r["description"]))
            else:
                out.status = "inconclusive"
                out.detail = "witness of '%s' does not replay natively (%s: %s)" % (r["description"], kind, txt[-300:])
                return
        out.status = "ok"

    # ------------------------------------------------------------------ a whole check
    def write_replay(self, out, i, v):
        label, loc, vals, how, case = v
        os.makedirs(self.replay_dir, exist_ok=True)
        path = os.path.join(self.replay_dir, "%s-%s-%d.json" % (self.prop, out.job.name, i))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "job": out.job.name, "assertion": label,
                       "at": "%s:%s (%s)" % (loc.get("file"), loc.get("line"), loc.get("function")),
                       "native": how, "case": list(case), "values": vals,
                       "rerun": "./replay %s" % os.path.relpath(path, VERIF)}, f, indent=1)
        return path

    def run_all(self, jobs, stop_on_violation=True):
        outs = []
        stop = threading.Event()

        def go(job):
            if stop.is_set():
                return None
            o = self.run_job(job)
            if o.status == "violation" and stop_on_violation:
                stop.set()
            return o
        names = set()
        for j in jobs:
            n, k = j.name, 2
            while j.name in names:
                j.name = j.base = "%s.%d" % (n, k)
                k += 1
            names.add(j.name)
        parts = [p for j in jobs for p in j.split()]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            parts_out = [o for o in ex.map(go, parts) if o is not None]
        for j in jobs:
            m = self.merge(j, [o for o in parts_out if o.job.base == j.name])
            if m:
                outs.append(m)
        return outs

    def merge(self, job, parts):
        if not parts:
            return None
        m = Outcome(job)
        m.cases = len(parts)
        st = [o.status for o in parts]
        m.status = "violation" if "violation" in st else "inconclusive" if "inconclusive" in st else "ok"
        m.detail = "; ".join("%s: %s" % (o.job.name, o.detail) for o in parts if o.detail)[:4000]
        for o in parts:
            m.violations += [(l, w, v, h, o.job.case) for l, w, v, h in o.violations]
            for k in ("obligations", "discharged", "reach_total", "reach_replayed", "solver_s", "variables", "clauses", "queries"):
                setattr(m, k, getattr(m, k) + getattr(o, k))
            m.wall = max(m.wall, o.wall)
            if os.environ.get("VH_CASES"):
                print("  %s %.1f" % (o.job.name, o.wall))
            m.unwind = max(m.unwind, o.unwind)
        m.functions = sorted({f for o in parts for f in o.functions})
        m.labels = sorted({f for o in parts for f in o.labels})
        seen = set().union(*(o.reach_seen for o in parts))
        unseen = set().union(*(o.reach_unseen for o in parts)) - seen
        if m.status == "ok" and unseen:
            m.status, m.detail = "inconclusive", "vacuous: not reachable: " + ", ".join(sorted(unseen))
        return m

    def close(self):
        if not self.keep:
            shutil.rmtree(self.work, ignore_errors=True)
