"""Shared machinery of the checks: building the driver from /repo's current tree, running TLC
(exhaustive checking, scenario generation, trace validation), running the driver, evidence."""
import json, os, re, shutil, subprocess, sys, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOBIN = "/opt/veriftools/go1.27.3/bin"


class CheckError(Exception):
    pass


def goenv(extra=None):
    e = dict(os.environ)
    e.update(HOME="/root", LANG="C.UTF-8", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GONOSUMDB="*", GONOSUMCHECK="1",
             PATH=GOBIN + ":" + e.get("PATH", "/usr/bin:/bin"))
    if extra:
        e.update(extra)
    return e


class Ctx:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replay = os.path.join(VERIF, "replay", pid)
        shutil.rmtree(self.replay, ignore_errors=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.exhaustive = True
        self.samples = []
        self.models = []
        self.notes = {}
        self.violations = []   # (what, replay path)
        self.known = []
        self.assumptions = []
        self.lock = threading.Lock()
        self._n = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def uniq(self, stem):
        with self.lock:
            self._n += 1
            return os.path.join(self.work, "%s_%d" % (stem, self._n))

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ violations
    def violation(self, what, files):
        """files: dict name -> text; written to a replay directory."""
        with self.lock:
            d = os.path.join(self.replay, "v%d" % (len(self.violations) + 1))
            os.makedirs(d, exist_ok=True)
            for k, v in files.items():
                with open(os.path.join(d, k), "w") as f:
                    f.write(v)
            with open(os.path.join(d, "WHAT"), "w") as f:
                f.write(what + "\n")
            self.violations.append((what, d))
        self.log("violation:", what[:400])

    def finish(self):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "trace_events": self.events,
                "models": self.models,
                "samples": self.samples[:6],
                "exhaustive": False,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        ev["coverage"].update(self.notes)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.violations:
            for what, d in self.violations[:5]:
                print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(d, VERIF)))
            sys.stdout.flush()
            return 1
        self.log("ok: %d model states, %d traces (%d events) accepted" % (self.states, self.traces, self.events))
        shutil.rmtree(self.work, ignore_errors=True)
        return 0


# ---------------------------------------------------------------------- processes
def run(cmd, timeout, env=None, cwd=None, stdin=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, text=True, errors="replace",
                         start_new_session=True)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        return p.returncode, out, err, False
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGQUIT)
            out, err = p.communicate(timeout=5)
        except Exception:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
        return -9, out, err, True


# ---------------------------------------------------------------------- go
def overlay_file(ctx, yields):
    ov = os.path.join(ctx.work, "overlay")
    os.makedirs(ov, exist_ok=True)
    repl = {}
    if yields:
        exe = os.path.join(ctx.work, "yieldgen")
        rc, out, err, to = run(["go", "build", "-o", exe, "./cmd/yieldgen"], 300, goenv(), modcopy(ctx))
        if rc != 0:
            raise CheckError("yieldgen build: " + err)
        rc, out, err, to = run([exe, REPO, ov], 60)
        if rc != 0:
            raise CheckError("yieldgen: " + err)
        repl = json.loads(out)
    f = os.path.join(ctx.work, "overlay.json")
    with open(f, "w") as fh:
        json.dump({"Replace": repl}, fh)
    return f


def modcopy(ctx):
    """copy of the harness module in the work directory (so that go never writes in /verif's tracked files)"""
    d = os.path.join(ctx.work, "mod")
    if not os.path.isdir(d):
        shutil.copytree(HARNESS, d)
        # the harness needs exactly /repo's dependencies
        mod = open(os.path.join(REPO, "go.mod")).read()
        reqs = re.findall(r"^\s*(?:require\s+)?(\S+/\S+ v\S+)", mod, re.M)
        with open(os.path.join(d, "go.mod"), "w") as f:
            f.write("module verifharness\n\ngo 1.25\n\nrequire (\n\tgithub.com/aceld/zinx v0.0.0\n" +
                    "".join("\t%s // indirect\n" % r for r in reqs) +
                    ")\n\nreplace github.com/aceld/zinx => %s\n" % REPO)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(d, "go.sum"))
    return d


def build_driver(ctx, yields=True, race=False, name="driver"):
    d = modcopy(ctx)
    exe = os.path.join(ctx.work, name + ("_y" if yields else "") + ("_race" if race else ""))
    if os.path.exists(exe):
        return exe
    cmd = ["go", "build"] + (["-race"] if race else [])
    if yields:
        try:
            ov = overlay_file(ctx, True)
            rc, out, err, to = run(cmd + ["-overlay", ov, "-tags", "vsched", "-o", exe, "./cmd/" + name], 600, goenv(), d)
            if rc == 0:
                ctx.log("driver built with schedule perturbation")
                return exe
            ctx.log("perturbed build failed, falling back to plain build:", err[-500:])
        except CheckError as e:
            ctx.log("perturbation unavailable:", str(e)[-500:])
    rc, out, err, to = run(cmd + ["-o", exe, "./cmd/" + name], 600, goenv(), d)
    if rc != 0:
        raise CheckError("driver build failed:\n" + err[-4000:])
    ctx.log("driver built")
    return exe


def run_driver(ctx, exe, family, cfg, scens, timeout=120, env=None, label=None):
    """Runs one driver process; returns list of traces {id, cfg, ev:[...]}.
    A crash of the process caused by a Go panic becomes a Crash event of the scenario(s) then running."""
    stem = ctx.uniq("drv_" + family)
    with open(stem + ".in.json", "w") as f:
        json.dump({"cfg": cfg, "scen": scens}, f)
    e = {"PATH": "/usr/bin:/bin", "HOME": "/root", "VERIF_SCRATCH": stem + ".d", "GOTRACEBACK": "all"}
    e.update(env or {})
    os.makedirs(stem + ".d", exist_ok=True)
    t0 = time.time()
    rc, out, err, to = run([exe, family, stem + ".in.json", stem + ".out"], timeout, e, stem + ".d")
    ctx.log("driver %s %s: %d scenarios in %.1fs" % (family, (cfg or {}).get("tr", (cfg or {}).get("mode", "")), len(scens), time.time() - t0))
    shutil.rmtree(stem + ".d", ignore_errors=True)
    traces, open_tr = [], {}
    if os.path.exists(stem + ".out"):
        for line in open(stem + ".out"):
            line = line.strip()
            if not line:
                continue
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if "begin" in r:
                open_tr[r["begin"]] = r
            else:
                open_tr.pop(r["id"], None)
                traces.append(r)
    if os.environ.get("VDEBUG"):
        with open(os.environ["VDEBUG"], "a") as f:
            f.write(err)
    meta = {"family": family, "cfg": cfg, "stem": stem, "label": label or family}
    if rc != 0:
        with open(stem + ".err", "w") as f:
            f.write(err)
        if to:
            raise CheckError("driver %s timed out after %ss (see %s.err)" % (family, timeout, stem))
        m = re.search(r"^(panic: |fatal error: )(.*)$", err, re.M)
        # the stack of the goroutine that panicked comes first
        first = ""
        if m:
            parts = re.split(r"^goroutine \d+", err[m.start():], flags=re.M)
            first = parts[1] if len(parts) > 1 else parts[0]
        if m and "github.com/aceld/zinx/" in first:
            what = m.group(0)[:200]
            ids = list(open_tr) or ["process"]
            for i in ids:
                evs = open_tr[i].get("ev", []) if i in open_tr else []
                traces.append({"id": i, "cfg": (open_tr.get(i) or {}).get("cfg", {}), "ev": evs + [{"op": "Crash", "what": what}],
                               "crash": err[:6000]})
        else:
            raise CheckError("driver %s failed rc=%s:\n%s" % (family, rc, err[-3000:]))
    # late packets of an ended KCP peer make the server see one more connection: such scenarios say nothing
    ghosts = [t for t in traces if any(e.get("op") == "ghost" for e in t["ev"])]
    if ghosts and len(ghosts) <= max(1, len(traces) * 3 // 10):
        traces = [t for t in traces if t not in ghosts]
        ctx.notes["scenarios_dropped_late_kcp_packets"] = ctx.notes.get("scenarios_dropped_late_kcp_packets", 0) + len(ghosts)
    for t in traces:
        t["_meta"] = meta
    return traces


# ---------------------------------------------------------------------- TLC
def tlc(ctx, module, cfg_text, args, timeout, env=None, mem="2g", jopts=()):
    """Runs TLC on module (in SPEC) in a private directory; returns (rc, output)."""
    stem = ctx.uniq("tlc_" + module)
    os.makedirs(stem)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(stem, f))
    with open(os.path.join(stem, module + ".cfg"), "w") as f:
        f.write(cfg_text)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m", "-Xmx" + mem, "-Dtlc2.TLC.stopAfter=%d" % timeout] + list(jopts) + \
          ["-cp", JARS, "tlc2.TLC", "-config", module + ".cfg", "-metadir", os.path.join(stem, "states"), "-noGenerateSpecTE"] + args + [module + ".tla"]
    rc, out, err, to = run(cmd, timeout + 20, e, stem)
    shutil.rmtree(os.path.join(stem, "states"), ignore_errors=True)
    with open(os.path.join(stem, "out.txt"), "w") as f:
        f.write(out + "\n--stderr--\n" + err)
    if to:
        raise CheckError("TLC %s timed out" % module)
    return rc, out + err, stem


def parse_stats(out):
    st = tr = 0
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        tr, st = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    return st, tr


def tlc_errors(out):
    k = out.find("Error:")
    return out[k:k + 3000] if k >= 0 else out[-1500:]


def model_check(ctx, module, cfg_text, timeout=300, workers=4, mem="3g", label=None, simulate=None):
    """Exhaustive check of the design; a failure here is an error of the specification, not of the code."""
    args = ["-workers", str(workers), "-coverage", "1"]
    if simulate:
        args += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(ctx.seed)]
    rc, out, stem = tlc(ctx, module, cfg_text, args, timeout, mem=mem)
    st, tr = parse_stats(out)
    if rc != 0:
        raise CheckError("model checking of %s failed (specification error):\n%s" % (module, tlc_errors(out)))
    # vacuity: actions never taken
    dead = sorted(set(re.findall(r"^<(\w+) line \d+.*>: 0:0$", out, re.M)))
    with ctx.lock:
        ctx.states += st
        ctx.transitions += tr
        ctx.models.append({"module": module, "what": label or module, "distinct_states": st, "states_generated": tr,
                           "complete": "No error has been found" in out and not simulate, "actions_never_taken": dead})
    ctx.log("TLC %s: %d distinct states, %d generated%s" % (label or module, st, tr, (" never taken: " + ",".join(dead)) if dead else ""))
    return out


def generate(ctx, module, cfg_text, num, depth, timeout=120, seed=None, mem="1g"):
    """Scenarios generated from the specification by TLC's simulator; they are printed as JSON by the module."""
    args = ["-workers", "1", "-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed if seed is not None else ctx.seed)]
    rc, out, stem = tlc(ctx, module, cfg_text, args, timeout, mem=mem)
    scens, seen = [], set()
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"SCEN '):
            s = json.loads(line)[5:]   # a TLA+ string literal is JSON-compatible here
            if s not in seen:
                seen.add(s)
                scens.append(json.loads(s))
    if not scens:
        raise CheckError("no scenario generated by %s:\n%s" % (module, out[-1500:]))
    return scens


def validate(ctx, module, cfg_text, traces, shards=4, timeout=300, mem="2g", dfs=False, label=None, confirm=None):
    """Trace validation: is every recorded trace a behaviour of the specification?  Returns rejected traces
    [(trace, position)].  Counts only accepted traces."""
    traces = [t for t in traces]
    if not traces:
        raise CheckError("no traces recorded for " + module)
    groups = [[] for _ in range(max(1, min(shards, len(traces))))]
    for k, t in enumerate(sorted(traces, key=lambda t: -len(t["ev"]))):
        groups[k % len(groups)].append(t)

    def one(g):
        f = ctx.uniq("tr_" + module) + ".ndjson"
        with open(f, "w") as fh:
            for t in g:
                fh.write(json.dumps({"id": t["id"], "cfg": t.get("cfg", {}), "ev": t["ev"]}) + "\n")
        args = ["-workers", "1"]
        jo = ["-Dtlc2.tool.queue.IStateQueue=StateDeque"] if dfs else []
        rc, out, stem = tlc(ctx, module, cfg_text, args, timeout, {"TRACE_FILE": f}, mem=mem, jopts=jo)
        if "Model checking completed" not in out and "TRACECHECK done" not in out:
            raise CheckError("trace validation with %s failed:\n%s" % (module, (out[out.find("Error:"):][:1500] if "Error:" in out else out[-1500:])))
        if rc != 0 and '"REJECT"' not in out:
            raise CheckError("trace validation with %s failed rc=%d:\n%s" % (module, rc, out[-1500:]))
        rej = []
        for m in re.finditer(r'<<"REJECT", (\d+), (\d+)>>', out):
            rej.append((g[int(m.group(1)) - 1], int(m.group(2))))
        st, tr = parse_stats(out)
        with ctx.lock:
            ctx.traces += len(g) - len(rej)
            ctx.events += sum(len(t["ev"]) for t in g)
        return rej

    with ThreadPoolExecutor(len(groups)) as ex:
        res = [r for rs in ex.map(one, groups) for r in rs]
    ctx.log("TLC %s: %d traces, %d rejected" % (label or module, len(traces), len(res)))
    if traces and len(ctx.samples) < 6:
        t = min(traces, key=lambda t: abs(len(t["ev"]) - 12))
        ctx.samples.append({"module": module, "trace": t["id"], "cfg": t.get("cfg", {}), "ev": t["ev"][:14]})
    return res


def describe(t, pos):
    evs = t["ev"]
    bad = evs[pos - 1] if 0 < pos <= len(evs) else None
    return "trace %s cfg=%s rejected at event %d/%d: %s" % (t["id"], json.dumps(t.get("cfg", {}))[:300], pos, len(evs), json.dumps(bad)[:400])


def report(ctx, module, rejected):
    for t, pos in rejected[:10]:
        meta = t.get("_meta", {})
        files = {"trace.json": json.dumps({"id": t["id"], "cfg": t.get("cfg", {}), "ev": t["ev"], "rejected_at": pos}, indent=0),
                 "module": module}
        stem = meta.get("stem")
        if stem and os.path.exists(stem + ".in.json") and os.path.getsize(stem + ".in.json") < 3e6:
            files["driver_input.json"] = open(stem + ".in.json").read()
            files["driver_family"] = meta.get("family", "")
        if t.get("crash"):
            files["crash.txt"] = t["crash"]
        ctx.violation(describe(t, pos), files)


def parallel(fns, n=6):
    with ThreadPoolExecutor(n) as ex:
        futs = [ex.submit(f) for f in fns]
        return [f.result() for f in futs]


def main(checks):
    if len(sys.argv) < 2 or sys.argv[1] not in checks:
        print("usage: check.py <%s>" % "|".join(sorted(checks)))
        return 2
    pid = sys.argv[1]
    ctx = Ctx(pid)
    try:
        checks[pid](ctx)
        return ctx.finish()
    except CheckError as e:
        if ctx.violations:
            ctx.log("error after violations were found:", str(e)[:500])
            return ctx.finish()
        print("CHECK-ERROR", pid, str(e), flush=True)
        return 2
