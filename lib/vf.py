"""Runner framework: builds Go drivers against /repo's working tree, runs TLC, collects evidence, prints verdicts.

Verdict rules (see DESIGN.md):
  exit 0  every behaviour observed on the real code was accepted by the specification
  exit 1  a VIOLATION line: real-code behaviour the specification rejects, with a replay file
  exit 2  the check itself could not decide (build failure, TLC failure, time-out of our own machinery)
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures, random, hashlib, signal

from lib import faults as overlay

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
MODULE = "github.com/KitchenMishap/pudding-shed"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


class TlcResult:
    def __init__(self):
        self.status = "error"; self.out = ""; self.states = 0; self.distinct = 0; self.depth = 0
        self.actions = {}; self.wall = 0.0; self.rc = None


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.violations = []          # dicts: what, replay
        self.known_hits = []
        self.known = load_known(prop)
        self.faults = False
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.extra = {}
        self.spec_runs = []
        self.assumptions = []
        self.rng = random.Random(f"{prop}-{seed}")
        self._bins = {}
        self._goenv = None

    # ---- Go -----------------------------------------------------------------
    def goenv(self):
        if self._goenv: return self._goenv
        e = dict(os.environ)
        d = os.path.join(self.scratch, "gomod"); os.makedirs(d, exist_ok=True)
        # The harness is a module of its own which replaces the repository's module by /repo's working tree.
        modsrc = open(os.path.join(REPO, "go.mod")).read()
        reqs = "\n".join(re.findall(r"^require \([^)]*\)|^require [^(\n]+$", modsrc, re.M))
        gover = re.search(r"^go .*$", modsrc, re.M).group(0)
        with open(os.path.join(d, "h.mod"), "w") as f:
            f.write(f"module verifharness\n\n{gover}\n\nrequire {MODULE} v0.0.0\n\nreplace {MODULE} => {REPO}\n\n{reqs}\n")
        for cand in (os.path.join(HARNESS, "h.sum"), "/opt/vp/pudding-shed.sum"):
            if os.path.exists(cand):
                shutil.copy(cand, os.path.join(d, "h.sum")); break
        e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS=f"-mod=mod -buildvcs=false -modfile={d}/h.mod")
        e.setdefault("HOME", "/root")
        self._goenv = e
        return e

    def build(self, name, race=False):
        key = name + ("-race" if race else "")
        if key in self._bins: return self._bins[key]
        out = os.path.join(self.scratch, "bin-" + key)
        cmd = ["go", "build", "-o", out] + (["-race"] if race else [])
        if self.faults:     # any operation on a file can be made to fail
            root = subprocess.run(["go", "env", "GOROOT"], cwd=HARNESS, env=self.goenv(), capture_output=True, text=True).stdout.strip()
            cmd += ["-tags", "faults", "-overlay", overlay.overlay(root, self.scratch)]
        cmd += ["./cmd/" + name]
        r = subprocess.run(cmd, cwd=HARNESS, env=self.goenv(), capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError(f"driver {name} does not build:\n{r.stdout}{r.stderr}")
        self._bins[key] = out
        return out

    def drive(self, name, args=(), inp=None, timeout=300, env=None, race=False):
        """Run a driver. Returns (rc, stdout, stderr, timed_out)."""
        b = self.build(name, race)
        wd = tempfile.mkdtemp(prefix="run-", dir=self.scratch)
        e = dict(os.environ); e["GOMEMLIMIT"] = "6GiB"; e["VERIF_SEED"] = str(self.seed)
        if env: e.update(env)
        p = subprocess.Popen([b] + [str(a) for a in args], cwd=wd, env=e, stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        to = False
        try:
            o, er = p.communicate(inp, timeout=timeout)
        except subprocess.TimeoutExpired:
            to = True
            p.send_signal(signal.SIGQUIT)
            try: o, er = p.communicate(timeout=10)
            except subprocess.TimeoutExpired:
                p.kill(); o, er = p.communicate()
        shutil.rmtree(wd, ignore_errors=True)
        return p.returncode, o, er, to

    # ---- TLC ----------------------------------------------------------------
    def tlc(self, module, cfg, trace=None, workers=1, env=None, args=(), timeout=600, heap="2g", coverage=False, count=True):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        e = dict(os.environ)
        if trace: e["TRACE"] = trace
        if env: e.update({k: str(v) for k, v in env.items()})
        # TLC's own launcher knows the CommunityModules path
        cmd = ["tlc", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg)]
        if coverage: cmd += ["-coverage", "1"]
        cmd += list(args) + [os.path.join(SPEC, module)]
        e["JAVA_OPTS"] = (e.get("JAVA_OPTS", "") + f" -Xmx{heap}").strip()
        e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -Xss64m -XX:+UseParallelGC -XX:ActiveProcessorCount={max(2, workers)} -Djava.io.tmpdir={meta}"
        t = time.time()
        r = TlcResult()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise CheckError(f"TLC timed out on {module}/{cfg} after {timeout}s")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        r.wall = time.time() - t
        r.out = p.stdout + p.stderr; r.rc = p.returncode
        m = re.findall(r"(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found", r.out)
        if m:
            r.states = int(m[-1][0].replace(",", "")); r.distinct = int(m[-1][1].replace(",", ""))
        m = re.findall(r"The number of states generated: (\d[\d,]*)", r.out)
        if m and not r.states:
            r.states = int(m[-1].replace(",", "")); r.distinct = r.states
        m = re.findall(r"depth of the complete state graph search is (\d+)", r.out)
        if m: r.depth = int(m[-1])
        r.status = {0: "ok", 11: "deadlock", 12: "safety", 13: "liveness", 10: "assumption"}.get(p.returncode, "error")
        if coverage:
            for a, b, c in re.findall(r"<(\w+) line [^>]*>: (\d+):(\d+)", r.out):
                r.actions[a] = max(r.actions.get(a, 0), int(c))
        if count:
            self.cov["states"] += r.distinct; self.cov["transitions"] += r.states
        self.spec_runs.append({"module": module, "cfg": cfg, "status": r.status, "distinct": r.distinct,
                               "generated": r.states, "depth": r.depth, "wall_s": round(r.wall, 2)})
        return r

    def model_check(self, module, cfg, workers=4, must_cover=(), **kw):
        """Exhaustive check of the specification itself. A failure here is an error of the check, never a verdict."""
        r = self.tlc(module, cfg, workers=workers, coverage=kw.pop("coverage", True), **kw)
        if r.status != "ok":
            raise CheckError(f"specification {module}/{cfg} fails its own check ({r.status}):\n{r.out[-4000:]}")
        dead = [a for a in must_cover if r.actions.get(a, 0) == 0]
        if dead:
            raise CheckError(f"specification {module}/{cfg}: actions never taken: {dead}")
        self.extra.setdefault("action_coverage", {})[cfg] = r.actions
        return r

    def generate(self, module, cfg, num, depth, env=None, timeout=300, seed_off=0, bfs=False):
        """Behaviours generated by TLC from the specification (a list of operation lists)."""
        args = [] if bfs else ["-simulate", f"num={num}", "-depth", str(depth + 5), "-seed", str(self.seed * 1000003 + seed_off)]
        r = self.tlc(module, cfg, workers=1, env=env, args=args, timeout=timeout, count=False)
        if r.status != "ok":
            raise CheckError(f"generator {module}/{cfg} failed ({r.status}):\n{r.out[-3000:]}")
        res = []
        for line in r.out.splitlines():
            if line.startswith('"GEN '):
                res.append(json.loads(json.loads(line)[4:]))
        if not res: raise CheckError(f"generator {module}/{cfg} produced nothing:\n{r.out[-2000:]}")
        return res

    def validate(self, module, cfg, events, label, runs=1, chunk=None, timeout=600, env=None, heap="2g"):
        """Check traces recorded from the real code against the specification.
        events: list of trace lists (each trace begins with its own 'new'-type event), validated in parallel chunks.
        Returns number rejected."""
        events = [t for t in events if t]
        if not events:
            if self.violations: return 0
            raise CheckError("no traces to validate")
        chunk = chunk or max(1, (len(events) + 3) // 4)
        # also bound the number of events in one TLC run
        groups, cur, n = [], [], 0
        for t in events:
            if cur and (len(cur) >= chunk or n + len(t) > 20000):
                groups.append(cur); cur, n = [], 0
            cur.append(t); n += len(t)
        if cur: groups.append(cur)

        def one(g):
            path = os.path.join(self.scratch, "trace-" + re.sub(r"[^A-Za-z0-9]+", "_", label) + f"-{id(g)}.ndjson")
            with open(path, "w") as f:
                for t in g:
                    for ev in t: f.write(json.dumps(ev) + "\n")
            r = self.tlc(module, cfg, trace=path, timeout=timeout, env=env, heap=heap)
            return g, path, r
        bad = 0
        with concurrent.futures.ThreadPoolExecutor(max_workers=min(6, NCPU)) as ex:
            for g, path, r in ex.map(one, groups):
                total = sum(len(t) for t in g)
                if r.status == "ok":
                    if r.depth < total + 1:
                        raise CheckError(f"trace validation of {label} ended early without a verdict ({r.depth} of {total + 1}):\n{r.out[-2000:]}")
                    self.cov["traces_validated_against_impl"] += len(g)
                elif r.status in ("deadlock", "safety"):
                    bad += 1
                    self.rejected(module, cfg, g, r, label, env)
                else:
                    m = r.out.find("Error:")
                    raise CheckError(f"TLC failed validating {label} ({r.status} rc={r.rc}):\n{r.out[max(0, m):][:3000]}\n...\n{r.out[-500:]}")
        return bad

    def rejected(self, module, cfg, g, r, label, env):
        # find the event index reached
        m = re.findall(r"^/?\\?\s*/\\ i = (\d+)|^i = (\d+)", r.out, re.M)
        idx = max([int(a or b) for a, b in m] + [r.depth or 1])     # the trace TLC prints may stop short
        k = idx - 1     # 0-based index of the event that was refused
        for t in g:
            if k < len(t): break
            k -= len(t)
        ev = t[k] if k < len(t) else None
        self.violation(f"{label}: event {k} refused by {module}: {json.dumps(ev)[:300]}",
                       {"module": module, "cfg": cfg, "label": label, "env": env, "refused_event": k, "event": ev,
                        "trace": t[:k + 1], "state_before": tail_state(r.out)}, trace=t[:k + 1])

    # ---- verdicts -------------------------------------------------------------
    def violation(self, what, detail, trace=None):
        fid = None
        for kf in self.known:
            if kf["match"](what, detail): fid = kf; break
        if fid:
            self.known_hits.append((fid, what)); return
        d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
        h = hashlib.sha1((what + json.dumps(detail, default=str)).encode()).hexdigest()[:10]
        path = os.path.join(d, f"{self.prop}-{h}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "what": what, "detail": detail}, f, indent=1, default=str)
        self.violations.append({"what": what, "replay": path})

    def sample(self, s, limit=4):
        if len(self.cov["samples"]) < limit:
            txt = json.dumps(s)
            self.cov["samples"].append(s if len(txt) < 1500 else txt[:1500] + "...")

    def finish(self, level="model_checking"):
        cov = dict(self.cov); cov.update(self.extra)
        cov["spec_runs"] = self.spec_runs[:60]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations), "assumptions": self.assumptions}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def tail_state(out):
    m = out.rfind("State ")
    return out[m:m + 3000] if m >= 0 else out[-1500:]


def load_known(prop):
    """known_findings.json: [{"property","id","what","match":{...}}]; entries with status 'fixed' suppress nothing."""
    path = os.path.join(VERIF, "known_findings.json")
    res = []
    if not os.path.exists(path): return res
    for k in json.load(open(path)):
        if k["property"] != prop or k.get("status") == "fixed": continue
        pat = k["match_what"]
        res.append({"id": k["id"], "what": k["what"],
                    "match": (lambda what, detail, pat=pat: re.search(pat, what) is not None)})
    return res


def main(registry):
    import argparse, traceback
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    if a.prop not in registry:
        print(f"unknown property {a.prop}"); return 2
    c = Check(a.prop, a.tier, a.seed)
    rc = 2
    try:
        level = registry[a.prop](c) or "model_checking"
        c.finish(level)
        seen = set()
        for kf, what in c.known_hits:
            if kf["id"] in seen: continue
            seen.add(kf["id"])
            print(f"KNOWN-FINDING: property={a.prop} {kf['what']}")
        if c.violations:
            for v in c.violations[:20]:
                print("  " + v["what"][:600])
                print(f"VIOLATION property={a.prop} replay={v['replay']}")
            rc = 1
        else:
            print(f"OK property={a.prop} tier={a.tier} seed={a.seed} states={c.cov['states']} "
                  f"traces={c.cov['traces_validated_against_impl']} wall={time.time() - c.t0:.1f}s")
            rc = 0
    except CheckError as ex:
        if c.violations:
            c.finish()
            for v in c.violations[:20]:
                print("  " + v["what"][:600]); print(f"VIOLATION property={a.prop} replay={v['replay']}")
            rc = 1
            print(f"(and then the check could not continue: {str(ex)[:1500]})", file=sys.stderr)
        else:
            print(f"CHECK-ERROR property={a.prop}: {ex}", file=sys.stderr); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    finally:
        c.cleanup()
    return rc


def run_scenarios(chk, driver, scenarios, timeout=120, label="", race=False, env=None, parallel=1):
    """Feed scenarios (JSON, one per line) to a driver; returns the list of traces (one per scenario that ran).
    A crash or hang of the real code inside a scenario is a violation of the property being checked; a crash of the
    driver itself is a check error."""
    if parallel > 1 and len(scenarios) > parallel:
        chk.build(driver, race)
        parts = [scenarios[i::parallel] for i in range(parallel)]
        with concurrent.futures.ThreadPoolExecutor(max_workers=parallel) as ex:
            outs = list(ex.map(lambda p: run_scenarios(chk, driver, p, timeout, label, race, env), parts))
        return [t for o in outs for t in o]
    todo = list(scenarios); res = []; crashes = 0
    while todo:
        inp = "".join(json.dumps(s) + "\n" for s in todo)
        rc, out, err, to = chk.drive(driver, (), inp, timeout=timeout, race=race, env=env)
        lines = [l for l in out.split("\n") if l.startswith("TR ")]
        for l in lines:
            try: res.append(json.loads(l[3:]) or [])
            except json.JSONDecodeError: break
        if rc == 0 and not to and len(lines) == len(todo): break
        k = len(lines)
        if k >= len(todo) and not to and rc == 0: break
        sc = todo[min(k, len(todo) - 1)]
        if to:
            where = "timed out"
        else:
            where = "crashed"
        stack_in_code = MODULE in err
        if "DRIVER-ERROR" in err or not (stack_in_code or "DATA RACE" in err or to):
            raise CheckError(f"driver {driver} failed (rc={rc}, timed_out={to}): {err[-3000:]}")
        if to and not stack_in_code:
            raise CheckError(f"driver {driver} timed out outside the code under test: {err[-3000:]}")
        chk.violation(f"{label or driver}: the code under test {where} in a valid scenario",
                      {"driver": driver, "scenario": sc, "stderr": err[:6000]})
        crashes += 1
        if crashes >= 3: break
        todo = todo[k + 1:]
    return res
