#!/usr/bin/env python3
"""check.py Cxx: decide one property of dxsvalue.

Builds the driver (harness/) against /repo's working tree, lets it run the real library, and has TLC judge
every recorded call with the specification (spec/Trace.tla over spec/System.tla).  Models (spec/MC*.tla) are
checked exhaustively and the behaviours they print are replayed into the library and judged the same way.

exit 0: the property held on everything explored; exit 1 + a VIOLATION line: the library broke it;
exit 3: the check itself could not be carried out.
"""
import concurrent.futures, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLCP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(VERIF, "tools"))
from jobs import JOBS, ASSUME   # noqa: E402

T0 = time.time()


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what, self.replay = what, replay


def sh(cmd, env=None, cwd=None, timeout=800, limit_as=None, out=None):
    e = dict(os.environ)
    e.update(env or {})

    def pre():
        os.setsid()
        if limit_as:
            resource.setrlimit(resource.RLIMIT_AS, (limit_as, limit_as))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, env=e, cwd=cwd, stdin=subprocess.DEVNULL, stdout=out or subprocess.PIPE,
                         stderr=subprocess.PIPE, preexec_fn=pre)
    try:
        so, se = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        raise ToolError("timeout: %s" % " ".join(cmd))
    return p.returncode, (so or b"").decode("utf8", "replace"), se.decode("utf8", "replace")


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = tempfile.mkdtemp(prefix="dxcheck-")
        self.lock = threading.Lock()
        self.states = self.trans = self.traces = 0
        self.ops, self.samples, self.models, self.jobs, self.viol = {}, [], [], [], []

    # ---------------------------------------------------------------- building
    def build(self, race):
        exe = os.path.join(self.dir, "dxh_race" if race else "dxh")
        env = {"GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOTOOLCHAIN": "local", "GOWORK": "off"}
        if race:
            env["CGO_ENABLED"] = "1"
        src = os.path.join(self.dir, "src")
        if not os.path.isdir(src):
            shutil.copytree(HARN, src)
        rc, so, se = sh(["go", "build"] + (["-race"] if race else []) + ["-o", exe, "."], env=env, cwd=src)
        if rc != 0:
            raise ToolError("the driver does not build against /repo:\n" + so + se)
        return exe

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env, workers, mem, timeout):
        md = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        cmd = ["java", "-Xss256m", "-Xmx%dm" % mem, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-cp", TLCP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", md, "-config", cfg, "-noGenerateSpecTE", module]
        rc, so, se = sh(cmd, env=env, cwd=SPEC, timeout=timeout)
        shutil.rmtree(md, ignore_errors=True)
        return rc, so + se

    def replay_file(self, name, obj):
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, "%s-%s.json" % (self.prop, re.sub(r"[^A-Za-z0-9_.-]", "_", name)))
        with open(fn, "w") as f:
            json.dump(obj, f)
            f.write("\n")
        return fn

    def violation(self, name, what, obj):
        obj.update({"property": self.prop, "what": what})
        fn = self.replay_file(name, obj)
        with self.lock:
            self.viol.append((what, fn))

    # judge a trace file
    def judge(self, name, trace, origin, timeout):
        lens, n = [], 0
        with open(trace) as f:
            for line in f:
                c = json.loads(line)
                lens.append(len(c["ev"]))
                with self.lock:
                    for e in c["ev"]:
                        k = e["op"] + (":" + e["fmt"] if "fmt" in e else "") + (":" + (e["o"] if isinstance(e["o"], str) else e["o"]["f"]) if "o" in e else "") \
                            + (":" + e["what"] if "what" in e else "") + (":" + e["ty"] if "ty" in e else "")
                        self.ops[k] = self.ops.get(k, 0) + 1
                    if n == 0 and len(self.samples) < 6:
                        ev = c["ev"][min(3, len(c["ev"]) - 1)]
                        s = json.dumps(ev)
                        self.samples.append({"job": name, "event": ev if len(s) < 1500 else s[:1500] + "..."})
                n += 1
        if not lens:
            raise ToolError("%s: empty trace" % name)
        rc, log = self.tlc("Trace.tla", "Trace.cfg", {"TRACE": trace}, 4, 5000, timeout)
        bad = re.findall(r"@@MISMATCH (\d+) (\d+) ([^\"\n]*)", log)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", log)
        if not m or "Error:" in log:
            raise ToolError("%s: TLC did not finish: %s" % (name, log[-3000:]))
        gen, dist = int(m.group(1)), int(m.group(2))
        # a history the driver recorded with less than the specification needs says nothing; only a few may be like that
        tool = [b for b in bad if b[2].startswith("TOOL:")]
        bad = [b for b in bad if not b[2].startswith("TOOL:")]
        if len(tool) > max(1, len(lens) // 50):
            raise ToolError("%s: %s" % (name, tool[:5]))
        if not bad and not tool and dist != sum(x + 1 for x in lens):
            raise ToolError("%s: TLC visited %d states instead of %d" % (name, dist, sum(x + 1 for x in lens)))
        with self.lock:
            self.states += dist
            self.trans += dist - len(lens)
            self.traces += len(lens) - len(bad) - len(tool)
        if bad:
            c, l, why = min(bad, key=lambda b: (int(b[1]), int(b[0])))
            with open(trace) as f:
                for i, line in enumerate(f):
                    if i == int(c) - 1:
                        ch = json.loads(line)
            ch["ev"] = ch["ev"][:int(l)]
            self.violation("%s-%s" % (name, c), "%s (%s, history %s, call %s; %d histories fail)" % (why, name, c, l, len(bad)),
                           {"origin": origin, "mismatch": why, "chunk": ch})

    def driver(self, name, cmd, origin, timeout, race):
        rc, so, se = sh(cmd, timeout=timeout, limit_as=None if race else 12 << 30,
                        env={"TZ": "UTC", "GORACE": "exitcode=66 halt_on_error=1", "GOTRACEBACK": "single"})
        if rc == 0:
            return True
        if rc == 5 or rc == 66 or rc == 2 and ("fatal error" in se or "panic" in se):
            what = {5: "a call did not return", 66: "data race", 2: "the process died"}[rc]
            self.violation(name, "%s (%s): %s" % (what, name, se.strip().split("\n")[0][:200]), {"origin": origin, "stderr": se[-6000:]})
            return False
        raise ToolError("%s: driver exit %d\n%s%s" % (name, rc, so[-2000:], se[-4000:]))

    def gen_job(self, mode, chunks, length, ic=False, off=0, race=False):
        seed = self.seed * 1009 + off
        name = "%s%s.%d" % (mode, "-ic" if ic else "", seed)
        d = tempfile.mkdtemp(prefix="job-", dir=self.dir)
        trace = os.path.join(d, "trace.nd")
        args = ["gen", "-mode", mode, "-seed", str(seed), "-chunks", str(chunks), "-len", str(length), "-out", trace, "-dir", d]
        if ic:
            args.append("-ic")
        origin = {"driver": "dxh " + " ".join(args[:9]) + (" -ic" if ic else ""), "race": race}
        if self.driver(name, [self.exe_race if race else self.exe] + args, origin, 700, race):
            self.judge(name, trace, origin, 800)
        shutil.rmtree(d, ignore_errors=True)
        self.jobs.append({"mode": mode, "histories": chunks, "length": length, "seed": seed, "ignore_case": ic, "race_detector": race})

    # a model: TLC explores it and checks its laws; the behaviours it prints are replayed into the library and judged
    def model_job(self, module, **params):
        name = module + "".join(".%s%s" % (k.lower(), v) for k, v in sorted(params.items()))
        d = tempfile.mkdtemp(prefix="job-", dir=self.dir)
        env = {k: str(v) for k, v in params.items()}
        env["SALT"] = str(self.seed)
        rc, log = self.tlc(module + ".tla", module + ".cfg", env, 4, 6000, 800)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", log)
        if rc != 0 or not m:
            raise ToolError("model %s: %s" % (name, "\n".join(x for x in log.split("\n") if "@@SCRIPT" not in x)[-3000:]))
        entry = {"model": name, "states": int(m.group(2)), "transitions": int(m.group(1)), "salt": self.seed}
        with self.lock:
            self.states += int(m.group(2))
            self.trans += int(m.group(1))
            self.models.append(entry)
        scripts = set()
        for x in re.findall(r'^"@@SCRIPT (.*)"$', log, re.M):
            try:
                scripts.add(json.dumps(json.loads(json.loads('"' + x + '"')), separators=(",", ":")))
            except ValueError:
                raise ToolError("model %s printed a damaged behaviour" % name)
        if not scripts:
            raise ToolError("model %s printed no behaviour" % name)
        entry["behaviours_replayed"] = len(scripts)
        inp, trace = os.path.join(d, "in.nd"), os.path.join(d, "trace.nd")
        with open(inp, "w") as f:
            f.write("\n".join(sorted(scripts)) + "\n")
        origin = {"driver": "dxh replay", "model": name, "salt": self.seed}
        if self.driver(name, [self.exe, "replay", "-in", inp, "-out", trace, "-dir", d], origin, 700, False):
            self.judge(name, trace, origin, 800)
        shutil.rmtree(d, ignore_errors=True)

    def run(self):
        jobs = JOBS[self.prop](self.tier)
        self.exe = self.build(False)
        if any(j[0] == "gen" and j[1].get("race") for j in jobs):
            self.exe_race = self.build(True)
        err = None
        par = 3 if self.tier == "quick" else 4
        with concurrent.futures.ThreadPoolExecutor(par) as ex:
            fs = [ex.submit(self.gen_job if k == "gen" else self.model_job, **kw) for k, kw in jobs]
            for f in concurrent.futures.as_completed(fs):
                try:
                    f.result()
                except ToolError as x:
                    err = err or x
                except concurrent.futures.CancelledError:
                    pass
                if (self.viol or err) and self.tier == "quick":
                    for g in fs:
                        g.cancel()
        return err

    def evidence(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
                           "samples": self.samples, "calls_judged_by_kind": self.ops, "models": self.models,
                           "driver_jobs": self.jobs,
                           "rule": "TLC explores every recorded history of the real library as a behaviour of spec/System.tla; "
                                   "a call the specification does not allow is a violation"},
              "assumptions": ASSUME, "wall_s": round(time.time() - T0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":   # judge a recorded violation again
        r = json.load(open(sys.argv[2]))
        run = Run(r["property"], "quick", 1)
        try:
            if "chunk" not in r:
                print(r.get("stderr", ""))
                return 1
            t = os.path.join(run.dir, "t.nd")
            with open(t, "w") as f:
                f.write(json.dumps(r["chunk"]) + "\n")
            rc, log = run.tlc("Trace.tla", "Trace.cfg", {"TRACE": t}, 1, 2000, 300)
            print(log)
            return 1 if "@@MISMATCH" in log else 0
        finally:
            shutil.rmtree(run.dir, ignore_errors=True)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED") or "1")
    run = Run(prop, tier, seed)
    try:
        err = run.run()
        run.evidence()
        known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
        for k in known:
            if k["property"] == prop:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        if run.viol:
            for what, fn in run.viol:
                print("  " + what)
                print("VIOLATION property=%s replay=%s" % (prop, fn))
            return 1
        if err:
            raise err
        print("OK property=%s tier=%s seed=%d: %d histories, %d calls judged, %d model states, %.0f s"
              % (prop, tier, seed, run.traces, sum(run.ops.values()), run.states, time.time() - T0))
        return 0
    except ToolError as x:
        print("CHECK-ERROR property=%s: %s" % (prop, x))
        return 3
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
