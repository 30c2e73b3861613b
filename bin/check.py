#!/usr/bin/env python3
"""Runs one property's check: model checking of the specification (TLC), recording of
histories of the real code by the driver (/verif/harness, built from /repo's working tree), and
validation of those histories against the specification (TLC again).

    check.py PROPERTY [quick|thorough]

exit 0: the property held on everything explored; 1: violation (VIOLATION line); 2: no answer.
"""
import concurrent.futures as cf
import fcntl
import glob
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
import plans  # noqa: E402

SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def build_harness(need_bin):
    """cargo decides by time stamps; removing the fingerprints makes it look at the sources."""
    target = os.path.join(BUILD, "target")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for pat in ("cbm-*", "cbmdrv-*"):
            for p in glob.glob(os.path.join(target, "*", ".fingerprint", pat)):
                shutil.rmtree(p, ignore_errors=True)
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
        env["RUSTFLAGS"] = "--cfg cbm_verif"
        cmd = ["cargo", "build", "--offline", "--quiet"]
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode != 0:
            raise NoAnswer("harness build failed:\n" + r.stdout[-4000:])
        if need_bin:
            cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", "/repo/Cargo.toml", "--bin", "cdisk"]
            lockf = "/repo/Cargo.lock"
            had = open(lockf, "rb").read() if os.path.exists(lockf) else None
            r = subprocess.run(cmd, cwd=BUILD, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=600)
            now = open(lockf, "rb").read() if os.path.exists(lockf) else None
            if now != had:
                if had is None:
                    os.remove(lockf)
                else:
                    open(lockf, "wb").write(had)
            if r.returncode != 0:
                raise NoAnswer("cdisk build failed:\n" + r.stdout[-4000:])
    return os.path.join(target, "debug", "cbmdrv")


def limit():
    gb = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (gb, gb))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def tlc(module, cfg_text, rundir, name, env=None, workers=1, heap="2g", timeout=600, extra=()):
    """Run TLC; returns dict(status, distinct, generated, out)."""
    d = os.path.join(rundir, name)
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, module + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    jit = ["-XX:TieredStopAtLevel=1"] if workers == 1 and timeout <= 900 else []
    gc = ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
    cmd = ["java"] + jit + gc + ["-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", JARS, "-DTLA-Library=" + SPEC, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", cfg] \
        + list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    outp = os.path.join(d, "tlc.out")
    with open(outp, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -9
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    text = open(outp, errors="replace").read()
    res = {"rc": rc, "out": text, "outfile": outp, "distinct": 0, "generated": 0}
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
    if m:
        res["generated"], res["distinct"] = int(m[-1][0]), int(m[-1][1])
    if rc == -9:
        res["status"] = "timeout"
    elif "No error has been found" in text:
        res["status"] = "ok"
    elif "is violated" in text or "Deadlock reached" in text or "Assumption" in text and "is false" in text:
        res["status"] = "violated"
    elif "OutOfMemoryError" in text or "Parsing or semantic analysis failed" in text or "Could not create the Java" in text:
        res["status"] = "broken"
    elif "Error:" in text:
        res["status"] = "evalerror"
    else:
        res["status"] = "broken"
    return res


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rundir = os.path.join(BUILD, "run-%s-%s-%d" % (prop, tier, os.getpid()))
        self.lock = threading.Lock()
        self.states = self.trans = self.traces = self.events = 0
        self.samples, self.models, self.violations = [], [], []
        self.kinds = {}

    # ------------------------------------------------------------- one driver run
    def drive(self, args, trace, timeout):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else self.rundir
        scratch = tempfile.mkdtemp(prefix="cbmchk-", dir=base)
        env = dict(os.environ, CBMDRV_SCRATCH=scratch, RUST_BACKTRACE="0", CDISK=os.path.join(BUILD, "target", "debug", "cdisk"))
        err = trace + ".err"
        why = None
        with open(err, "w") as ef:
            try:
                r = subprocess.run([self.drv] + args + [trace], env=env, stdout=subprocess.DEVNULL, stderr=ef,
                                   preexec_fn=limit, timeout=timeout, cwd=scratch)
                if r.returncode != 0:
                    why = "exit %d" % r.returncode
            except subprocess.TimeoutExpired:
                why = "timeout"
        shutil.rmtree(scratch, ignore_errors=True)
        if why == "timeout":
            raise NoAnswer("driver timed out: %s" % args)
        if why:
            last = ""
            if os.path.exists(trace):
                with open(trace, "rb") as f:
                    data = f.read()
                last = data.rsplit(b"\n", 2)[-2].decode("latin1") if data.count(b"\n") > 1 else data.decode("latin1")
                # cut a half-written line
                keep = data[: data.rfind(b"\n") + 1]
                with open(trace, "wb") as f:
                    f.write(keep)
            if '"op":"fatal"' not in last:
                with open(trace, "a") as f:
                    f.write(json.dumps({"op": "fatal", "res": "abort", "why": why}) + "\n")

    def record(self, path):
        n = 0
        with open(path) as f:
            for line in f:
                n += 1
                m = re.match(r'\{"op":"([a-z0-9]+)"', line)
                if m:
                    with self.lock:
                        self.kinds[m.group(1)] = self.kinds.get(m.group(1), 0) + 1
        return n

    def violation(self, name, module, trace, res):
        """Keep what is needed to look at it again: the history up to the failing event."""
        rep = os.path.join(VERIF, "build", "replay")
        os.makedirs(rep, exist_ok=True)
        base = os.path.join(rep, "%s-%s-%d" % (self.prop, name, os.getpid()))
        info = {"property": self.prop, "module": module, "unit": name, "seed": self.seed, "tier": self.tier}
        if trace:
            m = re.findall(r"l = (\d+)", res["out"])
            n = int(m[-1]) if m else 0
            b = re.findall(r"bad = (\{.*?\})", res["out"], re.S)
            if res["status"] == "evalerror":
                n += 1
                info["failed"] = "event not explainable: " + " ".join(
                    re.findall(r"Error: (.*)", res["out"])[:3])[:600]
            else:
                info["failed"] = re.sub(r"\s+", " ", b[-1]) if b else "?"
            lines = open(trace).read().splitlines()
            with open(base + ".ndjson", "w") as f:
                f.write("\n".join(lines[:n]) + "\n")
            info["event"] = lines[n - 1][:1500] if 0 < n <= len(lines) else ""
            info["index"] = n
            info["history"] = base + ".ndjson"
        else:
            info["failed"] = (re.findall(r"Error: (.*)", res["out"]) or ["?"])[0]
            info["tlc_output"] = res["out"][-6000:]
        with open(base + ".json", "w") as f:
            json.dump(info, f, indent=1)
        with self.lock:
            self.violations.append((base + ".json", info))

    # ------------------------------------------------------------- jobs
    def job_trace(self, j):
        name = j["name"]
        trace = os.path.join(self.rundir, name + ".ndjson")
        args = [a.replace("@RUN", self.rundir) for a in j["drv"]]
        self.drive(args, trace, j.get("dtime", 300))
        n = self.record(trace)
        cfg = plans.trace_cfg(j["mod"], self.prop)
        res = tlc(j["mod"], cfg, self.rundir, name, env={"TRACE": trace}, timeout=j.get("time", 500), heap=j.get("heap", "2g"))
        if res["status"] == "ok" and res["distinct"] < n + 1:
            raise NoAnswer("%s: only %d of %d events were judged" % (name, res["distinct"] - 1, n))
        if res["status"] in ("violated", "evalerror"):
            self.violation(name, j["mod"], trace, res)
        elif res["status"] != "ok":
            raise NoAnswer("%s: TLC %s\n%s" % (name, res["status"], res["out"][-2000:]))
        with self.lock:
            self.states += res["distinct"]
            self.trans += max(0, res["generated"] - 1)
            self.traces += 1
            self.events += n
            if len(self.samples) < 3:
                with open(trace) as f:
                    L = f.read().splitlines()
                self.samples.append({"unit": name, "events": n, "driver": " ".join(args),
                                     "excerpt": [re.sub(r'"(raw|mb|chg)":\[.*?\](?=,"(mb|bam|raw|ls|hd|bf)"|\})', r'"\1":"..."', x)[:240]
                                                 for x in L[len(L) // 2: len(L) // 2 + 4]]})
        os.remove(trace)

    def job_mc(self, j):
        name = j["name"]
        res = tlc(j["mod"], j["cfg"], self.rundir, name, workers=j.get("workers", 2), heap=j.get("heap", "3g"),
                  timeout=j.get("time", 600), extra=j.get("extra", ()))
        if j.get("expect") == "violated":
            # a deliberately wrong design: the invariants must tell
            if res["status"] != "violated":
                raise NoAnswer("wrong design %s was not rejected: %s\n%s" % (name, res["status"], res["out"][-2000:]))
            with self.lock:
                self.states += res["distinct"]
                self.trans += res["generated"]
                self.models.append({"model": name + " (wrong design, rejected)", "distinct_states": res["distinct"],
                                    "transitions": res["generated"], "exhaustive": False})
            return
        if res["status"] == "violated" or res["status"] == "evalerror":
            # The models do not depend on /repo, so this is a defect of the specification.
            raise NoAnswer("model %s fails its own properties:\n%s" % (name, res["out"][-3000:]))
        if res["status"] != "ok":
            raise NoAnswer("%s: TLC %s\n%s" % (name, res["status"], res["out"][-2000:]))
        with self.lock:
            self.states += res["distinct"]
            self.trans += res["generated"]
            self.models.append({"model": name, "distinct_states": res["distinct"], "transitions": res["generated"],
                                "exhaustive": True})

    def job_gen(self, j):
        """Behaviours enumerated by TLC from the specification, replayed in the real code."""
        name = j["name"]
        res = tlc(j["gen"], j["gencfg"], self.rundir, name + "-gen", workers=1, timeout=j.get("time", 500),
                  extra=j.get("extra", ()), heap="3g")
        if res["status"] != "ok" and not ("simulate" in " ".join(j.get("extra", ())) and res["rc"] == 0):
            raise NoAnswer("%s: TLC %s\n%s" % (name, res["status"], res["out"][-2000:]))
        scripts = plans.scripts_from(j, res["out"], self.rundir, name)
        with self.lock:
            self.states += res["distinct"]
            self.trans += res["generated"]
            self.models.append({"model": name + " (behaviours generated)", "distinct_states": res["distinct"],
                                "transitions": res["generated"], "behaviours": scripts[1]})
        return [{"kind": "trace", "name": "%s-%d" % (name, i), "mod": j["mod"],
                 "drv": [j["mode"], p, str(self.seed * 1000 + i)]} for i, p in enumerate(scripts[0])]

    def run(self):
        t0 = time.time()
        shutil.rmtree(self.rundir, ignore_errors=True)
        os.makedirs(self.rundir)
        for old in glob.glob(os.path.join(BUILD, "replay", self.prop + "-*")):
            os.remove(old)
        plan = plans.plan(self.prop, self.tier, self.seed)
        self.drv = build_harness(plan.get("cdisk", False))
        log("built in %.1f s" % (time.time() - t0))
        jobs = plan["jobs"]
        err = None
        with cf.ThreadPoolExecutor(max_workers=CORES) as ex:
            pend = {ex.submit(self.one, j): j for j in jobs}
            while pend:
                done, _ = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    pend.pop(f)
                    try:
                        for j in f.result() or []:
                            pend[ex.submit(self.one, j)] = j
                    except NoAnswer as e:
                        err = err or e
                    except Exception as e:  # noqa: BLE001
                        err = err or NoAnswer(repr(e))
        wall = time.time() - t0
        self.evidence(plan, wall)
        shutil.rmtree(self.rundir, ignore_errors=True)
        if self.violations:
            for path, info in self.violations[:5]:
                log("  %s event %s: %s" % (info["unit"], info.get("index"), info["failed"]))
                log("  " + str(info.get("event", ""))[:300])
            log("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][0]))
            return 1
        if err:
            log("NO ANSWER: %s" % err)
            return 2
        log("%s %s: held; %d states, %d histories, %d events, %.1f s" %
            (self.prop, self.tier, self.states, self.traces, self.events, wall))
        return 0

    def one(self, j):
        if self.violations:
            return None  # decided
        return {"trace": self.job_trace, "mc": self.job_mc, "gen": self.job_gen}[j["kind"]](j)

    def evidence(self, plan, wall):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": plan["level"],
              "coverage": {"states": self.states, "transitions": self.trans,
                           "traces_validated_against_impl": self.traces, "events_judged": self.events,
                           "events_by_kind": self.kinds, "models": self.models, "samples": self.samples},
              "assumptions": plan["assumptions"], "wall_s": round(wall, 1), "violations": len(self.violations)}
        tmp = os.path.join(d, ".%s.%d" % (self.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, self.prop + ".json"))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        return Check(prop, tier).run()
    except NoAnswer as e:
        log("NO ANSWER: %s" % e)
        return 2
    except subprocess.TimeoutExpired as e:
        log("NO ANSWER: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
