"""Machinery shared by every check: builds the harness from /repo's working tree,
runs TLC on the specifications, validates recorded traces, writes evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, ".build")
TARGET = os.path.join(BUILD, "target")
CLASSES = os.path.join(BUILD, "classes")
EVID = os.path.join(ROOT, "evidence")
REPLAY = os.path.join(BUILD, "replay")
TLA = "/opt/veriftools/tla"
JARS = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
CONF = os.path.join(TARGET, "release", "conf")


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(
        HOME="/root",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_TARGET_DIR=TARGET,
        LANG="C.UTF-8",
    )
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTFLAGS", None)
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def build():
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(REPLAY, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    src = os.path.join(SPEC, "java", "Flt.java")
    cls = os.path.join(CLASSES, "Flt.class")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        os.makedirs(CLASSES, exist_ok=True)
        p = subprocess.run(["javac", "-cp", JARS, "-d", CLASSES, src], capture_output=True, text=True)
        if p.returncode:
            raise ToolError("javac failed:\n" + p.stderr)
    stale_sources()
    p = subprocess.run(
        ["cargo", "build", "--release", "--offline", "--quiet"],
        cwd=os.path.join(ROOT, "harness"), env=env(), capture_output=True, text=True,
    )
    if p.returncode:
        raise ToolError("harness does not build against /repo:\n" + p.stderr[-6000:])


def stale_sources():
    """cargo judges freshness by modification times; judge by content instead."""
    h = hashlib.sha256()
    for d, dirs, files in os.walk("/repo"):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "node_modules", "docs", "test_models"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                h.update(os.path.join(d, f).encode())
                with open(os.path.join(d, f), "rb") as fh:
                    h.update(fh.read())
    stamp = os.path.join(TARGET, "sources.sha256")
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != h.hexdigest() and old is not None:
        fp = os.path.join(TARGET, "release", ".fingerprint")
        names = ("simple-", "model-", "calendar-", "weather-", "air-", "heat-", "light-", "matrix-", "geometry-",
                 "rendering-", "polynomial-", "schedule-", "communication-", "utils-", "derive-")
        for n in os.listdir(fp) if os.path.isdir(fp) else ():
            if n.startswith(names):
                shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    os.makedirs(TARGET, exist_ok=True)
    with open(stamp, "w") as fh:
        fh.write(h.hexdigest())


class Tlc:
    """Result of one TLC run."""

    def __init__(self, code, out, wall):
        self.code, self.out, self.wall = code, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.generated, self.distinct = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r"The number of states generated: (\d+)", out)
            self.generated = self.distinct = int(m[-1]) if m else 0


def tlc(module, cfg, scratch, tlc_env=None, workers=1, extra=(), heap="3g", timeout=800):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    e = env()
    e.update(tlc_env or {})
    cmd = ["java", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(1, min(4, workers))}", "-Xss64m", f"-Xmx{heap}",
           f"-Djava.io.tmpdir={meta}", "-cp", f"{JARS}:{CLASSES}", "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-nowarning",
           "-config", cfg, *extra, module]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        code, out = p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as x:
        code, out = 255, (x.stdout or b"").decode(errors="replace") + "\nTIMEOUT"
    shutil.rmtree(meta, ignore_errors=True)
    return Tlc(code, out, time.time() - t)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.scratch = tempfile.mkdtemp(prefix=f"vf-{prop}-")
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.mc_states = self.mc_transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.jobs = []
        self.violations = []
        self.notes = []
        self.exhaustive = True
        self.pool = cf.ThreadPoolExecutor(8)
        self.known = self.read_known()
        self.known_seen = set()

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def read_known(self):
        """id -> what fails, of the genuine defects that are recorded and not repaired"""
        known = {}
        for line in open(os.path.join(ROOT, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == self.prop:
                known[m.group(2)] = m.group(3)
        with open(os.path.join(self.scratch, "known.ndjson"), "w") as f:
            f.write(json.dumps(list(known)) + "\n")
        return known

    # -- model checking of the specification itself ------------------------
    def mc(self, module, cfg=None, workers=4, extra=(), heap="4g", timeout=700, expect_violation=None):
        cfg = cfg or module + ".cfg"
        r = tlc(module + ".tla", cfg, self.scratch, workers=workers, extra=extra, heap=heap, timeout=timeout)
        if r.code != 0:
            raise ToolError(f"TLC on {module} ({cfg}) exited {r.code}: the specification itself fails\n" + r.out[-4000:])
        self.states += r.distinct
        self.transitions += r.generated
        self.mc_states += r.distinct
        self.mc_transitions += r.generated
        self.jobs.append({"tlc_model": module, "cfg": cfg, "distinct_states": r.distinct,
                          "states_generated": r.generated, "wall_s": round(r.wall, 1)})
        return r

    # -- behaviours generated from the specification -----------------------
    def generate(self, module, cfg=None, simulate=None, depth=None, workers=1, timeout=400, heap="4g"):
        """Runs TLC on a generator module; every line `"SCN:..."` it prints is one behaviour (JSON)."""
        cfg = cfg or module + ".cfg"
        extra = []
        if simulate:
            extra += ["-simulate", f"num={simulate}", "-seed", str(self.seed), "-depth", str(depth or 40)]
        r = tlc(module + ".tla", cfg, self.scratch, workers=workers, extra=extra, heap=heap, timeout=timeout)
        if r.code != 0:
            raise ToolError(f"TLC on generator {module} exited {r.code}\n" + r.out[-4000:])
        scn = []
        for line in r.out.splitlines():
            if line.startswith('"SCN:'):
                scn.append(json.loads(line)[4:])
        if not scn:
            raise ToolError(f"generator {module} produced no behaviour\n" + r.out[-3000:])
        scn = list(dict.fromkeys(scn))
        self.states += r.distinct
        self.transitions += r.generated
        self.mc_states += r.distinct
        self.mc_transitions += r.generated
        self.jobs.append({"tlc_generator": module, "behaviours": len(scn), "distinct_states": r.distinct,
                          "states_generated": r.generated, "wall_s": round(r.wall, 1)})
        path = os.path.join(self.scratch, f"{module}-{len(self.jobs)}.scn")
        with open(path, "w") as f:
            f.write("\n".join(scn) + "\n")
        return path

    # -- running the implementation ----------------------------------------
    def record(self, job, shards=4, scenarios=None, args=(), timeout=600):
        out = os.path.join(self.scratch, f"{job}-{len(self.jobs)}")
        os.makedirs(out)
        work = os.path.join(out, "work")
        os.makedirs(work)
        cmd = [CONF, job, "--out", out, "--shards", str(shards), "--seed", str(self.seed), "--tier", self.tier,
               "--work", work]
        if scenarios:
            cmd += ["--scenarios", scenarios]
        cmd += list(args)
        t = time.time()
        e = env()
        e.setdefault("RAYON_NUM_THREADS", "4")
        with open(os.path.join(out, "log"), "w") as log:
            p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, cwd=work, env=e, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
        if rc != 0:
            cur = ""
            try:
                cur = open(os.path.join(out, "current")).read()
            except OSError:
                pass
            tail = open(os.path.join(out, "log"), errors="replace").read()[-3000:]
            if rc == 2:
                raise ToolError(f"harness job {job} failed: {tail}")
            self.violation(job, {"why": f"the code under test did not return (harness ended with {rc}; 86 = watchdog, "
                                        "negative = killed by a signal)", "current_behaviour": cur, "log_tail": tail})
            return None
        files = sorted(f for f in os.listdir(out) if f.startswith("trace-") and os.path.getsize(os.path.join(out, f)))
        info = json.load(open(os.path.join(out, "info.json")))
        self.jobs.append({"harness_job": job, **info, "wall_s": round(time.time() - t, 1)})
        return [os.path.join(out, f) for f in files], info

    # -- validating recorded traces against the specification --------------
    def validate(self, module, rec, cfg=None, heap="2500m", timeout=780, job="", stateless=False):
        """Every shard must be accepted by the trace specification `module`."""
        if rec is None:
            return
        files, info = rec
        cfg = cfg or module + ".cfg"
        if not files:
            raise ToolError(f"{module}: no trace recorded")

        def one(path):
            return path, tlc(module + ".tla", cfg, self.scratch, {"TRACE": path, "KNOWN": os.path.join(self.scratch, "known.ndjson")},
                             workers=1, heap=heap, timeout=timeout)

        t = time.time()
        gen = dis = 0
        for path, r in self.pool.map(one, files):
            gen += r.generated
            dis += r.distinct
            self.known_seen.update(re.findall(r'"KNOWN:([^"]+)"', r.out))
            if r.code == 0:
                continue
            if r.code in (11, 12) or (r.code == 75 and "The behavior up to this point is" in r.out
                                      and "OutOfMemory" not in r.out and "StackOverflow" not in r.out):
                self.rejected(module, path, r)
            else:
                raise ToolError(f"TLC on {module} exited {r.code}\n" + r.out[-4000:])
        self.states += dis
        self.transitions += gen
        self.traces += info["behaviours"]
        self.events += info["events"]
        if len(self.samples) < 6:
            with open(files[0]) as f:
                for _, line in zip(range(3), f):
                    self.samples.append(json.loads(line) if len(line) < 1500 else line[:1500])
        self.jobs.append({"trace_spec": module, "events_accepted": info["events"], "distinct_states": dis,
                          "wall_s": round(time.time() - t, 1)})

    def rejected(self, module, path, r):
        m = re.findall(r"^(?:/\\ )?i = (\d+)", r.out, re.M)
        lines = open(path).read().splitlines()
        i = int(m[-1]) if m else 0
        # deadlock: event i+1 had no matching transition; invariant: event i is bad
        k = i if r.code == 12 else i + 1
        k = min(max(k, 1), len(lines))
        start = k
        while start > 1 and '"new":true' not in lines[start - 1].replace(" ", ""):
            start -= 1
            if k - start > 60:
                break
        ev = [json.loads(x) for x in lines[start - 1:k]]
        self.violation(module, {"why": f"event {k} of the recorded trace is not a behaviour of {module}",
                                "event": ev[-1], "history": ev[:-1], "tlc_tail": r.out[-1500:]})

    def violation(self, where, data):
        self.violations.append((where, data))

    def finish(self, level="model_checking"):
        shutil.rmtree(self.scratch, ignore_errors=True)
        wall = round(time.time() - self.t0, 2)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "events_validated_against_impl": self.events,
                "model_states": self.mc_states, "model_transitions": self.mc_transitions,
                "jobs": self.jobs, "samples": self.samples or ["none recorded"],
            },
            "assumptions": ["IEEE-754 double arithmetic of spec/java/Flt.java stands for the reals",
                            "harness/src records inputs and outputs of the public API faithfully"],
            "wall_s": wall, "violations": len(self.violations), "known_findings": sorted(self.known_seen),
        }
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(self.known_seen):
            print(f"KNOWN-FINDING: property={self.prop} {k}: {self.known.get(k, '')}")
        for n, (where, data) in enumerate(self.violations):
            path = os.path.join(REPLAY, f"{self.prop}-{n}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "where": where, "seed": self.seed, "tier": self.tier, **data}, f, indent=1)
            print(f"VIOLATION property={self.prop} replay={path}")
            print(f"  {where}: {data['why']}")
            print("  " + json.dumps(data.get("event", data.get("current_behaviour", "")))[:1500])
        return 1 if self.violations else 0
