"""Shared machinery of the checks: building the driver, running TLC to check,
generate and validate, and writing evidence."""

import concurrent.futures
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check could not be carried out (this is not a violation)."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def base_env():
    """The environment that the repository is built with."""
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"],
                         capture_output=True, check=True, env={"PATH": os.environ["PATH"]})
    env = dict(kv.split("=", 1) for kv in out.stdout.decode().split("\0") if "=" in kv)
    for k in ("PWD", "OLDPWD", "SHLVL", "_"):
        env.pop(k, None)
    return env


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.start = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.env = base_env()
        self.env["TMPDIR"] = self.sub("tmp")
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.counters = {}
        self.samples = []
        self.models = []
        self.assumptions = []
        self.rng = random.Random(f"{prop}-{seed}")
        self.binaries = {}
        self.lock = threading.Lock()

    def cleanup(self):
        subprocess.run(["chmod", "-R", "u+w", self.scratch], capture_output=True)
        shutil.rmtree(self.scratch, ignore_errors=True)

    def sub(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def tlc_seed(self, salt=""):
        h = hashlib.sha256(f"{self.seed}/{self.prop}/{salt}".encode()).digest()
        return int.from_bytes(h[:6], "big")

    def count(self, **kw):
        for k, v in kw.items():
            self.counters[k] = self.counters.get(k, 0) + v

    # -- building ---------------------------------------------------------

    def build_driver(self):
        d = self.sub("build")
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(VERIF, "driver", f), os.path.join(d, f))
        exe = os.path.join(d, "driver")
        r = subprocess.run(["go", "build", "-modfile", os.path.join(d, "go.mod"), "-o", exe, "."],
                           cwd=os.path.join(VERIF, "driver"), env=self.env, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError(f"building the driver failed:\n{r.stderr}")
        self.exe = exe
        return exe

    def build_binary(self, name, pkg):
        if name not in self.binaries:
            exe = os.path.join(self.sub("binaries"), name)
            r = subprocess.run(["go", "build", "-o", exe, pkg], cwd=REPO, env=self.env,
                               capture_output=True, text=True)
            if r.returncode != 0:
                raise CheckError(f"building {pkg} failed:\n{r.stderr}")
            self.binaries[name] = exe
        return self.binaries[name]

    def driver(self, *args, timeout=900):
        try:
            r = subprocess.run([self.exe, *args], env=self.env, capture_output=True, text=True,
                               timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError(f"driver {args[0]} timed out")
        if r.returncode != 0:
            raise CheckError(f"driver {' '.join(args)} failed ({r.returncode}):\n{r.stderr[-4000:]}")
        return r

    # -- TLC --------------------------------------------------------------

    def cfg(self, text, **consts):
        """Writes a TLC configuration with the given constants."""
        lines = [text.rstrip(), "CONSTANTS"] if consts else [text.rstrip()]
        for k, v in consts.items():
            if isinstance(v, bool):
                v = "TRUE" if v else "FALSE"
            elif isinstance(v, str):
                v = json.dumps(v)
            elif isinstance(v, (set, frozenset)):
                v = "{" + ", ".join(json.dumps(x) for x in sorted(v)) + "}"
            lines.append(f"  {k} = {v}")
        fd, name = tempfile.mkstemp(suffix=".cfg", dir=self.sub("cfg"))
        with os.fdopen(fd, "w") as f:
            f.write("\n".join(lines) + "\n")
        return name

    def tlc(self, module, cfg, *args, workers=1, heap="2g", timeout=800):
        meta = tempfile.mkdtemp(dir=self.sub("meta"))
        cmd = ["java", f"-Xmx{heap}", "-Xss16m", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={self.sub('jtmp')}",
               "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
               "-workers", str(workers), "-config", cfg, *args, module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=self.env, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC timed out on {module}")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r

    def tally(self, out, model=None):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            g, d = int(m[-1][0]), int(m[-1][1])
            with self.lock:
                self.transitions += g
                self.states += d
            if model:
                self.models.append({"model": model, "generated": g, "distinct": d})

    def model_check(self, module, text, workers=4, heap="4g", timeout=800, **consts):
        """Checks the specification itself; a failure is an error of the check."""
        r = self.tlc(module, self.cfg(text, **consts), workers=workers, heap=heap, timeout=timeout)
        if r.returncode != 0 or "No error has been found" not in r.stdout:
            raise CheckError(f"model checking {module} failed ({r.returncode}):\n{r.stdout[-3000:]}\n{r.stderr[-2000:]}")
        self.tally(r.stdout, f"{module} {consts}")

    @staticmethod
    def scenarios_in(out, tag="SCENARIO"):
        prefix = f'<<"{tag}", '
        res = []
        for line in out.splitlines():
            if line.startswith(prefix):
                res.append(json.loads(json.loads(line[len(prefix):-2])))
        return res

    def generate(self, module, text, num=None, depth=100, salt="", **consts):
        """Returns scenarios printed by behaviours of a generator: num random
        ones, or all of them if num is None."""
        cfg = self.cfg(text, **consts)
        if num is None:
            r = self.tlc(module, cfg)
        else:
            r = self.tlc(module, cfg, "-simulate", f"num={num}", "-depth", str(depth),
                         "-seed", str(self.tlc_seed(salt)))
        res = self.scenarios_in(r.stdout)
        if r.returncode != 0 or not res:
            raise CheckError(f"generating with {module} failed ({r.returncode}):\n{r.stdout[-3000:]}\n{r.stderr[-2000:]}")
        return res

    def validate(self, module, trace, heap="3g", **consts):
        """Returns None if the specification accepts the trace, otherwise the
        number of events that it accepted before getting stuck."""
        cfg = self.cfg("SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n",
                       TraceFile=trace, **consts)
        r = self.tlc(module, cfg, heap=heap)
        depth = re.search(r"depth of the complete state graph search is (\d+)", r.stdout)
        if r.returncode == 0 and "No error has been found" in r.stdout:
            self.tally(r.stdout)
            return None
        if depth and "Postcondition TraceAccepted" in r.stdout and "is false" in r.stdout:
            return int(depth.group(1)) - 1
        raise CheckError(f"validating with {module} failed ({r.returncode}):\n{r.stdout[:12000]}\n...\n{r.stdout[-3000:]}\n{r.stderr[-2000:]}")

    # -- results ----------------------------------------------------------

    def known(self, name):
        """Prints a defect recorded in known_findings.txt that was seen."""
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) (\S+) (.*)", line)
                if m and m.group(1) == self.prop and m.group(2) == name:
                    print(f"KNOWN-FINDING: property={self.prop} {m.group(3)}")
                    return
        raise CheckError(f"no known finding {name}")

    def violation(self, what, **replay):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        name = os.path.join(d, f"{self.prop}.replay.json")
        with open(name, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier, **replay},
                      f, indent=1)
        raise Violation(what, name)

    def write_evidence(self, violations=()):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            **({"events": self.events} if self.events else {}),
            "models": self.models,
            **self.counters,
            "samples": self.samples[:3] or ["none"],
        }
        with open(os.path.join(d, f"{self.prop}.json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed,
                       "level": "model_checking", "coverage": cov,
                       "wall_s": round(time.time() - self.start, 2),
                       "assumptions": self.assumptions,
                       "violations": list(violations)}, f, indent=1)


def write_ndjson(name, items):
    with open(name, "w") as f:
        for x in items:
            f.write(json.dumps(x) + "\n")
    return name


def read_ndjson(name):
    with open(name) as f:
        return [json.loads(line) for line in f]


def conform(ctx, command, module, scenarios, name, *args, **consts):
    """Runs the driver on scenarios, one event each, and validates."""
    d = ctx.sub(name)
    src = write_ndjson(os.path.join(d, "scenarios.ndjson"), scenarios)
    trace = os.path.join(d, "trace.ndjson")
    ctx.driver(command, "-in", src, "-out", trace, *args)
    events = read_ndjson(trace)
    stuck = ctx.validate(module, trace, **consts)
    if stuck is not None:
        ctx.violation(f"observed behaviour not allowed: {json.dumps(events[stuck])[:600]}",
                      kind=command, event=events[stuck], position=stuck)
    return events


def reject(ctx, module, events, name, **consts):
    """Shows that an altered trace is rejected."""
    trace = write_ndjson(os.path.join(ctx.sub("corrupt"), name + ".ndjson"), events)
    if ctx.validate(module, trace, **consts) is None:
        raise CheckError(f"altered trace {name} was accepted")
    ctx.count(corrupted_traces_rejected=1)


def shards(items, n):
    n = max(1, min(n, len(items)))
    return [items[i::n] for i in range(n)]


def parallel(fn, items, workers=4):
    """Runs fn on each item; if several fail, a violation is preferred."""
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        futures = [ex.submit(fn, x) for x in items]
        results, errors = [], []
        for f in futures:
            try:
                results.append(f.result())
            except Exception as e:  # noqa: BLE001
                errors.append(e)
    for e in errors:
        if isinstance(e, Violation):
            raise e
    if errors:
        raise errors[0]
    return results


def main(plans):
    if len(sys.argv) < 2 or sys.argv[1] not in plans:
        print("usage: check.py PROPERTY", file=sys.stderr)
        sys.exit(64)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = Ctx(prop, tier, seed)
    code = 0
    try:
        plans[prop](ctx)
        ctx.write_evidence()
        print(f"{prop}: held; {ctx.traces} traces, {ctx.states} states, {time.time() - ctx.start:.1f} s")
    except Violation as v:
        ctx.write_evidence([v.what])
        print(f"{prop}: {v.what}")
        print(f"VIOLATION property={prop} replay={v.replay}")
        code = 1
    except CheckError as e:
        print(f"{prop}: error: {e}", file=sys.stderr)
        code = 3
    except Exception:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        code = 3
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", ctx.scratch)
        else:
            ctx.cleanup()
    sys.exit(code)
