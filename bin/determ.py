"""C16: repeated analyses give the same output."""

import hashlib
import json
import os
import subprocess

from vlib import CheckError, parallel, read_ndjson, reject, shards, write_ndjson

GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
ORDER = "SPECIFICATION Spec\nINVARIANT Deterministic\nCHECK_DEADLOCK FALSE\n"
PROCS, LOADS = 2, 2

STD = {
    "a": ["net/http", "os/exec"], "b": ["text/template", "encoding/json", "os"], "c": ["net/http", "go/build", "plugin"],
    "d": ["os/user", "log/syslog", "compress/gzip"], "e": ["net/rpc", "expvar", "time"],
}
BODY = {
    "net/http": "http.Get(\"x\"); http.ListenAndServe(\"x\", nil)", "os/exec": "exec.Command(\"x\").Run()", "os": "os.Open(\"x\")",
    "text/template": "t, _ := template.New(\"x\").Parse(\"y\"); t.Execute(nil, nil)", "encoding/json": "json.Marshal(nil)",
    "go/build": "build.Import(\"x\", \"y\", 0)", "plugin": "plugin.Open(\"x\")", "os/user": "user.Current()",
    "log/syslog": "syslog.New(0, \"x\")", "compress/gzip": "gzip.NewReader(nil)", "net/rpc": "rpc.Dial(\"x\", \"y\")",
    "expvar": "expvar.Do(nil)", "time": "time.LoadLocation(\"x\")",
}


def record(ctx, scenarios, name):
    """Runs the steps of each process, and joins what they saw."""
    d = ctx.sub(name)
    src = write_ndjson(os.path.join(d, "scenarios.ndjson"), scenarios)
    seen = [[] for _ in scenarios]
    for proc in range(1, PROCS + 1):
        out = os.path.join(d, f"out{proc}.ndjson")
        ctx.driver("determ", "-in", src, "-out", out, "-dir", os.path.join(d, "gopath"), "-proc", str(proc), "-loads", str(LOADS))
        for e in read_ndjson(out):
            seen[e["prog"]].append(e)
    return [[{"e": "prog", "source": s["source"]}] + outs for s, outs in zip(scenarios, seen)]


def run(ctx, scenarios, name):
    parts = record(ctx, scenarios, name)
    events = [e for p in parts for e in p]
    stuck = ctx.validate("DetermTrace", write_ndjson(os.path.join(ctx.sub(name), "trace.ndjson"), events))
    if stuck is not None:
        num = sum(e["e"] == "prog" for e in events[:stuck]) - 1
        ctx.violation(f"output differs or is not in order: {json.dumps(events[stuck])[:600]}", kind="determ",
                      scenario=scenarios[num], trace=parts[num])
    return parts


def real_packages(ctx):
    """Runs the command again and again on packages that use the standard library."""
    exe = ctx.build_binary("capslock", "./cmd/capslock")
    d = ctx.sub("std")
    with open(os.path.join(d, "go.mod"), "w") as f:
        f.write("module ex.test/std\n\ngo 1.23\n")
    for name, imports in STD.items():
        os.makedirs(os.path.join(d, name))
        with open(os.path.join(d, name, name + ".go"), "w") as f:
            f.write(f"package {name}\n\nimport (\n" + "".join(f'\t"{i}"\n' for i in imports) + ")\n")
            for k, i in enumerate(imports):
                f.write(f"\nfunc F{k}() {{\n\t{BODY[i]}\n}}\n")
    requests = [("json", ""), ("json", "package"), ("json", "intermediate"), ("graph", ""), ("verbose", "")]
    if not ctx.thorough:
        requests = [requests[0], ctx.rng.choice(requests[1:])]
    jobs = []
    for k, (output, gran) in enumerate(requests):
        for _ in range(ctx.pick(3, 5)):
            names = ctx.rng.sample(sorted(STD), len(STD))
            jobs.append((k, output, gran, names))

    def one(job):
        k, output, gran, names = job
        args = [exe, "-packages", ",".join("./" + n for n in names), "-output", output] + (["-granularity", gran] if gran else [])
        r = subprocess.run(args, cwd=d, env=ctx.env, capture_output=True, timeout=300)
        if r.returncode != 0:
            raise CheckError(f"{args} failed: {r.stderr.decode(errors='replace')[-1000:]}")
        step = {"query": "all", "output": output, "gran": gran, "omit": False, "sel": False}
        return {"e": "out", "step": step, "args": args[1:], "digest": hashlib.sha256(r.stdout).hexdigest()[:16],
                "size": len(r.stdout), "entries": []}

    events = [{"e": "prog", "source": "std"}] + parallel(one, jobs)
    stuck = ctx.validate("DetermTrace", write_ndjson(os.path.join(d, "trace.ndjson"), events))
    if stuck is not None:
        ctx.violation(f"output of the command differs: {json.dumps(events[stuck])[:600]}", kind="determ-command", trace=events)
    if min(e["size"] for e in events[1:]) < 1000:
        raise CheckError("the command reported next to nothing")
    ctx.count(command_runs=len(jobs))
    return [events]


def check(ctx):
    ctx.build_driver()
    ctx.model_check("Order", ORDER, N=ctx.pick(3, 4), SortSeeds=True, SortCallers=True)
    for seeds, callers in ((False, True), (True, False)):
        r = ctx.tlc("Order", ctx.cfg(ORDER, N=4, SortSeeds=seeds, SortCallers=callers))
        if "Invariant Deterministic is violated" not in r.stdout:
            raise CheckError("the search does not depend on the order of sets")
    n = ctx.pick(1, 6)
    progs = []
    for shape, num, funcs, calls in (("rich", 60, 9, 16), ("deep", 120, 22, 44), ("plain", 20, 24, 50)):
        progs += [("prog", p) for p in ctx.generate("ProgGen", GEN, num=num * n, depth=120, salt=shape, MaxFuncs=funcs,
                                                    MaxCalls=calls, Shape=shape)]
    progs += [("flow", p) for p in ctx.generate("FlowGen", GEN, num=12 * n, depth=40, salt="flow", MaxFuns=7, MaxLeaves=4,
                                                MaxCells=4, MaxBody=4, MaxDepth=5)]
    progs += [("helpers", p) for p in ctx.generate("HelpersGen", GEN, num=10 * n, depth=40, salt="helpers", MaxUsers=12)]
    for kind in ("unsafe", "reflect", "nobody"):
        progs += [("scan", p) for p in ctx.generate("ScanGen", GEN, num=6 * n, depth=80, salt=kind, Kind=kind, MaxDecls=14)]
    plans = ctx.generate("DetermGen", GEN, num=len(progs) + 120 * n, depth=60, salt="plans", MaxSteps=10, Processes=PROCS, Loads=LOADS)
    plans += ctx.generate("DetermGen", GEN, num=20 * n, depth=60, salt="long", MaxSteps=40, Processes=PROCS, Loads=LOADS)
    ctx.rng.shuffle(plans)
    scenarios = [{"source": s, "prog": p, "plan": plan["plan"]} for (s, p), plan in zip(progs, plans)]
    scenarios += [{"source": "twins", "prog": p["blocks"], "plan": p["plan"]} for p in plans[len(progs):]]
    ctx.rng.shuffle(scenarios)
    jobs = [lambda: real_packages(ctx)]
    for k, part in enumerate(shards(scenarios, ctx.pick(8, 24))):
        jobs.append(lambda k=k, part=part: run(ctx, part, f"shard{k}"))
    res = parallel(lambda job: job(), jobs, workers=8)
    parts = [p for r in res for p in r]
    ctx.events += sum(len(p) for p in parts)
    ctx.traces += len(parts)
    outs = [e for p in parts for e in p[1:]]
    ctx.count(outputs=len(outs), outputs_repeated=len(outs) - sum(len({json.dumps([e["step"][k] for k in ("query", "output", "gran", "omit", "sel")])
                                                                    for e in p[1:]}) for p in parts),
              **{f"programs_{s}": sum(p[0]["source"] == s for p in parts) for s in ("prog", "flow", "helpers", "scan", "twins")})
    ctx.assumptions = ["orders that the Go runtime and scheduler produce in the runs that are made"]
    ctx.samples = [[e for e in p if e["e"] == "prog" or e["entries"]][:3] for p in parts if len(p) > 4 and len(p[1]["entries"]) in (2, 3)][:1]
    altered = 0
    for p in parts:
        es = [i for i, e in enumerate(p) if e["e"] == "out" and len({x["cap"] for x in e["entries"]}) > 1]
        if not es or p[0]["source"] == "std":
            continue
        e = p[es[-1]]
        reject(ctx, "DetermTrace", p[:es[-1]] + [{**e, "digest": "0"}, e], f"digest{altered}")
        reject(ctx, "DetermTrace", p[:es[-1]] + [{**e, "entries": e["entries"][::-1]}], f"order{altered}")
        altered += 1
        if altered == 2:
            return
    raise CheckError("no report to alter")


PLANS = {"C16": check}
