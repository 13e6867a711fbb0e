"""Checks of the analysis proper: C01 to C07."""

import json
import os
import subprocess

import real
from vlib import CheckError, parallel, read_ndjson, shards, write_ndjson

GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
SEARCH = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS ExactReport SoundReport GoodPaths OneEach ExactGraph ExactNodes\n"
SEARCH_GEN = "INIT Init\nNEXT NoStep\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"

MODES = {
    "C01": "function",
    "C02": "function",
    "C03": "function,package,stats,statsomit,verbose",
    "C04": "function,functionomit,package,packageomit,stats,statsomit,verbose,verboseomit",
    "C05": "function,functionomit,package,packageomit,counts,stats,statsomit,machine,text,verbose,verboseomit",
    "C06": "intermediate,intermediateomit",
    "C07": "graph,graphsel,dot",
}
# Modes that can be run with the command.
COMMAND_MODES = {"function", "functionomit", "package", "packageomit", "intermediate", "intermediateomit", "dot",
                 "machine", "text", "verbose", "verboseomit", "compare"}


def expressible(p):
    """Tells whether a capability map can express the categories of a program."""
    def below(kinds):
        fs = {i + 1 for i, k in enumerate(p["kind"]) if k in kinds}
        for i, par in enumerate(p["par"]):
            if par in fs:
                fs.add(i + 1)
        return fs

    # "init#1" looks like a comment, and names of calls are those of instances.
    inits, generic = below({"init"}), below({"gen", "gmeth", "init"})
    return all(q["cls"][f - 1] == "UNSPECIFIED" for q in (p, p.get("cmp", p)) for f in inits) and \
        not any(set(e) & generic for q in (p, p.get("cmp", p)) for e in q["ign"])


def split_programs(events):
    """Splits a trace into the parts for each program."""
    parts = []
    for e in events:
        if e["e"] == "prog":
            parts.append([])
        parts[-1].append(e)
    return parts


def locate(events, n):
    """Returns the events of the program containing event n, and its number."""
    start = n
    while events[start]["e"] != "prog":
        start -= 1
    num = sum(1 for e in events[:start + 1] if e["e"] == "prog") - 1
    return events[start:n + 1], num


def run_programs(ctx, progs, modes, name, *args):
    """Runs the driver on programs and validates the trace."""
    d = ctx.sub(name)
    src = write_ndjson(os.path.join(d, "scenarios.ndjson"), progs)
    trace = os.path.join(d, "trace.ndjson")
    ctx.driver("core", "-in", src, "-out", trace, "-dir", os.path.join(d, "gopath"), "-modes", modes, *args)
    events = read_ndjson(trace)
    stuck = ctx.validate("CoreTrace", trace, Prop=ctx.prop)
    if stuck is not None:
        part, num = locate(events, stuck)
        ctx.violation(
            f"observed behaviour not allowed at event {json.dumps(part[-1])[:500]}",
            kind="core", modes=modes, scenario=progs[num], trace=part)
    return events


def corrupt(ctx, events):
    """Shows that the trace specification rejects altered observations."""
    prop = ctx.prop
    done = 0
    for part in split_programs(events):
        mode = None
        for i, e in enumerate(part):
            if e["e"] == "mode":
                mode = e["mode"]
            new = None
            if prop == "C01" and e["e"] == "entry" and mode == "function":
                new = part[:i] + part[i + 1:]  # drop an entry
            elif prop == "C02" and e["e"] == "entry" and mode == "function":
                new = part[:i] + [e] + part[i:]  # duplicate it
            elif prop == "C03" and e["e"] == "entry" and len(e["path"]) > 1:
                s = [dict(x) for x in e["sites"]]
                # A call without a position in the source proves nothing.
                if s[1]["line"] == 0:
                    continue
                s[1]["line"] += 1000000  # not the line of any call
                new = part[:i] + [{**e, "sites": s}] + part[i + 1:]
            elif prop == "C04" and e["e"] == "entry" and mode == "function":
                new = part[:i] + [{**e, "type": "DIRECT" if e["type"] != "DIRECT" else "TRANSITIVE"}] + part[i + 1:]
            elif prop == "C05" and e["e"] == "count":
                new = part[:i] + [{**e, "n": e["n"] + 1}] + part[i + 1:]
            elif prop == "C06" and e["e"] == "entry" and mode == "intermediate":
                new = part[:i] + part[i + 1:]
            elif prop == "C07" and e["e"] == "call":
                new = [x for x in part if x != e]  # an edge can be listed for several capabilities
            elif prop == "C17" and e["e"] == "compare" and e["gained"]:
                new = part[:i] + [{**e, "gained": e["gained"][1:]}] + part[i + 1:]
            if new:
                name = write_ndjson(os.path.join(ctx.sub("corrupt"), f"{done}.ndjson"), new)
                if ctx.validate("CoreTrace", name, Prop=prop) is None:
                    raise CheckError("an altered trace was accepted: " + json.dumps(e))
                done += 1
                break
        if done == 2:
            break
    if done == 0:
        raise CheckError("no observation to alter: the run was vacuous")
    ctx.count(corrupted_traces_rejected=done)


def run_all(ctx, progs, modes):
    """Runs the programs with the API, and some of them with the command."""
    ctx.rng.shuffle(progs)
    # Where possible the categories are read from a map.
    progs = [{**p, "map": expressible(p)} for p in progs]
    res = parallel(lambda x: run_programs(ctx, x[1], modes, f"shard{x[0]}"),
                   list(enumerate(shards(progs, ctx.pick(4, 16)))))
    exe = ctx.build_binary("capslock", "./cmd/capslock")
    cmodes = [m for m in modes.split(",") if m in COMMAND_MODES]
    sample = [{**p, "builtin": False} for p in progs if p["map"]][:ctx.pick(60, 400) // (len(cmodes) + 1)]
    res.append(run_programs(ctx, sample, ",".join(cmodes), "command", "-capslock", exe))
    interesting = 0
    for events in res:
        ctx.events += len(events)
        for part in split_programs(events):
            n = sum(1 for e in part if e["e"] == "mode")
            ctx.traces += n
            if len(part) > 1 + 2 * n:
                interesting += 1
    total = len(progs) + len(sample)
    if interesting * 4 < total:
        raise CheckError(f"only {interesting} of {total} programs had anything to report")
    ctx.count(programs=len(progs), programs_with_map=sum(p["map"] for p in progs),
              programs_with_command=len(sample), programs_with_findings=interesting)
    ctx.samples = [p[:4] for p in split_programs(res[0]) if 3 < len(p) < 12][:2]
    ctx.assumptions = [
        "call graph construction and type checking by golang.org/x/tools and go/types",
        "programs are those that ProgGen can express",
    ]
    corrupt(ctx, res[0])
    return res


def dotless(ctx):
    """Packages of a module whose name has no dot."""
    d = ctx.sub("dotless")
    for name, text in (("go.mod", "module mymod\n\ngo 1.23\n"),
                       ("a/a.go", 'package a\n\nimport "mymod/b"\n\nfunc F() { b.G() }\n'),
                       ("b/b.go", 'package b\n\nimport "os"\n\nfunc G() { os.Open("x") }\n')):
        os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
    r = subprocess.run([ctx.build_binary("capslock", "./cmd/capslock"), "-packages=./a", "-output=json"],
                       cwd=d, env=ctx.env, capture_output=True, text=True, timeout=300)
    if r.returncode != 0:
        raise CheckError(f"no report: {r.stderr}")
    if any(e["capability"] == "CAPABILITY_FILES" and e["capabilityType"] == "CAPABILITY_TYPE_DIRECT"
           for e in json.loads(r.stdout)["capabilityInfo"]):
        ctx.known("dotless-module")


def check_compare(ctx):
    ctx.build_driver()
    ctx.model_check("CompareWalk", "SPECIFICATION Spec\nINVARIANT Exact\nCHECK_DEADLOCK FALSE\n",
                    NC=2, NI=ctx.pick(2, 3))
    gen = GEN.replace("Emit", "EmitCompare")
    rich = ctx.generate("CompareGen", gen, num=ctx.pick(1200, 6000), depth=80, salt="rich",
                        MaxFuncs=9, MaxCalls=16, Shape="rich")
    deep = ctx.generate("CompareGen", gen, num=ctx.pick(500, 2500), depth=120, salt="deep",
                        MaxFuncs=22, MaxCalls=44, Shape="deep")
    res = run_all(ctx, rich + deep, "compare")
    seen = [e for r in res for e in r if e["e"] == "compare"]
    kinds = {k: sum(e["outcome"] == k for e in seen) for k in ("same", "different", "error")}
    if min(kinds.values()) < 50:
        raise CheckError(f"too few outcomes of a kind: {kinds}")
    ctx.count(pairs_gained=sum(len(e["gained"]) for e in seen), pairs_lost=sum(len(e["lost"]) for e in seen),
              **{f"comparisons_{k}": n for k, n in kinds.items()})


def check(ctx):
    modes = MODES[ctx.prop]
    ctx.build_driver()
    ctx.model_check("Search", SEARCH, N=2, MaxIgnored=1, AllQueries=True)
    if ctx.thorough:
        ctx.model_check("Search", SEARCH, workers=8, N=3, MaxIgnored=0, AllQueries=False)
    small = ctx.generate("Search", SEARCH_GEN, N=2, MaxIgnored=1 if ctx.thorough else 0,
                         AllQueries=ctx.thorough)
    rich = ctx.generate("ProgGen", GEN, num=ctx.pick(1200, 6000), depth=80, salt="rich",
                        MaxFuncs=9, MaxCalls=16, Shape="rich")
    plain = ctx.generate("ProgGen", GEN, num=ctx.pick(400, 1500), depth=120, salt="plain",
                         MaxFuncs=24, MaxCalls=50, Shape="plain")
    deep = ctx.generate("ProgGen", GEN, num=ctx.pick(700, 2500), depth=120, salt="deep",
                        MaxFuncs=22, MaxCalls=44, Shape="deep")
    chain = ctx.generate("ProgGen", GEN, num=1, depth=1300, salt="chain",
                         MaxFuncs=ctx.pick(1100, 1200), MaxCalls=3, Shape="chain")
    chain += ctx.generate("ProgGen", GEN, num=ctx.pick(15, 60), depth=150, salt="short chain",
                          MaxFuncs=90, MaxCalls=3, Shape="chain")
    chain += ctx.generate("ProgGen", GEN, num=ctx.pick(5, 20), depth=300, salt="middle chain",
                          MaxFuncs=240, MaxCalls=3, Shape="chain")
    tree = ctx.generate("ProgGen", GEN, num=ctx.pick(3, 20), depth=200, salt="tree",
                        MaxFuncs=110, MaxCalls=20, Shape="tree")
    star = ctx.generate("ProgGen", GEN, num=ctx.pick(1, 4), depth=800, salt="star",
                        MaxFuncs=600, MaxCalls=20, Shape="star")
    ctx.count(small_programs_exhaustive=len(small))
    run_all(ctx, small + rich + plain + deep + chain + tree + star, modes)
    real.check(ctx)
    if ctx.prop == "C04":
        dotless(ctx)


PLANS = {c: check for c in MODES}
PLANS["C17"] = check_compare
