"""C09 and C10: capability maps and classifiers."""

import json
import os

from vlib import CheckError, REPO, conform, parallel, read_ndjson, reject, shards, write_ndjson

GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def read_builtin():
    """Reads the built-in map of the repository."""
    m = {"func": {}, "package": {}, "unanalyzed": [], "edges": [], "suffixes": []}
    with open(os.path.join(REPO, "interesting", "interesting.cm")) as f:
        for line in f:
            w = line.split("#")[0].split()
            if not w:
                continue
            if w[0] in ("func", "package"):
                m[w[0]][w[1]] = w[2]
            elif w[0] == "unanalyzed":
                m["unanalyzed"].append(w[1])
            elif w[0] == "ignore_edge":
                m["edges"].append([w[1], w[2]])
            elif w[0] == "cgo_suffix":
                m["suffixes"].append(w[1])
            else:
                raise CheckError(f"unknown keyword in the built-in map: {line}")
    return m


def package_of(name):
    if name.startswith("("):
        return name[1:name.rindex(").")].lstrip("*").rpartition(".")[0]
    return name.rpartition(".")[0]


def universe(ctx, builtin, whole=False):
    """Functions, packages, suffixes and calls that maps talk about."""
    funcs = ["ex.test/a.F", "ex.test/a.G", "(ex.test/a.T).M", "(*ex.test/a.T).M", "ex.test/a.F$1", "ex.test/a/b.F",
             "plain.F", "plain.f_Cfunc_CBytes", "ex.test/a._cgo_runtime_cgocall", "ex.test/a.x_Cfunc_Foo",
             "ex.test/a.F_Cfunc_Foo1"]
    pkgs = ["ex.test/a", "ex.test/a/b", "ex.test", "plain"]
    suffixes = ["_Cfunc_Foo", ".M", "F", "_Cfunc_CBytes", "$1", "plain.F"]

    def some(names, n):
        names = sorted(x for x in names if "[" not in x)
        return names if whole else ctx.rng.sample(names, min(n, len(names)))

    by_cap = {}
    for n, c in builtin["func"].items():
        by_cap.setdefault(c, []).append(n)
    for names in by_cap.values():
        funcs += some(names, 2)
    funcs += some(builtin["unanalyzed"], 5)
    bp = some(builtin["package"], 4)
    funcs += [p + ".NotListed" for p in bp]
    edges = some([" ".join(e) for e in builtin["edges"]], 5)
    edges = [e.split() for e in edges] + [["ex.test/a.F", "plain.F"], ["(ex.test/a.T).M", "ex.test/a/b.F"]]
    funcs += [package_of(e[0]) + "." + "x" + s for e, s in zip(edges, some(builtin["suffixes"], 3))]
    pkgs += bp + [package_of(f) for f in funcs[11:] if package_of(f) not in pkgs][:6]
    seen = set()
    funcs = [f for f in funcs if not (f in seen or seen.add(f))]
    return {"funcs": [{"name": f, "pkg": package_of(f)} for f in funcs], "edges": edges,
            "pkgs": sorted(set(pkgs)), "suffixes": suffixes}


def run_histories(ctx, scenarios, name, ufile, bfile):
    d = ctx.sub(name)
    src = write_ndjson(os.path.join(d, "scenarios.ndjson"), scenarios)
    trace = os.path.join(d, "trace.ndjson")
    ctx.driver("classifier", "-in", src, "-out", trace, "-universe", ufile)
    events = read_ndjson(trace)
    stuck = ctx.validate("ClassifierTrace", trace, BuiltinFile=bfile, Prop=ctx.prop)
    if stuck is not None:
        start = max(i for i in range(stuck + 1) if events[i]["e"] == "start")
        num = sum(e["e"] == "start" for e in events[:start])
        ctx.violation(f"observed behaviour not allowed at {json.dumps(events[stuck])[:300]}",
                      kind="classifier", scenario=scenarios[num], trace=events[start:stuck + 1])
    return events


def commands(ctx, ufile, bfile):
    """Runs the command with maps on a program that the built-in map knows."""
    exe = ctx.build_binary("capslock", "./cmd/capslock")
    plain = [{"ops": [{"op": "command", "map": m, "lines": [], "text": "", "disable": d, "noisy": n}]}
             for m, d in ((False, False), (True, False), (True, True)) for n in (False, True)]
    rand = ctx.generate("ClassifierGen", GEN, num=ctx.pick(36, 400), depth=80, salt="command", UniverseFile=ufile,
                        Kind="command", MaxLines=6, MaxOps=1)
    events = conform(ctx, "mapcommand", "ClassifierTrace", plain + rand, "command", "-capslock", exe,
                     "-dir", ctx.sub("program"), BuiltinFile=bfile, Prop=ctx.prop)
    ctx.traces += len(events)
    ctx.count(commands=len(events), commands_reporting=sum(e["status"] == 0 for e in events))
    if any(c == "CAPABILITY_UNANALYZED" for _, c in events[0]["pairs"]):
        ctx.known("noisy-flag")
    e = events[0]
    reject(ctx, "ClassifierTrace", [{**e, "pairs": e["pairs"][1:]}], "command", BuiltinFile=bfile, Prop=ctx.prop)


def check(ctx):
    ctx.build_driver()
    builtin = read_builtin()
    bfile = os.path.join(ctx.scratch, "builtin.json")
    ufile = os.path.join(ctx.scratch, "universe.json")
    wfile = os.path.join(ctx.scratch, "whole.json")
    for name, x in ((bfile, builtin), (ufile, universe(ctx, builtin)), (wfile, universe(ctx, builtin, True))):
        with open(name, "w") as f:
            json.dump(x, f)
    ctx.model_check("ClassifierRead", "SPECIFICATION Spec\nINVARIANT Exact\nCHECK_DEADLOCK FALSE\n",
                    MaxLines=ctx.pick(2, 3))
    c09 = ctx.prop == "C09"
    small = ctx.generate("ClassifierGen", GEN, UniverseFile=ufile, Kind="small", MaxLines=2, MaxOps=1) if c09 else []
    rand = ctx.generate("ClassifierGen", GEN, num=ctx.pick(700, 6000), depth=80, UniverseFile=ufile, Kind="maps" if c09 else "random",
                        MaxLines=14, MaxOps=1 if c09 else 5)
    big = ctx.generate("ClassifierGen", GEN, num=ctx.pick(3, 20), depth=900, UniverseFile=wfile, Kind="big",
                       MaxLines=400, MaxOps=1)
    # One history asks about everything in the built-in map.
    whole = [{"ops": [{"op": "default"}, {"op": "exclude", "of": 0},
                      {"op": "load", "lines": [], "text": "", "exclude": False},
                      {"op": "load", "lines": [], "text": "", "exclude": True}]}]
    scenarios = small + rand
    ctx.rng.shuffle(scenarios)
    n = ctx.pick(4, 8)
    res = parallel(lambda x: run_histories(ctx, x[1], f"shard{x[0]}", ufile, bfile),
                   list(enumerate(shards(scenarios, n))))
    res.append(run_histories(ctx, whole + big, "whole", wfile, bfile))
    loads = [e for r in res for e in r if e["e"] == "load"]
    queries = [e for r in res for e in r if e["e"] == "query"]
    good = sum(e["ok"] for e in loads)
    if good * 5 < len(loads) or (c09 and (len(loads) - good) * 5 < len(loads)):
        raise CheckError(f"{good} of {len(loads)} maps could be loaded")
    ctx.traces += len(scenarios) + len(whole) + len(big)
    ctx.events += sum(map(len, res))
    ctx.count(maps=len(loads), maps_loaded=good, failing_readers=sum(e["fault"] for e in loads),
              overlong_lines=sum(e["overlong"] for e in loads), maps_over_64k=sum(e["fill"] > 64 for e in loads), maps_exhaustive=len(small), largest_map_lines=max(len(e["lines"]) for e in loads),
              categories_asked=sum(len(e["funcs"]) for e in queries),
              calls_asked=sum(len(e["calls"]) for e in queries))
    ctx.samples = [e for e in res[0][:4] if e["e"] == "load"]
    ctx.assumptions = ["functions are named as by golang.org/x/tools/go/ssa"]
    if not c09:
        commands(ctx, ufile, bfile)
    # Altered observations must be rejected.
    events = res[0]
    i = next(i for i, e in enumerate(events) if e["e"] == "load" and e["ok"])
    start = max(j for j in range(i + 1) if events[j]["e"] == "start")
    reject(ctx, "ClassifierTrace", events[start:i] + [{**events[i], "ok": True, "fault": True}], "load",
           BuiltinFile=bfile, Prop=ctx.prop)
    j = next(j for j in range(i, len(events)) if events[j]["e"] == "query")
    q = events[j]
    reject(ctx, "ClassifierTrace", events[start:j] + [{**q, "funcs": [[*q["funcs"][0][:2], "CAPABILITY_X"]]}], "func",
           BuiltinFile=bfile, Prop=ctx.prop)
    c = q["calls"][0]
    reject(ctx, "ClassifierTrace", events[start:j] + [{**q, "calls": [[*c[:2], not c[2]]]}], "call",
           BuiltinFile=bfile, Prop=ctx.prop)


PLANS = {"C09": check, "C10": check}
