"""C11: calls of functions that are stored, passed and returned as values."""

import json
import os
import re

from vlib import CheckError, parallel, read_ndjson, shards, write_ndjson

GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
RUN = "SPECIFICATION FlowSpec\nINVARIANTS Noted Bounded Reported\nPOSTCONDITION Explained\nCHECK_DEADLOCK FALSE\n"
DEPTH = 5


def record(ctx, scenarios, name, calls):
    d = ctx.sub(name)
    src = write_ndjson(os.path.join(d, "scenarios.ndjson"), scenarios)
    trace = os.path.join(d, "trace.ndjson")
    ctx.driver("flow", "-in", src, "-out", trace, "-dir", os.path.join(d, "gopath"), "-depth", str(DEPTH),
               "-calls", str(calls), "-seed", str(ctx.seed))
    return trace


def explore(ctx, trace):
    """Runs the programs in every way.  Returns all that can run, or the
    number of a program that has something missing from its report."""
    r = ctx.tlc("FlowTrace", ctx.cfg(RUN, MaxDepth=DEPTH, TraceFile=trace), heap="3g")
    if r.returncode == 0 and "No error has been found" in r.stdout:
        ctx.tally(r.stdout)
        return ctx.scenarios_in(r.stdout)[0], None
    if "Invariant Reported is violated" in r.stdout:
        return None, int(re.findall(r"^/\\ k = (\d+)", r.stdout, re.M)[-1]) - 1
    raise CheckError(f"exploring programs failed ({r.returncode}):\n{r.stdout[-3000:]}\n{r.stderr[-2000:]}")


def missing(event):
    """What was seen to run although it was not reported."""
    funs = event["sc"]["funs"]
    report = {(p["f"], p["c"]) for p in event["report"]}
    return [o for o in event["observed"] if (o["f"], funs[o["leaf"] - 1]["cap"]) not in report]


def run(ctx, scenarios, name, calls):
    trace = record(ctx, scenarios, name, calls)
    events = read_ndjson(trace)
    ran, bad = explore(ctx, trace)
    if bad is None:
        return events, ran
    # The program is executed until the same is seen for real.
    again = read_ndjson(record(ctx, [scenarios[bad]], name + "-again", 300000))[0]
    seen = missing(again)
    if not seen:
        raise CheckError(f"could not execute what should run: {json.dumps(events[bad])[:2000]}")
    ctx.violation(f"not reported: {seen}", kind="flow", scenario=scenarios[bad], report=again["report"], observed=again["observed"])


def known(ctx):
    """Methods of generic types called through an interface."""
    body = [{"op": "call", "src": {"s": "fun", "i": 2, "how": "gval"}, "dst": {"d": "none", "i": 0}, "g": 0, "keep": False, "via": "call"}]
    fun = {"param": "none", "ret": "none", "loc": "func"}
    sc = {"funs": [{**fun, "kind": "plain", "cap": "", "body": body}, {**fun, "kind": "here", "cap": "FILES", "body": []}],
          "cells": [{"cls": "func", "kind": "var"}]}
    event = read_ndjson(record(ctx, [sc], "known", 100))[0]
    if missing(event):
        ctx.known("generic-method")


def check(ctx):
    ctx.build_driver()
    n = ctx.pick(1200, 8000)
    scenarios = ctx.generate("FlowGen", GEN, num=n, depth=40, salt="small", MaxFuns=4, MaxLeaves=3, MaxCells=3, MaxBody=4, MaxDepth=DEPTH)
    scenarios += ctx.generate("FlowGen", GEN, num=n // 3, depth=40, salt="large", MaxFuns=7, MaxLeaves=4, MaxCells=4, MaxBody=4, MaxDepth=DEPTH)
    ctx.rng.shuffle(scenarios)
    parts = shards(scenarios, ctx.pick(8, 24))
    res = parallel(lambda x: run(ctx, x[1], f"shard{x[0]}", 2000), list(enumerate(parts)), workers=8)
    events = [e for r in res for e in r[0]]
    ctx.traces += len(scenarios)
    ctx.events += len(events)
    can = sum(len(r[1]) for r in res)
    seen = sum(len(e["observed"]) for e in events)
    ctx.count(statements=sum(len(f["body"]) for s in scenarios for f in s["funs"]), can_run=can, observed_running=seen,
              reported=sum(len(e["report"]) for e in events))
    if seen * 2 < can:
        raise CheckError(f"only {seen} of {can} possible calls were seen")
    ctx.assumptions = ["type checking by go/types; execution by the Go compiler",
                       "programs are those that FlowGen can express, with at most %d active functions" % DEPTH]
    ctx.samples = [min((e for e in events if len(e["observed"]) > 3), key=lambda e: len(json.dumps(e)))]
    # A report that lacks something is noticed, and so is an execution that cannot be.
    e, pair = next((e, p) for e in events for p in e["observed"] if e["sc"]["funs"][p["f"] - 1]["kind"] == "plain")
    cap = e["sc"]["funs"][pair["leaf"] - 1]["cap"]
    less = {**e, "report": [p for p in e["report"] if p != {"f": pair["f"], "c": cap}]}
    if explore(ctx, write_ndjson(os.path.join(ctx.sub("corrupt"), "less.ndjson"), [less]))[1] is None:
        raise CheckError("altered report was accepted")
    e, ran = next((r[0][i], x) for r in res for i, x in enumerate(group(r[1], len(r[0]))) if len(x) < len(leaf_pairs(r[0][i])))
    extra = next(p for p in leaf_pairs(e) if p not in ran)
    more = {**e, "observed": e["observed"] + [extra]}
    try:
        explore(ctx, write_ndjson(os.path.join(ctx.sub("corrupt"), "more.ndjson"), [more]))
    except CheckError as err:
        if "Explained" not in str(err):
            raise
    else:
        raise CheckError("altered observation was accepted")
    ctx.count(corrupted_traces_rejected=2)
    known(ctx)


def group(ran, n):
    out = [[] for _ in range(n)]
    for r in ran:
        out[r["k"] - 1].append({"f": r["f"], "leaf": r["leaf"]})
    return out


def leaf_pairs(e):
    funs = e["sc"]["funs"]
    leaves = [i + 1 for i, f in enumerate(funs) if f["cap"]]
    return [{"f": f + 1, "leaf": x} for f in range(len(funs)) for x in leaves]


PLANS = {"C11": check}
