"""C12: calls of helpers that run what is passed to them."""

import json
import os

from vlib import CheckError, parallel, read_ndjson, reject, shards, write_ndjson

GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
ALL = "INIT AllInit\nNEXT NoStep\nINVARIANT EmitAll\nCHECK_DEADLOCK FALSE\n"
CAPS = ["FILES", "NETWORK", "RUNTIME", "READ_SYSTEM_STATE", "MODIFY_SYSTEM_STATE", "OPERATING_SYSTEM", "SYSTEM_CALLS",
        "ARBITRARY_EXECUTION", "CGO", "UNANALYZED", "UNSAFE_POINTER", "REFLECT", "EXEC"]
PARTS = ["fn", "len", "less", "swap", "op", "mk", "decoy"]


def run(ctx, scenarios, name):
    d = ctx.sub(name)
    src = write_ndjson(os.path.join(d, "scenarios.ndjson"), scenarios)
    trace = os.path.join(d, "trace.ndjson")
    ctx.driver("helpers", "-in", src, "-out", trace, "-dir", os.path.join(d, "gopath"))
    events = read_ndjson(trace)
    stuck = ctx.validate("HelpersTrace", trace)
    if stuck is not None:
        ctx.violation(f"report not allowed: {json.dumps(events[stuck])[:600]}", kind="helpers",
                      scenario=scenarios[stuck // 2], report=events[stuck])
    return events


def packed(ctx, kinds, size):
    """Makes programs of users of all kinds, each part with a different capability."""
    out = []
    for i in range(0, len(kinds), size):
        users = [{**u, "caps": dict(zip(PARTS, ctx.rng.sample(CAPS, len(PARTS)))),
                  "dep": u["place"] != "varlit" and ctx.rng.random() < 0.3} for u in kinds[i:i + size]]
        out.append({"users": users})
    return out


def check(ctx):
    ctx.build_driver()
    scenarios = ctx.generate("HelpersGen", GEN, num=ctx.pick(80, 600), depth=40, MaxUsers=12)
    kinds = ctx.generate("HelpersGen", ALL, MaxUsers=1)
    ctx.rng.shuffle(kinds)
    scenarios += packed(ctx, kinds, 120)
    ctx.rng.shuffle(scenarios)
    res = parallel(lambda x: run(ctx, x[1], f"shard{x[0]}"), list(enumerate(shards(scenarios, 8))), workers=8)
    ctx.events += sum(len(r) for r in res)
    ctx.traces += len(scenarios)
    users = [u for s in scenarios for u in s["users"]]
    ctx.count(kinds_of_calls=len(kinds), users=len(users), nested=sum(u["in"] > 0 for u in users),
              findings=sum(len(e["pairs"]) for r in res for e in r if e["e"] == "report"))
    ctx.assumptions = ["call graph construction and type checking by golang.org/x/tools and go/types",
                       "calls are those that HelpersGen can express"]
    small = sorted((r[i:i + 2] for r in res for i in range(0, len(r), 2) if r[i + 1]["pairs"]), key=lambda p: len(p[0]["users"]))
    ctx.samples = [small[0]]
    done = 0
    for prog, rep in small:
        # Dropping a finding, or giving it to another user, is noticed.
        us = prog["users"]
        top = [i + 1 for i, u in enumerate(us) if u["in"] == 0 and u["place"] != "varlit"]
        good = [p for p in rep["pairs"] if p["u"] in top and us[p["u"] - 1]["helper"] == "Do" and us[p["u"] - 1]["caps"]["fn"] == p["c"]]
        unused = [c for c in CAPS if not any(c in u["caps"].values() for u in us)]
        if good and unused:
            reject(ctx, "HelpersTrace", [prog, {**rep, "pairs": [p for p in rep["pairs"] if p != good[0]]}], f"less{done}")
            reject(ctx, "HelpersTrace", [prog, {**rep, "pairs": rep["pairs"] + [{"u": top[-1], "c": unused[0]}]}], f"more{done}")
            done += 1
            if done == 2:
                return
    raise CheckError("no report to alter")


PLANS = {"C12": check}
