"""C13 to C15: capabilities found by looking at the source of functions."""

import json
import os

from vlib import CheckError, parallel, read_ndjson, reject, shards, write_ndjson

GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
ALL = "INIT AllInit\nNEXT NoStep\nINVARIANT EmitAll\nCHECK_DEADLOCK FALSE\n"
KINDS = {"C13": ("unsafe", "UNSAFE_POINTER"), "C14": ("reflect", "REFLECT"), "C15": ("nobody", "ARBITRARY_EXECUTION")}


def run(ctx, scenarios, name, cap):
    d = ctx.sub(name)
    src = write_ndjson(os.path.join(d, "scenarios.ndjson"), scenarios)
    trace = os.path.join(d, "trace.ndjson")
    ctx.driver("scan", "-in", src, "-out", trace, "-dir", os.path.join(d, "gopath"))
    events = read_ndjson(trace)
    stuck = ctx.validate("ScanTrace", trace, Cap=cap)
    if stuck is not None:
        ctx.violation(f"report not allowed: {json.dumps(events[stuck])[:600]}", kind="scan",
                      scenario=scenarios[stuck // 2], report=events[stuck])
    return events


def programs(items, size=40):
    """Makes programs of functions that have one item each."""
    out = []
    for i in range(0, len(items), size):
        decls = []
        for d in items[i:i + size]:
            if d["kind"] == "lit":
                decls.append({"kind": "func", "pkg": 1, "par": 0, "use": "", "cls": "UNSPECIFIED", "items": []})
                decls.append({**d, "pkg": 1, "par": len(decls), "use": "kept", "cls": "UNSPECIFIED"})
            else:
                decls.append({**d, "pkg": 1, "par": 0, "use": "", "cls": "UNSPECIFIED"})
        out.append({"pkgs": 1, "decls": decls, "calls": [], "builtin": True})
    return out


def check(ctx):
    ctx.build_driver()
    kind, cap = KINDS[ctx.prop]
    scenarios = ctx.generate("ScanGen", GEN, num=ctx.pick(700, 5000), depth=80, Kind=kind, MaxDecls=14)
    if kind != "nobody":
        items = ctx.generate("ScanGen", ALL, Kind=kind, MaxDecls=1)
        ctx.count(single_items=len(items))
        if not ctx.thorough:
            items = ctx.rng.sample(items, min(len(items), 12000))
        ctx.count(single_items_run=len(items))
        scenarios += programs(items)
    ctx.rng.shuffle(scenarios)
    res = parallel(lambda x: run(ctx, x[1], f"shard{x[0]}", cap), list(enumerate(shards(scenarios, ctx.pick(8, 40)))))
    ctx.events += sum(len(r) for r in res)
    ctx.traces += len(scenarios)
    decls = [d for s in scenarios for d in s["decls"]]
    found = sum(p["c"] == cap for r in res for e in r if e["e"] == "report" for p in e["pairs"])
    ctx.count(functions=len(decls), calls=sum(len(s["calls"]) for s in scenarios), functions_reported=found,
              programs_without_builtin=sum(not s["builtin"] for s in scenarios))
    if found < len(scenarios) or 4 * found > 3 * len(decls):
        raise CheckError(f"{found} of {len(decls)} functions were reported")
    for what in {it["what"] for d in decls for it in d["items"]}:
        its = [it for d in decls for it in d["items"] if it["what"] == what]
        ctx.count(**{f"{what}_shapes": len({tuple(str(v) for v in it.values()) for it in its})})
    ctx.assumptions = ["go/types and golang.org/x/tools, which say what is converted and what escapes",
                       "programs are those that ScanGen can express"]
    small = sorted((r[i:i + 2] for r in res for i in range(0, len(r), 2)
                    if any(p["c"] == cap for p in r[i + 1]["pairs"])), key=lambda p: len(p[0]["sc"]["decls"]))
    ctx.samples = [small[len(small) // 20]]
    for k, part in enumerate(small[len(small) // 2:][:2]):
        prog, rep = part
        mine = [p for p in rep["pairs"] if p["c"] == cap]
        reject(ctx, "ScanTrace", [prog, {**rep, "pairs": [p for p in rep["pairs"] if p != mine[0]]}], f"less{k}", Cap=cap)
        reject(ctx, "ScanTrace", [prog, {**rep, "pairs": rep["pairs"] + [{**mine[0], "f": 0}]}], f"more{k}", Cap=cap)


PLANS = {c: check for c in KINDS}
