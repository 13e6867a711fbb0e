"""C08: capability selections."""

from vlib import CheckError, conform, reject

GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def check(ctx):
    ctx.build_driver()
    exe = ctx.build_binary("capslock", "./cmd/capslock")
    ctx.model_check("CapSetRead", "SPECIFICATION Spec\nINVARIANT Exact\nCHECK_DEADLOCK FALSE\n",
                    MaxItems=ctx.pick(2, 3))
    lists = []
    for kind in ("single", "pairs", "names"):
        lists += ctx.generate("CapSetGen", GEN, Kind=kind)
    exhaustive = len(lists)
    rand = ctx.generate("CapSetGen", GEN, num=ctx.pick(3000, 20000), depth=20, Kind="random")
    lists += rand
    events = conform(ctx, "capset", "CapSetTrace", lists, "api")
    good = [e for e in events if e["ok"]]
    if len(good) < 500 or len(events) - len(good) < 500:
        raise CheckError("too few accepted or rejected selections")
    ctx.traces += len(events)
    picked = ctx.rng.sample(lists[:exhaustive], ctx.pick(40, 200)) + rand[:ctx.pick(40, 200)]
    picked.append({"items": [], "text": ""})
    cli = conform(ctx, "capset", "CapSetTrace", picked, "cli",
                  "-capslock", exe, "-dir", ctx.sub("module"))
    ctx.traces += len(cli)
    ctx.count(selections_exhaustive=exhaustive, selections_random=len(rand),
              commands=len(cli), commands_accepted=sum(e["status"] == 0 for e in cli))
    ctx.samples = [events[3], cli[0]]
    ctx.assumptions = ["package loading by the go command"]
    reject(ctx, "CapSetTrace", [{**good[0], "has": good[0]["has"] + ["none"]}], "has")
    reject(ctx, "CapSetTrace", [{**good[1], "ok": False}], "ok")
    ran = [e for e in cli if e["reported"]]
    reject(ctx, "CapSetTrace", [{**ran[0], "reported": ran[0]["reported"][1:]}], "cli")


PLANS = {"C08": check}
