"""C20 and C21: runs of the command, and what it loads."""

import os

from vlib import CheckError, parallel, read_ndjson, reject, shards, write_ndjson

GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def runs_of(ctx, scs, exe, judge):
    def some(part):
        k, part = part
        d = ctx.sub(f"runs{k}")
        src = write_ndjson(os.path.join(d, "scenarios.ndjson"), part)
        trace = os.path.join(d, "trace.ndjson")
        ctx.driver("command", "-in", src, "-out", trace, "-exe", exe, "-dir", ctx.sub(f"runs{k}.mods"))
        return trace, read_ndjson(trace)
    parts = [some(p) for p in enumerate(shards(scs, max(1, len(scs) // 400)))]

    def judged(part):
        trace, events = part
        stuck = ctx.validate("CommandTrace", trace, Judge=judge)
        if stuck is not None:
            first = max(i for i in range(stuck + 1) if events[i]["e"] == "run")
            ctx.violation(f"run not allowed: {str(events[stuck])[:800]}", kind="command",
                          events=events[first:stuck + 1], position=stuck - first)
    parallel(judged, parts)
    runs = []
    for _, events in parts:
        ctx.events += len(events)
        for e in events:
            if e["e"] == "run":
                runs.append([])
            runs[-1].append(e)
    ctx.traces += len(runs)
    return runs


def alter(run, **kw):
    return run[:-1] + [{**run[-1], **kw}]


def check_command(ctx):
    ctx.build_driver()
    exe = ctx.build_binary("capslock", "./cmd/capslock")
    ctx.model_check("CommandRun", "SPECIFICATION Spec\nINVARIANT Exact\nPROPERTY Ending\nCHECK_DEADLOCK FALSE\n")
    scs = ctx.generate("CommandGen", GEN, num=ctx.pick(500, 3000), depth=40, Kind="command")
    scs += ctx.generate("CommandGen", GEN, num=ctx.pick(150, 900), depth=40, salt="files", Kind="files")
    runs = runs_of(ctx, scs, exe, "run")
    good = [r for r in runs if r[-1]["status"] != 2]
    elsewhere = [r for r in good if not r[0]["sc"]["here"]]
    reported = [r for r in good if r[-1]["items"]]
    failed = [r for r in runs if any(e["e"] == "go" and not e["ok"] for e in r)]
    if len(good) < len(runs) / 6 or len(runs) - len(good) < len(runs) / 6 or len(elsewhere) < 10 or len(reported) < 20 or len(failed) < 10:
        raise CheckError(f"too few different outcomes: {len(good)} {len(elsewhere)} {len(reported)} {len(failed)}")
    ctx.count(runs=len(runs), runs_reporting=len(good), runs_elsewhere=len(elsewhere), runs_with_fault=len(failed))
    ctx.samples = [r[-1] for r in runs[:2]]
    ctx.assumptions = ["the go command and its lists of packages"]
    bad = next(r for r in runs if not r[0]["sc"]["good"] and r[0]["sc"]["o"]["stdout"] == "ok")
    plain = next(r for r in reported if r not in failed and r[0]["sc"]["o"]["stdout"] == "ok" and not r[0]["sc"]["o"]["omit"])
    for name, run in (("status", alter(plain, status=2)), ("error", alter(bad, status=0)), ("text", alter(bad, text=True)),
                      ("items", alter(plain, items=plain[-1]["items"][1:])), ("same", alter(plain, same=False)),
                      ("left", alter(plain, left=1))):
        reject(ctx, "CommandTrace", run, name, Judge="run")


def check_info(ctx):
    ctx.build_driver()
    exe = ctx.build_binary("capslock", "./cmd/capslock")
    scs = ctx.generate("CommandGen", GEN, num=ctx.pick(250, 1500), depth=40, Kind="info")
    runs = runs_of(ctx, scs, exe, "info")
    good = [r for r in runs if r[0]["sc"]["good"]]
    mods = [r for r in good if r[-1]["modules"]]
    ign = [r for r in good if any(p["ignored"] for p in r[-1]["infos"])]
    layouts = {r[0]["sc"]["layout"] for r in mods}
    if len(good) < len(runs) / 2 or len(mods) < len(runs) / 8 or len(ign) < len(runs) / 8 or len(layouts) < 4:
        raise CheckError(f"too few different outcomes: {len(good)} {len(mods)} {len(ign)} {layouts}")
    ctx.count(runs=len(runs), runs_reporting=len(good), runs_with_modules=len(mods), runs_with_ignored_files=len(ign))
    ctx.samples = [{k: r[-1][k] for k in ("modules", "infos", "args")} for r in mods[:2]]
    ctx.assumptions = ["the go command and its lists of packages and files"]
    one = mods[0]
    reject(ctx, "CommandTrace", alter(one, modules=one[-1]["modules"][1:]), "modules", Judge="info")
    reject(ctx, "CommandTrace", alter(one, infos=one[-1]["infos"][1:]), "infos", Judge="info")
    reject(ctx, "CommandTrace", alter(one, sorted=False), "sorted", Judge="info")
    some = ign[0][-1]["infos"]
    k = next(i for i, p in enumerate(some) if p["ignored"])
    reject(ctx, "CommandTrace", alter(ign[0], infos=some[:k] + [{**some[k], "ignored": some[k]["ignored"][1:]}] + some[k + 1:]),
           "ignored", Judge="info")


PLANS = {"C20": check_command, "C21": check_info}
