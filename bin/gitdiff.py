"""C18, C19 and C22: comparing revisions with git."""

import copy
import os

from vlib import CheckError, conform, read_ndjson, reject, shards, parallel, write_ndjson

GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def check_output(ctx):
    ctx.build_driver()
    exe = ctx.build_binary("capslock-git-diff", "./cmd/capslock-git-diff")
    for gran in ("function", "package", "intermediate"):
        ctx.model_check("RevDiffCover", "SPECIFICATION Spec\nINVARIANTS Covered Progress\nCHECK_DEADLOCK FALSE\n",
                        Fns={"a", "b", "c"} | (set("d") if ctx.thorough else set()),
                        MaxPath=ctx.pick(2, 3), Gran=gran)
    pairs = ctx.generate("RevDiffGen", GEN, num=ctx.pick(800, 6000), depth=40)
    events = conform(ctx, "revdiff", "RevDiffTrace", pairs, "runs", "-exe", exe, "-dir", ctx.sub("repos"))
    ctx.traces += len(events)
    gains = [e for e in events if e["out"]["status"] == 1]
    shared = [e for e in gains if any(len(g["items"]) > 1 for g in e["out"]["groups"])]
    both = [e for e in gains if e["out"]["newcaps"] and e["out"]["oldcaps"]]
    if len(gains) < 100 or len(events) - len(gains) < 50 or len(shared) < 20 or len(both) < 20:
        raise CheckError("too few different outcomes")
    ctx.count(runs=len(events), runs_with_gains=len(gains), runs_with_shared_examples=len(shared),
              runs_with_new_and_old_capabilities=len(both))
    ctx.samples = events[:2]
    ctx.assumptions = ["git", "reports have the form that C03 to C06 establish"]

    def alter(e, f):
        e = copy.deepcopy(e)
        f(e["out"])
        return [e]
    reject(ctx, "RevDiffTrace", alter(gains[0], lambda o: o["groups"].pop()), "group")
    long = next(e for e in gains if e["out"]["groups"][0]["path"])
    reject(ctx, "RevDiffTrace", alter(long, lambda o: o["groups"][0]["path"].pop()), "path")
    reject(ctx, "RevDiffTrace", alter(gains[0], lambda o: o.update(status=0)), "status")
    reject(ctx, "RevDiffTrace", alter(both[0], lambda o: o.update(nuses=o["nuses"] + 1)), "uses")


def check_revisions(ctx):
    ctx.build_driver()
    exe = ctx.build_binary("capslock-git-diff", "./cmd/capslock-git-diff")
    ctx.model_check("GitRunModel", "SPECIFICATION Spec\nINVARIANTS IsFaithful IsClean CanEnd\nCHECK_DEADLOCK FALSE\n",
                    Big=ctx.thorough)
    scs = ctx.generate("GitRunGen", GEN, num=ctx.pick(700, 6000), depth=10)

    def some(part):
        k, part = part
        name = f"runs{k}"
        d = ctx.sub(name)
        src = write_ndjson(os.path.join(d, "scenarios.ndjson"), part)
        trace = os.path.join(d, "trace.ndjson")
        ctx.driver("gitrun", "-in", src, "-out", trace, "-exe", exe, "-dir", ctx.sub(name + ".repos"))
        events = read_ndjson(trace)
        stuck = ctx.validate("GitRunTrace", trace)
        if stuck is not None:
            first = max(i for i in range(stuck + 1) if events[i]["e"] == "run")
            last = next((i for i in range(stuck, len(events)) if events[i]["e"] == "end"), len(events) - 1)
            ctx.violation(f"run not allowed at {events[stuck]}", kind="gitrun",
                          events=events[first:last + 1], position=stuck - first)
        return events
    events = []
    for part in enumerate(shards(scs, ctx.pick(1, 6))):
        events += some(part)
    runs, cur = [], []
    for e in events:
        if e["e"] == "run":
            cur = []
            runs.append(cur)
        cur.append(e)
    ctx.traces += len(runs)
    ctx.events += len(events)
    done = [r for r in runs if r[-1]["status"] in (0, 1)]
    faulty = [r for r in runs if any(e["e"] in ("git", "capslock") and not e["ok"] for e in r)]
    steps = {(e["args"][0] if e["e"] == "git" else "capslock") for r in faulty for e in r
             if e["e"] in ("git", "capslock") and not e["ok"]}
    if len(done) < len(runs) / 4 or len(faulty) < len(runs) / 20 or not steps >= {"clone", "checkout", "capslock"}:
        raise CheckError(f"too few different outcomes: {len(done)} {len(faulty)} {sorted(steps)}")
    ctx.count(runs=len(runs), runs_completed=len(done), runs_with_fault=len(faulty), steps_failed=len(steps))
    ctx.samples = [runs[0][-1], faulty[0][-1]]
    ctx.assumptions = ["git resolves revision names as documented"]

    def alter(run, k, **kw):
        return run[:k] + [{**run[k], **kw}] + run[k + 1:]
    one = next(r for r in done if sum(e["e"] == "capslock" for e in r) == 2)
    first = next(i for i, e in enumerate(one) if e["e"] == "capslock")
    last = len(one) - 1
    reject(ctx, "GitRunTrace", alter(one, first, commit=one[first]["commit"] + 1), "commit")
    reject(ctx, "GitRunTrace", alter(one, first, dir="elsewhere"), "dir")
    reject(ctx, "GitRunTrace", alter(one, first, ok=False), "fault")
    reject(ctx, "GitRunTrace", alter(one, last, left=1), "left")
    reject(ctx, "GitRunTrace", alter(one, last, same=False), "same")
    reject(ctx, "GitRunTrace", alter(one, last, status=1 - one[last]["status"]), "status")


def check_commits(ctx):
    ctx.build_driver()
    exe = ctx.build_binary("capslock-git-diff", "./cmd/capslock-git-diff")
    ctx.model_check("CommitsWalk", "SPECIFICATION Spec\nINVARIANTS Finds Never\nCHECK_DEADLOCK FALSE\n",
                    N=ctx.pick(4, 5))
    scs = ctx.generate("CommitsGen", "SPECIFICATION CommitsSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
                       num=ctx.pick(300, 2500), depth=10)
    events = conform(ctx, "commits", "CommitsTrace", scs, "runs", "-exe", exe, "-dir", ctx.sub("repos"))
    ctx.traces += len(events)
    full = [e for e in events if e["listing"] and min(e["listing"]) > 0]
    abridged = [e for e in events if e["listing"] and min(e["listing"]) < 0]
    none = [e for e in events if not e["listing"]]
    some = [e for e in full if 90 <= len(e["listing"]) <= 100]
    many = [e for e in events if sum(abs(c) if c < 0 else 1 for c in e["listing"]) > 100]
    if len(full) < 50 or len(many) < 20 or len(none) < 20 or not some:
        raise CheckError(f"too few different outcomes: {len(full)} {len(many)} {len(none)} {len(some)}")
    ctx.count(runs=len(events), complete_lists=len(full), abridged_lists=len(abridged), empty_lists=len(none),
              long_lists=len(many), lists_just_short=len(some))
    ctx.samples = [next(e for e in full if e["sc"]["repo"]["n"] < 10), none[0]]
    ctx.assumptions = ["git finds the history of a commit as documented"]

    def alter(e, **kw):
        return [{**e, **kw}]
    reject(ctx, "CommitsTrace", alter(full[0], listing=full[0]["listing"][1:]), "missing")
    reject(ctx, "CommitsTrace", alter(full[0], listing=full[0]["listing"] + full[0]["listing"][-1:]), "twice")
    reject(ctx, "CommitsTrace", alter(full[0], named=["x", "y"]), "named")
    reject(ctx, "CommitsTrace", alter(full[0], packages="x"), "packages")
    for e in abridged[:1]:
        cut = e["listing"]
        gap = next(k for k, c in enumerate(cut) if c < 0)
        reject(ctx, "CommitsTrace", alter(e, listing=cut[:gap] + [cut[gap] + 1] + cut[gap + 1:]), "number")
        reject(ctx, "CommitsTrace", alter(e, listing=cut[:gap] + cut[gap + 1:]), "silent")


PLANS = {"C18": check_output, "C19": check_revisions, "C22": check_commits}
