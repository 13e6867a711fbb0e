"""Reports about existing packages, for C01 to C07."""

import copy
import json
import os
import subprocess

from vlib import CheckError, parallel, read_ndjson, write_ndjson

GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
MODES = {
    "C01": "function", "C02": "function", "C03": "function,package,stats", "C04": "function,package,stats",
    "C05": "function,package,counts,stats", "C06": "intermediate", "C07": "all",
}
SOURCES = {
    "go.mod": "module ex.test/real\n\ngo 1.23\n",
    "a/a.go": """package a

import (
	"encoding/json"
	"ex.test/real/b"
	"fmt"
	"net/http"
	"os"
	"sort"
)

type Server[T any] struct{ items []T }

func (s *Server[T]) ServeHTTP(w http.ResponseWriter, r *http.Request) { json.NewEncoder(w).Encode(s.items) }
func Serve() error                                                    { return http.ListenAndServe(":0", &Server[int]{}) }
func Sorted(x []string) []string {
	sort.Slice(x, func(i, j int) bool { return b.Less(x[i], x[j]) })
	return x
}
func Print(x ...any) { defer fmt.Fprintln(os.Stderr, x...); go b.Log(fmt.Sprint(x...)) }
""",
    "b/b.go": """package b

import (
	"ex.test/real/c"
	"log"
	"os"
	"reflect"
	"strings"
)

var logger = log.New(os.Stdout, "", 0)

func Less(x, y string) bool { return strings.ToLower(x) < strings.ToLower(y) }
func Log(s string)          { logger.Print(s); c.Hook(s) }
func Copy(x any) any        { return reflect.Indirect(reflect.ValueOf(x)).Interface() }
""",
    "c/c.go": """package c

import (
	"os/exec"
	"unsafe"
)

var Hook = func(s string) { exec.Command(s).Run() }

func Bytes(s string) *byte { return (*byte)(unsafe.Pointer(unsafe.StringData(s))) }
""",
}


def altered(prop, events):
    """Returns a changed copy of a trace that must be rejected, if possible."""
    events = copy.deepcopy(events)
    for e in events:
        if prop in ("C01", "C02", "C03", "C04") and e["e"] == "function" and e["entries"]:
            x = e["entries"]
            if prop == "C01":
                x.pop()
            elif prop == "C02":
                x.append(x[0])
            elif prop == "C03":
                x[0]["path"].append(x[0]["path"][-1] % events[0]["n"] + 1)
            else:
                x[0]["type"] = "DIRECT" if x[0]["type"] != "DIRECT" else "TRANSITIVE"
            return events
        if prop == "C05" and e["e"] == "counts" and e["entries"]:
            e["entries"][0]["n"] += 1
            return events
        if prop == "C06" and e["e"] == "intermediate" and e["entries"]:
            e["entries"].append(e["entries"][0])
            return events
        if prop == "C07" and e["e"] == "all" and e["holders"]:
            e["holders"].pop()
            return events
    return None


def check(ctx):
    d = ctx.sub("real")
    for name, text in SOURCES.items():
        os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
    reqs = ctx.generate("RealGen", GEN, num=ctx.pick(6, 30), depth=40, salt="real", MaxLines=9)

    def one(item):
        k, req = item
        src = write_ndjson(os.path.join(d, f"req{k}.ndjson"), [req])
        trace = os.path.join(d, f"trace{k}.ndjson")
        try:
            r = subprocess.run([ctx.exe, "real", "-in", src, "-out", trace, "-modes", MODES[ctx.prop]], cwd=d, env=ctx.env,
                               capture_output=True, text=True, timeout=600, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("analysing existing packages timed out")
        if r.returncode != 0:
            raise CheckError(f"analysing existing packages failed: {r.stderr[-2000:]}")
        events = read_ndjson(trace)
        stuck = ctx.validate("RealTrace", trace, Prop=ctx.prop)
        if stuck is not None:
            ctx.violation(f"reports about existing packages do not fit together: {json.dumps(events[stuck])[:500]}",
                          kind="real", scenario=req, event=events[stuck])
        return events

    res = parallel(one, list(enumerate(reqs)), workers=4)
    done = 0
    for k, events in enumerate(sorted(res, key=lambda es: sum(map(len, map(str, es))))):
        bad = altered(ctx.prop, events)
        if bad and done == 0:
            trace = write_ndjson(os.path.join(d, f"altered{k}.ndjson"), bad)
            if ctx.validate("RealTrace", trace, Prop=ctx.prop) is None:
                raise CheckError("an altered trace of existing packages was accepted")
            done += 1
    ctx.traces += len(res)
    ctx.events += sum(map(len, res))
    ctx.count(existing_programs=len(res), existing_functions=sum(es[0]["n"] for es in res), corrupted_traces_rejected=done)
