----------------------------- MODULE CoreTrace ------------------------------
(***************************************************************************)
(* Accepts the recorded runs of the real analysis that Analysis allows.    *)
(*                                                                         *)
(* The trace is a sequence of events: a program, followed by the modes run *)
(* on it, each followed by what was reported and a "done" event.  Events   *)
(* that record a crash or an error are never accepted.                     *)
(*                                                                         *)
(* Prop is the property to decide: only the requirements that belong to it *)
(* are imposed.                                                            *)
(***************************************************************************)
EXTENDS Compare, Json

CONSTANTS Prop, TraceFile

Trace == ndJsonDeserialize(TraceFile)

VARIABLES
  l,      \* number of events accepted
  p,      \* the current program
  o,      \* the oracle for p
  sites,  \* the call sites in the source of p
  mode,   \* the current mode
  want,   \* the keys that the current mode should report, if fixed by o
  seen,   \* the keys reported so far in this mode
  wantc,  \* as want and seen, for capability edges of graphs
  seenc,
  base    \* the function-level report: <<capability, function>> -> label

vars == <<l, p, o, sites, mode, want, seen, wantc, seenc, base>>

\* Requirement r belongs to property id.
Req(id, r) == Prop = id => r

NoProg == [none |-> TRUE]

Init ==
  /\ l = 0 /\ p = NoProg /\ o = NoProg /\ sites = <<>> /\ mode = "none" /\ seen = {}
  /\ want = {} /\ wantc = {} /\ seenc = {}
  /\ base = <<>>

Ev == Trace[l + 1]
Advance == l' = l + 1

-----------------------------------------------------------------------------
SiteOK(f, g, s) ==
  <<f, g>> \in DOMAIN sites =>
    \E x \in sites[<<f, g>>] : x.file = s.file /\ x.line = s.line /\ x.col <= s.col /\ s.col <= x.end

\* A path with its packages and call sites exists in the program.
RealPath(c, e) ==
  /\ IsPath(p, o, c, e.path)
  /\ Len(e.ppkg) = Len(e.path) /\ Len(e.sites) = Len(e.path)
  /\ \A i \in DOMAIN e.path : e.ppkg[i] = PkgOf(p, e.path[i])
  /\ \A i \in 2..Len(e.path) : SiteOK(e.path[i - 1], e.path[i], e.sites[i])

SitesOf(s) ==
  LET all == Range(s)
  IN  [k \in {<<x.f, x.g>> : x \in all} |-> {x \in all : x.f = k[1] /\ x.g = k[2]}]

Caps(f) == {k[1] : k \in f}
CountOf(f, c) == Cardinality({k \in DOMAIN f : k[1] = c})
LabelCount(f, c, lab) == Cardinality({k \in DOMAIN f : k[1] = c /\ f[k] = lab})

-----------------------------------------------------------------------------
Prog ==
  /\ Ev.e = "prog"
  /\ p' = Ev.p /\ o' = Oracle(Ev.p) /\ sites' = SitesOf(Ev.sites)
  /\ mode' = "none" /\ want' = {} /\ seen' = {} /\ wantc' = {} /\ seenc' = {} /\ base' = <<>>

\* Without a selection there is one graph; with one, the graph is the union of
\* the graphs of the selected capabilities.
GraphEdges(m) ==
  IF m = "graph" THEN OnPath(p, o, CapsOf(p)).edges
  ELSE UNION {OnPath(p, o, {c}).edges : c \in Selected(p)}
GraphCapEdges(m) ==
  IF m = "graph" THEN CapEdges(p, OnPath(p, o, CapsOf(p)).nodes, CapsOf(p))
  ELSE UNION {CapEdges(p, OnPath(p, o, {c}).nodes, {c}) : c \in Selected(p)}
GraphModes == {"graph", "graphsel", "dot"}

Mode ==
  /\ Ev.e = "mode"
  /\ mode' = Ev.mode /\ seen' = {} /\ seenc' = {}
  /\ want' = CASE Ev.mode = "function" -> Pairs(o)
               [] Ev.mode \in {"intermediate", "intermediateomit"} -> IntermediatePairs(p, o, Selected(p))
               [] Ev.mode \in GraphModes -> GraphEdges(Ev.mode)
               [] OTHER -> {}
  /\ wantc' = IF Ev.mode \in GraphModes THEN GraphCapEdges(Ev.mode) ELSE {}
  /\ base' = IF Ev.mode = "function" THEN <<>> ELSE base
  /\ UNCHANGED <<p, o, sites>>

First(e) == IF e.path = <<>> THEN 0 ELSE e.path[1]

FunctionEntry(e) ==
  LET key == <<e.cap, First(e)>> IN
  /\ mode = "function"
  /\ Req("C02", /\ key \in want /\ key \notin seen
                /\ e.pkg = PkgOf(p, First(e)) /\ e.nameok)
  /\ Req("C03", RealPath(e.cap, e) /\ IsShortest(o, e.cap, e.path) /\ e.dep = e.path)
  /\ Req("C04", First(e) # 0 /\ (\A i \in DOMAIN e.path : e.path[i] \in Nodes(p)) => e.type = Label(p, e.path))
  /\ seen' = seen \cup {key}
  /\ base' = (key :> e.type) @@ base

OmitEntry(e) ==
  LET key == <<e.cap, First(e)>> IN
  /\ mode = "functionomit"
  /\ Req("C05", Len(e.path) = 1 /\ key \in DOMAIN base /\ key \notin seen)
  /\ Req("C04", key \in DOMAIN base => e.type = base[key])
  /\ seen' = seen \cup {key}
  /\ UNCHANGED base

PackageEntry(e) ==
  LET key == <<e.cap, e.pkg>> IN
  /\ mode \in {"package", "packageomit"}
  /\ Req("C05", /\ key \notin seen /\ e.nameok
                /\ \E k \in DOMAIN base : k[1] = e.cap /\ PkgOf(p, k[2]) = e.pkg)
  /\ Req("C03", mode = "package" =>
       RealPath(e.cap, e) /\ IsShortest(o, e.cap, e.path) /\ e.dep = e.path
       /\ PkgOf(p, e.path[1]) = e.pkg)
  /\ Req("C04", /\ mode = "package" /\ First(e) # 0 => e.type = Label(p, e.path)
                \* The label of an entry without a path is that of some entry
                \* of the package.
                /\ \E k \in DOMAIN base : k[1] = e.cap /\ PkgOf(p, k[2]) = e.pkg /\ base[k] = e.type)
  /\ seen' = seen \cup {key}
  /\ UNCHANGED base

IntermediateEntry(e) ==
  LET key == <<e.cap, e.pkg>> IN
  /\ mode \in {"intermediate", "intermediateomit"}
  /\ Req("C06", /\ key \notin seen /\ e.nameok
                /\ key \in want
                /\ mode = "intermediate" =>
                     /\ RealPath(e.cap, e)
                     /\ e.path[1] \in o.queried
                     /\ \E i \in DOMAIN e.path : PkgOf(p, e.path[i]) = e.pkg)
  /\ seen' = seen \cup {key}
  /\ UNCHANGED base

Entry ==
  /\ Ev.e = "entry"
  /\ \/ FunctionEntry(Ev) \/ OmitEntry(Ev) \/ PackageEntry(Ev) \/ IntermediateEntry(Ev)
  /\ UNCHANGED <<p, o, sites, mode, want, wantc, seenc>>

\* The machine list names capabilities.
Name ==
  /\ Ev.e = "name" /\ mode = "machine"
  /\ Req("C05", Ev.cap \in Caps(DOMAIN base) /\ Ev.cap \notin seen)
  /\ seen' = seen \cup {Ev.cap}
  /\ UNCHANGED <<p, o, sites, mode, want, wantc, seenc, base>>

Count ==
  /\ Ev.e = "count" /\ mode \in {"counts", "text"}
  /\ Req("C05", Ev.n = CountOf(base, Ev.cap) /\ Ev.n > 0 /\ Ev.cap \notin seen)
  /\ seen' = seen \cup {Ev.cap}
  /\ UNCHANGED <<p, o, sites, mode, want, wantc, seenc, base>>

StatModes == {"stats", "statsomit", "verbose", "verboseomit"}

\* The verbose report does not name packages.
Filled(e) == IF "ppkg" \in DOMAIN e THEN e ELSE e @@ [ppkg |-> [i \in DOMAIN e.path |-> PkgOf(p, e.path[i])]]

Stat ==
  /\ Ev.e = "stat" /\ mode \in StatModes
  /\ Req("C05", /\ Ev.n = CountOf(base, Ev.cap) /\ Ev.n > 0 /\ Ev.cap \notin seen
                /\ <<Ev.cap, First(Ev)>> \in DOMAIN base)
  /\ Req("C04", /\ Ev.direct = LabelCount(base, Ev.cap, "DIRECT")
                /\ Ev.transitive = LabelCount(base, Ev.cap, "TRANSITIVE"))
  /\ Req("C03", IF mode \in {"stats", "verbose"}
                THEN (\A i \in DOMAIN Ev.path : Ev.path[i] \in Nodes(p)) /\ RealPath(Ev.cap, Filled(Ev)) /\ IsShortest(o, Ev.cap, Ev.path)
                ELSE Len(Ev.path) = 1)
  /\ seen' = seen \cup {Ev.cap}
  /\ UNCHANGED <<p, o, sites, mode, want, wantc, seenc, base>>

GraphEvent ==
  /\ mode \in GraphModes
  /\ \/ /\ Ev.e = "call"
        /\ Req("C07", <<Ev.f, Ev.g>> \in want)
        /\ seen' = seen \cup {<<Ev.f, Ev.g>>}
        /\ UNCHANGED seenc
     \/ /\ Ev.e = "capedge"
        /\ Req("C07", <<Ev.f, Ev.cap>> \in wantc)
        /\ seenc' = seenc \cup {<<Ev.f, Ev.cap>>}
        /\ UNCHANGED seen
     \* The text calls functions by their names, also instances of generic
     \* functions.
     \/ /\ Ev.e = "names"
        /\ Req("C07", Ev.same)
        /\ UNCHANGED <<seen, seenc>>
  /\ UNCHANGED <<p, o, sites, mode, want, wantc, base>>

\* A comparison with a baseline made with other categories.
Compared ==
  /\ Ev.e = "compare" /\ mode = "compare"
  /\ Req("C17", ComparisonOK(p, Ev))
  /\ UNCHANGED <<p, o, sites, mode, want, wantc, seen, seenc, base>>

-----------------------------------------------------------------------------
Complete ==
  CASE mode = "function" -> Req("C01", want \subseteq seen)
    [] mode = "functionomit" -> Req("C05", seen = DOMAIN base)
    [] mode \in {"package", "packageomit"} ->
         Req("C05", seen = {<<k[1], PkgOf(p, k[2])>> : k \in DOMAIN base})
    [] mode \in StatModes \cup {"counts", "text", "machine"} -> Req("C05", seen = Caps(DOMAIN base))
    [] mode \in {"intermediate", "intermediateomit"} ->
         Req("C06", seen = want)
    [] mode \in GraphModes -> Req("C07", seen = want /\ seenc = wantc)
    [] mode = "compare" -> TRUE
    [] OTHER -> FALSE

Done ==
  /\ Ev.e = "done"
  /\ Complete
  /\ mode' = "none"
  /\ UNCHANGED <<p, o, sites, want, wantc, seen, seenc, base>>

Next ==
  /\ l < Len(Trace)
  /\ Advance
  /\ Prog \/ Mode \/ Entry \/ Name \/ Count \/ Stat \/ GraphEvent \/ Compared \/ Done

TraceSpec == Init /\ [][Next]_vars

\* Every event was accepted.
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
