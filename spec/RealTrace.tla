------------------------------ MODULE RealTrace -----------------------------
(***************************************************************************)
(* Accepts recorded reports about programs that were not generated.  The   *)
(* trace has the program, the graph for each capability, and some reports. *)
(***************************************************************************)
EXTENDS Real, Json

CONSTANTS Prop, TraceFile

Trace == ndJsonDeserialize(TraceFile)

VARIABLES
  l,     \* number of events accepted
  prog,  \* the program: names of packages, and the package of each function
  std,   \* numbers of packages of the standard library
  gs,    \* capability -> graph
  dist,  \* capability -> functions at each distance
  funs   \* the report for functions

vars == <<l, prog, std, gs, dist, funs>>

Init == l = 0 /\ prog = <<>> /\ std = {0} /\ gs = <<>> /\ dist = <<>> /\ funs = <<>>

Ev == Trace[l + 1]
\* The comparison keeps TLC from taking r for a part of the action, which it
\* would evaluate recursively.
Req(ids, r) == (Prop \in ids => r) = TRUE

All(s, P(_)) == (\A i \in DOMAIN s : P(s[i])) = TRUE

GraphOf(e) ==
  [nodes |-> Range(e.nodes), holders |-> Range(e.holders), twins |-> e.twins,
   succ |-> [f \in Range(e.nodes) |-> Range(e.succ[f])],
   own |-> Range(e.own), total |-> e.total]

Program ==
  /\ Ev.e = "prog"
  /\ prog' = Ev
  /\ std' = {0} \cup {k \in DOMAIN Ev.paths : IsStd(Ev.paths[k])}
  /\ gs' = <<>> /\ dist' = <<>> /\ funs' = <<>>

Graph ==
  /\ Ev.e = "graph"
  /\ \E g \in {GraphOf(Ev)} :
     /\ Req({"C07"}, WellFormed(g))
     /\ gs' = gs @@ (Ev.cap :> g)
     /\ dist' = dist @@ (Ev.cap :> DistancesOf(g))
  /\ UNCHANGED <<prog, std, funs>>

Union ==
  /\ Ev.e = "all"
  /\ Req({"C07"}, Joined(GraphOf(Ev), gs))
  /\ UNCHANGED <<prog, std, gs, dist, funs>>

\* Capabilities that someone has.
Live == {c \in DOMAIN gs : gs[c].nodes # {}}

PathOK(e) ==
  /\ Req({"C02", "C03", "C06"}, e.cap \in Live)
  /\ Req({"C03", "C06"}, IsPath(gs[e.cap], e.path))
  /\ Req({"C03"}, IsShortest(gs[e.cap], dist[e.cap], e.path) /\ e.dep)

Functions ==
  /\ Ev.e = "function"
  /\ funs' = Ev.entries
  /\ All(Ev.entries, LAMBDA e :
       /\ e.path # <<>>
       /\ PathOK(e)
       /\ Req({"C02"}, e.path[1] \in gs[e.cap].own /\ e.pkg = prog.home[e.path[1]])
       /\ Req({"C04"}, e.type = Label(e.ppkg, std)))
  /\ \A c \in Live :
       LET mine == {i \in DOMAIN Ev.entries : Ev.entries[i].cap = c}
           names == {Ev.entries[i].path[1] : i \in mine} IN
       /\ Req({"C01"}, gs[c].own \subseteq names /\ Cardinality(mine) >= gs[c].total)
       /\ Req({"C02"}, Cardinality(mine) <= gs[c].total)
  /\ UNCHANGED <<prog, std, gs, dist>>

Caps == {funs[i].cap : i \in DOMAIN funs}
Of(c) == {i \in DOMAIN funs : funs[i].cap = c}

Packages ==
  /\ Ev.e = "package"
  /\ LET key(e) == <<e.cap, e.pkg>>
         es == Ev.entries IN
     /\ Req({"C05"}, {key(es[i]) : i \in DOMAIN es} = {key(funs[i]) : i \in DOMAIN funs})
     /\ Req({"C05"}, Len(es) = Cardinality({key(es[i]) : i \in DOMAIN es}))
     /\ All(es, LAMBDA e :
          /\ PathOK(e)
          /\ Req({"C04"}, e.type = Label(e.ppkg, std))
          /\ Req({"C03"}, e.ppkg[1] = e.pkg))
  /\ UNCHANGED <<prog, std, gs, dist, funs>>

Counts ==
  /\ Ev.e = "counts"
  /\ Req({"C05"}, {<<x.cap, x.n>> : x \in Range(Ev.entries)} = {<<c, Cardinality(Of(c))>> : c \in Caps})
  /\ UNCHANGED <<prog, std, gs, dist, funs>>

Stats ==
  /\ Ev.e = "stats"
  /\ LET type(c, t) == Cardinality({i \in Of(c) : funs[i].type = t})
         es == Range(Ev.entries) IN
     /\ Req({"C05"}, {<<x.cap, x.n>> : x \in es} = {<<c, Cardinality(Of(c))>> : c \in Caps})
     /\ Req({"C04"}, \A x \in es : x.direct = type(x.cap, "DIRECT") /\ x.transitive = type(x.cap, "TRANSITIVE"))
     /\ Req({"C03"}, \A x \in es : x.cap \in Live /\ IsPath(gs[x.cap], x.path) /\ IsShortest(gs[x.cap], dist[x.cap], x.path))
  /\ UNCHANGED <<prog, std, gs, dist, funs>>

\* A package is on a path if it has a function in the graph.  That is known of
\* functions which are in the source, but not of wrappers.
Intermediate ==
  /\ Ev.e = "intermediate"
  /\ LET es == Ev.entries
         keys == {<<es[i].cap, es[i].pkg>> : i \in DOMAIN es} IN
     /\ Req({"C06"}, Len(es) = Cardinality(keys))
     /\ Req({"C06"}, \A c \in Live : \A f \in gs[c].nodes : prog.home[f] # 0 => <<c, prog.home[f]>> \in keys)
     /\ All(es, LAMBDA e : PathOK(e) /\ Req({"C06"}, e.pkg \in Range(e.ppkg)))
  /\ UNCHANGED <<prog, std, gs, dist, funs>>

Next ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ Program \/ Graph \/ Union \/ Functions \/ Packages \/ Counts \/ Stats \/ Intermediate

TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
