-------------------------------- MODULE Real --------------------------------
(***************************************************************************)
(* What the reports about one program have to do with each other, whatever *)
(* the program is.  The graph for a capability has the functions on paths  *)
(* from the analysed packages to the capability, so that it determines     *)
(* all the other reports:                                                  *)
(*                                                                         *)
(*   g.nodes    functions, by number                                       *)
(*   g.succ     function -> set of functions that it calls                 *)
(*   g.holders  functions which have the capability themselves             *)
(*   g.own      functions of the analysed packages                         *)
(*   g.total    how many these are, which is more if some have the same    *)
(*              name                                                       *)
(*   g.twins    whether some functions have the same name                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}

RECURSIVE Forward(_, _, _)
Forward(g, seen, new) ==
  IF new = {} THEN seen
  ELSE LET more == (UNION {g.succ[f] : f \in new}) \ (seen \cup new)
       IN Forward(g, seen \cup new, more)

\* The functions that can be reached from the analysed packages.
Reached(g) == Forward(g, {}, g.own)

\* <<S0, S1, ...>>: functions with distance 0, 1, ... to the capability.
RECURSIVE Layers(_, _, _)
Layers(g, rest, acc) ==
  LET last == acc[Len(acc)]
      more == {f \in rest : g.succ[f] \cap last # {}}
  IN IF more = {} THEN acc ELSE Layers(g, rest \ more, Append(acc, more))

DistancesOf(g) == Layers(g, g.nodes \ g.holders, <<g.holders>>)

\* Every function of the graph is on a path from the analysed packages to the
\* capability.
WellFormed(g) ==
  /\ g.nodes = Reached(g)
  /\ \A f \in g.nodes : g.succ[f] \subseteq g.nodes
  /\ UNION Range(DistancesOf(g)) = g.nodes

\* The graph for all capabilities joins those for each.
Joined(all, gs) ==
  /\ all.nodes = UNION {gs[c].nodes : c \in DOMAIN gs}
  /\ all.holders = UNION {gs[c].holders : c \in DOMAIN gs}
  /\ all.own = UNION {gs[c].own : c \in DOMAIN gs}
  /\ \A f \in all.nodes : all.succ[f] = UNION {gs[c].succ[f] : c \in {c \in DOMAIN gs : f \in gs[c].nodes}}

IsPath(g, path) ==
  /\ path # <<>>
  /\ path[1] \in g.own
  /\ \A i \in 1..(Len(path) - 1) : path[i] \in g.nodes /\ path[i + 1] \in g.succ[path[i]]
  /\ path[Len(path)] \in g.holders

\* dist is DistancesOf(g).
IsShortest(g, dist, path) == g.twins \/ (Len(path) <= Len(dist) /\ path[1] \in dist[Len(path)])

IsStd(path) ==
  \/ Len(path) >= 7 /\ SubSeq(path, 1, 7) = "vendor/"
  \/ \A i \in 1..Len(path) : SubSeq(path, i, i) # "."

\* std has the numbers of the packages of the standard library, and 0.
Label(ppkg, std) ==
  IF \A i \in DOMAIN ppkg : ppkg[i] = ppkg[1] \/ ppkg[i] \in std THEN "DIRECT" ELSE "TRANSITIVE"
=============================================================================
