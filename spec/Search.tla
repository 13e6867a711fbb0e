------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* The search that an analysis performs, step by step: for each capability *)
(* a breadth-first search backwards over the allowed calls, reporting each *)
(* analysed function when it is first reached; then a search forwards from *)
(* the analysed functions, restricted to functions reached before, giving  *)
(* the graph for the capability.  The order in which capabilities are      *)
(* taken and in which functions are put into the queue is left open.       *)
(*                                                                         *)
(* TLC checks, for all small programs and all orders, that the outcome is  *)
(* the one that Analysis requires.                                         *)
(***************************************************************************)
EXTENDS Analysis, Json

CONSTANTS N,         \* number of functions
          MaxIgnored,
          AllQueries \* whether to try all sets of analysed packages

Pkgs == <<2, 2, 1, 1>>
C1 == "FILES"
C2 == "UNSAFE_POINTER"

Roles == {[cls |-> "UNSPECIFIED", ext |-> <<>>], [cls |-> "UNSPECIFIED", ext |-> <<C2>>],
          [cls |-> "SAFE", ext |-> <<C2>>], [cls |-> C1, ext |-> <<C2>>], [cls |-> C2, ext |-> <<>>]}

\* Calls respect the import order of packages.
Pairwise == {e \in (1..N) \X (1..N) : Pkgs[e[2]] <= Pkgs[e[1]]}

RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToSeq(S \ {x})

Programs ==
  {[n |-> N, kind |-> [i \in 1..N |-> "func"], pkg |-> SubSeq(Pkgs, 1, N), home |-> SubSeq(Pkgs, 1, N),
    par |-> [i \in 1..N |-> 0],
    cls |-> [i \in 1..N |-> r[i].cls], ext |-> [i \in 1..N |-> r[i].ext],
    calls |-> ToSeq({[f |-> e[1], g |-> e[2], via |-> "static"] : e \in E}),
    ign |-> ToSeq(G), query |-> q, pkgkind |-> <<"dot", "dot">>,
    builtin |-> TRUE, sel |-> <<>>, neg |-> FALSE] :
     r \in [1..N -> Roles], E \in SUBSET Pairwise,
     G \in {S \in SUBSET Pairwise : Cardinality(S) <= MaxIgnored},
     q \in IF AllQueries THEN {<<1>>, <<2>>, <<1, 2>>} ELSE {<<1, 2>>}}

VARIABLES prog, o, phase, todo, cap, back, queue, out, fwd, graph

vars == <<prog, o, phase, todo, cap, back, queue, out, fwd, graph>>

Perms(S) == {s \in [1..Cardinality(S) -> S] : Range(s) = S}

Init ==
  /\ prog \in Programs /\ o = Oracle(prog)
  /\ phase = "idle" /\ todo = CapsOf(prog) /\ cap = "" /\ back = <<>> /\ queue = <<>>
  /\ out = {} /\ fwd = {} /\ graph = <<>>

\* The path from f found by the backward search.
RECURSIVE Follow(_, _)
Follow(b, f) == IF b[f] = 0 THEN <<f>> ELSE <<f>> \o Follow(b, b[f])

Reports(b, new) == {[cap |-> cap', path |-> Follow(b, f)] : f \in new \cap o.queried}

Start ==
  /\ phase = "idle"
  /\ \E c \in todo :
       LET start == {f \in Nodes(prog) : Holds(prog, f, c)} IN
       /\ cap' = c
       /\ todo' = todo \ {c}
       /\ back' = [f \in start |-> 0]
       /\ queue' \in Perms(start)
       /\ out' = out \cup Reports(back', start)
  /\ phase' = "backward"
  /\ UNCHANGED <<prog, o, fwd, graph>>

Backward ==
  /\ phase = "backward" /\ queue # <<>>
  /\ LET v == Head(queue)
         new == {w \in Nodes(prog) : <<w, v>> \in o.allowed} \ DOMAIN back
     IN /\ back' = back @@ [w \in new |-> v]
        /\ \E s \in Perms(new) : queue' = Tail(queue) \o s
        /\ cap' = cap
        /\ out' = out \cup Reports(back', new)
  /\ UNCHANGED <<prog, o, phase, todo, fwd, graph>>

Turn ==
  /\ phase = "backward" /\ queue = <<>>
  /\ phase' = "forward"
  /\ fwd' = DOMAIN back \cap o.queried
  /\ queue' \in Perms(fwd')
  /\ graph' = (cap :> {}) @@ graph
  /\ UNCHANGED <<prog, o, todo, cap, back, out>>

Forward ==
  /\ phase = "forward" /\ queue # <<>>
  /\ LET v == Head(queue)
         edges == {e \in o.allowed : e[1] = v /\ e[2] \in DOMAIN back}
         new == {e[2] : e \in edges} \ fwd
     IN /\ fwd' = fwd \cup new
        /\ \E s \in Perms(new) : queue' = Tail(queue) \o s
        /\ graph' = [graph EXCEPT ![cap] = @ \cup edges]
  /\ UNCHANGED <<prog, o, phase, todo, cap, back, out>>

Finish ==
  /\ phase = "forward" /\ queue = <<>>
  /\ phase' = "idle"
  /\ UNCHANGED <<prog, o, todo, cap, back, queue, out, fwd, graph>>

Next == Start \/ Backward \/ Turn \/ Forward \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Ended == phase = "idle" /\ todo = {}

\* C01, C02: what is reported at the end is exactly what should be.
ExactReport == Ended => {<<e.cap, e.path[1]>> : e \in out} = Pairs(o)
\* No function is ever reported in error, at any point of the search.
SoundReport == \A e \in out : <<e.cap, e.path[1]>> \in Pairs(o)
\* C03: paths are real and shortest, whatever the order of the search.
GoodPaths == \A e \in out : IsPath(prog, o, e.cap, e.path) /\ IsShortest(o, e.cap, e.path)
\* One report for each pair.
OneEach == \A a, b \in out : a.cap = b.cap /\ a.path[1] = b.path[1] => a = b
\* C06, C07: the graph for a capability is exactly the union of all paths.
ExactGraph == Ended => \A c \in DOMAIN graph : graph[c] = OnPath(prog, o, {c}).edges
ExactNodes == phase = "forward" /\ queue = <<>> => fwd = OnPath(prog, o, {cap}).nodes
Terminates == <>[]Ended

\* For printing the programs instead of searching them.
NoStep == FALSE /\ UNCHANGED vars
Emit == PrintT(<<"SCENARIO", ToJson(prog)>>)
=============================================================================
