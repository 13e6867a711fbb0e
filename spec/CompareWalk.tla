---------------------------- MODULE CompareWalk -----------------------------
(* Walking over the pairs of two reports in any order and noting whether a *)
(* difference was seen gives exactly the differences.                      *)
EXTENDS Compare

CONSTANTS NC, NI

All == (1..NC) \X (1..NI)

VARIABLES base, cur, todo, gained, lost, different

vars == <<base, cur, todo, gained, lost, different>>

Init ==
  /\ base \in SUBSET All /\ cur \in SUBSET All
  /\ todo = base \cup cur /\ gained = {} /\ lost = {} /\ different = FALSE

Visit(k) ==
  /\ k \in todo /\ todo' = todo \ {k}
  /\ gained' = IF k \notin base THEN gained \cup {k} ELSE gained
  /\ lost' = IF k \notin cur THEN lost \cup {k} ELSE lost
  /\ different' = (different \/ k \notin base \/ k \notin cur)
  /\ UNCHANGED <<base, cur>>

Next == \E k \in todo : Visit(k)
Spec == Init /\ [][Next]_vars

Exact ==
  todo = {} => /\ gained = Gained(base, cur) /\ lost = Lost(base, cur)
               /\ different = (Outcome(base, cur) = "different")
=============================================================================
