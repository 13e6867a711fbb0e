---------------------------- MODULE RevDiffCover ----------------------------
(***************************************************************************)
(* Choosing examples: while there are gained items without one, take such  *)
(* an item and its path; the path is the example for all pending items on  *)
(* it.  For all small reports and all orders, each gained pair is printed  *)
(* exactly once, and with an acceptable example.                           *)
(***************************************************************************)
EXTENDS RevDiff

CONSTANTS Fns, MaxPath, Gran

VARIABLES base, cur, pending, groups

vars == <<base, cur, pending, groups>>

PkgOf(f) == IF f \in {"a", "b"} THEN "p" ELSE IF f \in {"c", "d"} THEN "q" ELSE "r"
Fn(f) == [name |-> f, pkg |-> PkgOf(f), site |-> ""]
Paths == UNION {[1..n -> {Fn(f) : f \in Fns}] : n \in 1..MaxPath}

\* The items are reported in some order with one path each; only one
\* capability is needed, as they are treated one by one.
Items == IF ByFunction(Gran) THEN Fns ELSE {PkgOf(f) : f \in Fns}
PathsOf(i) == {p \in Paths : WellFormed(<<[cap |-> "X", pkg |-> IF ByFunction(Gran) THEN PkgOf(i) ELSE i,
                                           path |-> p]>>, Gran)
                             /\ (ByFunction(Gran) => p[1].name = i)}

RECURSIVE AsSeq(_, _)
AsSeq(S, path) ==
  IF S = {} THEN <<>>
  ELSE LET i == CHOOSE i \in S : TRUE
       IN <<[cap |-> "X", pkg |-> IF ByFunction(Gran) THEN PkgOf(i) ELSE i, path |-> path[i]]>>
            \o AsSeq(S \ {i}, path)

ReportsOn(S) == {AsSeq(S, f) : f \in {g \in [S -> Paths] : \A i \in S : g[i] \in PathsOf(i)}}

Init ==
  /\ \E B \in SUBSET Items : base \in IF B = {} THEN {<<>>} ELSE {CHOOSE r \in ReportsOn(B) : TRUE}
  /\ \E C \in SUBSET Items : cur \in ReportsOn(C)
  /\ pending = {p.item : p \in Gained(base, cur, Gran)}
  /\ groups = <<>>

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

Next ==
  \E en \in Range(cur) :
    /\ Item(en, Gran) \in pending
    /\ LET covered == pending \cap OnPath(en.path, Gran)
       IN /\ groups' = Append(groups, [cap |-> en.cap, items |-> SetSeq(covered), path |-> PrintedPath(en.path)])
          /\ pending' = pending \ covered
    /\ UNCHANGED <<base, cur>>

Spec == Init /\ [][Next]_vars

Finished == pending = {}
Covered ==
  Finished =>
    OutputOK([groups |-> groups, newcaps |-> SetSeq(NewCaps(base, cur, Gran)),
              oldcaps |-> SetSeq(OldCaps(base, cur, Gran)),
              nnew |-> Cardinality(NewCaps(base, cur, Gran)), nuses |-> NewUses(base, cur, Gran),
              status |-> IF groups = <<>> THEN 0 ELSE 1],
             base, cur, Gran)
Progress == pending # {} => ENABLED Next
=============================================================================
