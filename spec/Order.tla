------------------------------- MODULE Order --------------------------------
(* Why the search has to sort: a search from the functions with a capability *)
(* to their callers, in which sets are walked in any order unless they are   *)
(* sorted.  Functions are numbered in the order of their names.  The paths   *)
(* that are found must be the same whatever the order of sets is.            *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N, SortSeeds, SortCallers

Funs == 1..N
VARIABLES edges, seeds, left, q, now, next

vars == <<edges, seeds, left, q, now, next>>

\* next[f] is the function that f's path goes on with, 0 at the end of a path
\* and -1 if none has been found.
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Candidates(S, sorted) == IF sorted /\ S # {} THEN {Min(S)} ELSE S
Callers(f) == {g \in Funs : <<g, f>> \in edges /\ next[g] = -1}

Init == /\ edges \in SUBSET {e \in Funs \X Funs : e[1] # e[2]}
        /\ seeds \in SUBSET Funs \ {{}}
        /\ left = seeds /\ q = <<>> /\ now = 0 /\ next = [f \in Funs |-> -1]
Seed == /\ \E s \in Candidates(left, SortSeeds) :
             left' = left \ {s} /\ q' = Append(q, s) /\ next' = [next EXCEPT ![s] = 0]
        /\ UNCHANGED <<edges, seeds, now>>
Take == /\ left = {} /\ now = 0 /\ q # <<>>
        /\ now' = Head(q) /\ q' = Tail(q)
        /\ UNCHANGED <<edges, seeds, left, next>>
Visit == /\ now # 0
         /\ IF Callers(now) = {} THEN now' = 0 /\ UNCHANGED <<q, next>>
            ELSE \E g \in Candidates(Callers(now), SortCallers) :
                   next' = [next EXCEPT ![g] = now] /\ q' = Append(q, g) /\ UNCHANGED now
         /\ UNCHANGED <<edges, seeds, left>>
Next == Seed \/ Take \/ Visit
Spec == Init /\ [][Next]_vars
Done == left = {} /\ q = <<>> /\ now = 0

-----------------------------------------------------------------------------
\* The paths that are wanted.
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE <<Min(S)>> \o Sorted(S \ {Min(S)})
RECURSIVE Search(_, _)
Search(queue, found) ==
  IF queue = <<>> THEN found
  ELSE LET f == Head(queue)
           new == {g \in Funs : <<g, f>> \in edges /\ found[g] = -1}
       IN Search(Tail(queue) \o Sorted(new), [g \in Funs |-> IF g \in new THEN f ELSE found[g]])
Wanted == Search(Sorted(seeds), [f \in Funs |-> IF f \in seeds THEN 0 ELSE -1])
Deterministic == Done => next = Wanted
=============================================================================
