----------------------------- MODULE CapSetGen ------------------------------
(* Prints selections: all with few items, and random longer ones. *)
EXTENDS CapSet

CONSTANTS Kind

VARIABLES items, done

vars == <<items, done>>

Small == {[minus |-> m, prefix |-> p, rest |-> r] :
            m \in 0..1, p \in 0..1, r \in {"FILES", "EXEC", "UNANALYZED", "X", ""}}

GenInit ==
  /\ items \in CASE Kind = "single" -> {<<>>} \cup {<<i>> : i \in Item}
                 [] Kind = "pairs" -> {<<i, j>> : i \in Small, j \in Small}
                 [] Kind = "names" ->
                      {<<[minus |-> m, prefix |-> 0, rest |-> a], [minus |-> m, prefix |-> 1, rest |-> b]>> :
                         m \in 0..1, a \in Names, b \in Names}
                 [] OTHER -> {<<>>}
  /\ done = (Kind # "random")

Pick(S) == RandomElement(S)

\* Random lists: mostly well-formed, of the same sign.
AddItem ==
  /\ ~done
  /\ \E m \in {IF items = <<>> THEN Pick({0, 1}) ELSE IF Pick(1..25) = 1 THEN Pick(0..2) ELSE items[1].minus},
        p \in {IF Pick(1..25) = 1 THEN 2 ELSE Pick(0..1)},
        r \in {IF Pick(1..25) = 1 THEN Pick(Junk) ELSE Pick(Names)} :
        items' = Append(items, [minus |-> m, prefix |-> p, rest |-> r])
  /\ done' = (Pick(1..7) = 1 \/ Len(items') = 16)

Spec == GenInit /\ [][AddItem]_vars

Emit == done => PrintT(<<"SCENARIO", ToJson([items |-> items, text |-> Text(items)])>>)
=============================================================================
