----------------------------- MODULE CapSetRead -----------------------------
(* Reading a selection from left to right gives the meaning in CapSet. *)
EXTENDS CapSet

CONSTANTS MaxItems

SomeItems == {[minus |-> m, prefix |-> p, rest |-> r] :
                m \in 0..2, p \in 0..2, r \in {"FILES", "EXEC", "CGO", "X", ""}}

VARIABLES items, pos, status, negated, listed

vars == <<items, pos, status, negated, listed>>

Init ==
  /\ items \in UNION {[1..n -> SomeItems] : n \in 0..MaxItems}
  /\ pos = 0 /\ status = "reading" /\ negated = FALSE /\ listed = {}

ReadItem ==
  /\ status = "reading" /\ pos < Len(items) /\ ~IsEmpty(items)
  /\ pos' = pos + 1
  /\ LET i == items[pos + 1] IN
     IF i.minus > 1 \/ ~KnownItem(i) \/ (pos > 0 /\ negated # (i.minus = 1))
     THEN status' = "rejected" /\ UNCHANGED <<negated, listed>>
     ELSE /\ status' = status
          /\ negated' = (i.minus = 1)
          /\ listed' = listed \cup {i.rest}
  /\ UNCHANGED items

Finish ==
  /\ status = "reading" /\ (pos = Len(items) \/ IsEmpty(items))
  /\ status' = "accepted"
  /\ UNCHANGED <<items, pos, negated, listed>>

Next == ReadItem \/ Finish
Spec == Init /\ [][Next]_vars

Selects(c) == IsEmpty(items) \/ (c \in listed) # negated

Exact ==
  /\ status = "rejected" => ~Accepted(items)
  /\ status = "accepted" => Accepted(items) /\ \A c \in Names : Selects(c) <=> c \in Members(items)
=============================================================================
