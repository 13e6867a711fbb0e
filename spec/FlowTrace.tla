----------------------------- MODULE FlowTrace ------------------------------
(* Runs recorded programs in every possible way and compares what runs with  *)
(* the recorded reports, and what was seen when they were executed for real  *)
(* with what can run.  Each line of the trace has a program, the pairs of    *)
(* function and capability that were reported, and the pairs of function and *)
(* function with a capability that were observed.                            *)
EXTENDS Flow, Json

CONSTANTS TraceFile

Trace == ndJsonDeserialize(TraceFile)
VARIABLES k, cells, stack

P == Trace[k].sc

ASSUME TLCSet(1, {})

FlowInit == /\ k \in DOMAIN Trace
            /\ cells = [i \in DOMAIN Trace[k].sc.cells |-> 0]
            /\ stack = <<>>
FlowNext == \E c \in Steps(P, cells, stack) : cells' = c[1] /\ stack' = c[2] /\ UNCHANGED k
FlowSpec == FlowInit /\ [][FlowNext]_<<k, cells, stack>>

Reports == [i \in DOMAIN Trace |-> Range(Trace[i].report)]
Observations == [i \in DOMAIN Trace |-> Range(Trace[i].observed)]
Possible == [i \in DOMAIN Trace |-> May(Trace[i].sc)]

\* Remembers what has run.
Noted ==
  LET new == {[k |-> k, f |-> r.f, leaf |-> r.leaf] : r \in Running(P, stack)} \ TLCGet(1)
  IN new # {} => TLCSet(1, TLCGet(1) \cup new)

\* Whatever runs has been reported.
Reported == \A r \in Running(P, Listed(P, stack)) : [f |-> r.f, c |-> P.funs[r.leaf].cap] \in Reports[k]

\* The bound that ignores order and callers is a bound.
Bounded == Running(P, stack) \subseteq Possible[k]

\* Whatever was observed can run.
Explained ==
  LET unexplained == UNION {{[k |-> i, f |-> o.f, leaf |-> o.leaf] : o \in Observations[i]} : i \in DOMAIN Trace} \ TLCGet(1)
  IN IF unexplained = {} THEN PrintT(<<"SCENARIO", ToJson(TLCGet(1))>>)
     ELSE PrintT(<<"UNEXPLAINED", unexplained>>) /\ FALSE
=============================================================================
