---------------------------- MODULE HelpersTrace ----------------------------
(* Accepts recorded reports on programs that use helpers.                    *)
EXTENDS Helpers, Json

CONSTANTS TraceFile

Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, us

tvars == <<l, us>>

e == Trace[l + 1]

TraceInit == l = 0 /\ us = <<>>
Begin == e.e = "prog" /\ us' = e.users
Report ==
  /\ e.e = "report" /\ us # <<>>
  /\ \A n \in Nodes(us) :
       LET found == {x.c : x \in {x \in Range(e.pairs) : x.u = n}}
       IN AtLeast(us, n) \subseteq found /\ found \subseteq AtMost(us, n)
  /\ UNCHANGED us

TraceNext == l < Len(Trace) /\ l' = l + 1 /\ (Begin \/ Report)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
