---------------------------- MODULE RevDiffTrace ----------------------------
(* Accepts recorded outputs of the git comparison tool. *)
EXTENDS RevDiff

CONSTANT TraceFile

Trace == ndJsonDeserialize(TraceFile)
VARIABLE l

TraceInit == l = 0
TraceNext ==
  /\ l < Len(Trace)
  /\ LET e == Trace[l + 1] IN OutputOK(e.out, e.base, e.cur, e.gran)
  /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
