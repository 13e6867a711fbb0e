---------------------------- MODULE DetermTrace -----------------------------
(* Accepts recorded outputs of repeated analyses.                            *)
EXTENDS Determ, Json

CONSTANTS TraceFile

Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, answers

e == Trace[l + 1]

TraceInit == l = 0 /\ answers = {}
Begin == e.e = "prog" /\ answers' = {}
Output ==
  /\ e.e = "out"
  /\ Consistent(answers, Request(e.step), e.digest)
  /\ Ordered(e.entries)
  /\ answers' = answers \cup {<<Request(e.step), e.digest>>}

TraceNext == l < Len(Trace) /\ l' = l + 1 /\ (Begin \/ Output)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, answers>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
