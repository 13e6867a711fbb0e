----------------------------- MODULE ScanTrace ------------------------------
(* Accepts recorded reports on programs whose source is inspected.           *)
EXTENDS SourceScan, Json

CONSTANTS TraceFile, Cap

Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, sc

tvars == <<l, sc>>

e == Trace[l + 1]

TraceInit == l = 0 /\ sc = <<>>
Begin == e.e = "prog" /\ sc' = e.sc
Report ==
  /\ e.e = "report" /\ sc # <<>>
  /\ {x.f : x \in {x \in Range(e.pairs) : x.c = Cap}} = Reported(sc, Cap)
  /\ UNCHANGED sc

TraceNext == l < Len(Trace) /\ l' = l + 1 /\ (Begin \/ Report)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
