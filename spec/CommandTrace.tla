---------------------------- MODULE CommandTrace ----------------------------
(***************************************************************************)
(* Accepts recorded runs of the command: "run" begins a run, "go" is a     *)
(* command of go and whether it was made to fail, "end" is the end.        *)
(***************************************************************************)
EXTENDS Command

CONSTANTS TraceFile, Judge

Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, sc, failed, running

tvars == <<l, sc, failed, running>>

e == Trace[l + 1]

TraceInit == l = 0 /\ sc = <<>> /\ failed = FALSE /\ running = FALSE

Begin == e.e = "run" /\ ~running /\ running' = TRUE /\ sc' = e.sc /\ failed' = FALSE
GoStep == e.e = "go" /\ running /\ failed' = (failed \/ ~e.ok) /\ UNCHANGED <<sc, running>>
End ==
  /\ e.e = "end" /\ running /\ running' = FALSE
  /\ CASE Judge = "run" -> Ends(sc, failed, e) /\ e.same /\ e.left = 0
       [] Judge = "info" -> Good(sc) => e.status = 0 /\ InfoOK(sc, e)
  /\ UNCHANGED <<sc, failed>>

TraceNext == l < Len(Trace) /\ l' = l + 1 /\ (Begin \/ GoStep \/ End)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
