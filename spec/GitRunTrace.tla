---------------------------- MODULE GitRunTrace -----------------------------
(***************************************************************************)
(* Accepts recorded runs.  Events: "run" begins a run of scenario sc;      *)
(* "git" is a command of git and whether it worked; "capslock" is an       *)
(* analysis, with what its directory held; "end" is the end of the run.    *)
(***************************************************************************)
EXTENDS GitRun

CONSTANT TraceFile

Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, sc, may

tvars == <<l, sc, may, vars>>

e == Trace[l + 1]

TraceInit == l = 0 /\ sc = [usage |-> "none"] /\ may = FALSE /\ status = 0 /\ asked = <<>> /\ failed = FALSE /\ temps = 0

Begin ==
  /\ e.e = "run" /\ ~Running
  /\ sc' = e.sc /\ status' = -1 /\ asked' = <<>> /\ failed' = FALSE /\ temps' = 0
  \* A relative temporary directory, and surroundings in which git itself
  \* refuses to work, may end the run with an error.
  /\ may' = (e.sc.fault.kind = "temp-relative")

\* Listing the commits is not a step of obtaining reports, and it is not
\* specified what its failure means; nor what happens after a failure.
GitStep ==
  /\ e.e = "git"
  /\ IF e.list
     THEN Running /\ may' = (may \/ ~e.ok) /\ UNCHANGED <<vars, sc>>
     ELSE Git(e.ok) /\ UNCHANGED <<sc, may>>

Capslock ==
  /\ e.e = "capslock"
  /\ Analyse(sc, [commit |-> e.commit, dir |-> e.dir], e.opts, e.ok)
  /\ UNCHANGED <<sc, may>>

Ended ==
  /\ e.e = "end"
  /\ e.left = 0 /\ e.same
  /\ \/ End(sc, e.status, e.printed)
     \/ may /\ Running /\ e.status = 2 /\ status' = 2 /\ UNCHANGED <<asked, failed, temps>>
  /\ UNCHANGED <<sc, may>>

TraceNext == l < Len(Trace) /\ l' = l + 1 /\ (Begin \/ GitStep \/ Capslock \/ Ended)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
