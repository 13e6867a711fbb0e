---------------------------- MODULE CommitsTrace ----------------------------
(***************************************************************************)
(* Accepts what recorded runs said about their revisions.  An event has    *)
(* the scenario, the names that were given for the revisions, the packages *)
(* and revisions named in the output, the listing, and the exit status.    *)
(* Commit 0 in a listing is a line that names no commit properly.          *)
(***************************************************************************)
EXTENDS Commits

CONSTANT TraceFile

Trace == ndJsonDeserialize(TraceFile)
VARIABLE l

e == Trace[l + 1]

Accept(x) ==
  IF Possibles(x.sc)
  THEN /\ x.status \in {0, 1}
       /\ x.packages = (IF x.sc.pkg = "none" THEN "./..." ELSE x.sc.pkg)
       /\ x.named = x.given
       /\ ListingOK(x.sc, x.listing)
  ELSE x.status = 2 /\ x.listing = <<>>

TraceInit == l = 0 /\ RunInit
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ (Accept(e)) = TRUE /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, vars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
