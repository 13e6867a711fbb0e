---------------------------- MODULE CapSetTrace -----------------------------
(* Accepts recorded uses of capability selections. *)
EXTENDS CapSet

CONSTANT TraceFile

Trace == ndJsonDeserialize(TraceFile)
VARIABLE l

Range(s) == {s[k] : k \in DOMAIN s}

\* What NewCapabilitySet and Has say.
ApiOK(e) ==
  /\ e.text = Text(e.items)
  /\ e.ok = Accepted(e.items)
  /\ e.ok => Range(e.has) = Members(e.items)

\* What the command does, for a program in which each capability in caps is
\* held by one function: a rejected string gives status 2 and no report.
CliOK(e) ==
  IF Accepted(e.items)
  THEN e.status = 0 /\ Range(e.reported) = Members(e.items) \cap Range(e.caps)
  ELSE e.status = 2 /\ ~e.output /\ e.message

EventOK(e) ==
  CASE e.e = "api" -> ApiOK(e)
    [] e.e = "cli" -> CliOK(e)
    [] OTHER -> FALSE

TraceInit == l = 0
TraceNext == l < Len(Trace) /\ EventOK(Trace[l + 1]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
