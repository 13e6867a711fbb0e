--------------------------- MODULE ClassifierTrace --------------------------
(* Accepts recorded histories of classifiers. *)
EXTENDS Classifier

CONSTANTS TraceFile, BuiltinFile, Prop

Trace == ndJsonDeserialize(TraceFile)
Range(s) == {s[k] : k \in DOMAIN s}

\* The entries of the built-in map file.
B == JsonDeserialize(BuiltinFile)
Builtin == [func |-> B.func, package |-> B.package, unanalyzed |-> Range(B.unanalyzed),
            edges |-> {<<x[1], x[2]>> : x \in Range(B.edges)}, suffixes |-> Range(B.suffixes)]

VARIABLES l, cls,   \* the classifiers that exist
          orient    \* what -noisy does in the commands of this trace

Ev == Trace[l + 1]

Start == Ev.e = "start" /\ cls' = <<>>

\* A reader that fails, or an overlong line, excuses (or demands) failure.
Load ==
  /\ Ev.e = "load"
  /\ LET mustFail == ~Valid(Ev.lines) \/ Ev.fault
         mayFail == mustFail \/ Ev.overlong
     IN /\ mustFail => ~Ev.ok
        /\ ~mayFail => Ev.ok
  /\ cls' = IF Ev.ok THEN Append(cls, Loaded(Ev.lines, Ev.exclude)) ELSE cls

Default == Ev.e = "default" /\ cls' = Append(cls, DefaultClassifier)

Exclude == Ev.e = "exclude" /\ cls' = Append(cls, WithoutUnanalyzed(cls[Ev.of]))

\* What a classifier says; it says the same at any time.
Query ==
  /\ Ev.e = "query"
  /\ \A q \in Range(Ev.funcs) : q[3] = Category(cls[Ev.of], Builtin, q[1], q[2])
  /\ \A q \in Range(Ev.calls) : q[3] = Included(cls[Ev.of], Builtin, q[1], q[2])
  /\ UNCHANGED cls

\* A run of the command.  The documentation says that -noisy includes the
\* unanalysed category; see known_findings.txt.
Command ==
  /\ Ev.e = "command"
  /\ IF Ev.map /\ ~Valid(Ev.lines) THEN Ev.status = 2
     ELSE /\ Ev.status = 0
          /\ LET c == IF Ev.map THEN Loaded(Ev.lines, Ev.disable) ELSE DefaultClassifier
                 d == IF Ev.noisy = (orient = "documented") THEN c ELSE WithoutUnanalyzed(c)
             IN {<<x[1], x[2]>> : x \in Range(Ev.pairs)} = Report(d, Builtin)
  /\ UNCHANGED cls

TraceInit == l = 0 /\ cls = <<>> /\ orient \in {"documented", "inverted"}
TraceNext ==
  /\ l < Len(Trace) /\ l' = l + 1
  /\ UNCHANGED orient
  /\ Start \/ Load \/ Default \/ Exclude \/ Query \/ Command
TraceSpec == TraceInit /\ [][TraceNext]_<<l, cls, orient>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
