----------------------------- MODULE RevDiffGen -----------------------------
(* Prints pairs of reports: the second one is a changed copy of the first,  *)
(* or an unrelated one.                                                     *)
EXTENDS RevDiff, Randomization

VARIABLES gran, stage, base, cur, want

vars == <<gran, stage, base, cur, want>>

Pick(S) == RandomElement(S)
Chance(n, d) == Pick(1..d) <= n

Caps == {"FILES", "NETWORK", "RUNTIME", "READ_SYSTEM_STATE", "MODIFY_SYSTEM_STATE", "OPERATING_SYSTEM",
         "SYSTEM_CALLS", "ARBITRARY_EXECUTION", "CGO", "UNANALYZED", "UNSAFE_POINTER", "REFLECT", "EXEC"}
Pkgs == {"ex.test/m", "ex.test/m/a", "ex.test/m/a/b", "ex.test/m/b", "ex.test/ma", "os", "net/http", "golang.org/x/d.e"}
Bases == {"F", "G", "init", "F$1"}
Meths == {"T.M", "*T.M", "Fm"}

NameOf(p, b) == IF b \in Meths
                THEN (CASE b = "T.M" -> "(" \o p \o ".T).M"
                        [] b = "*T.M" -> "(*" \o p \o ".T).M"
                        [] OTHER -> p \o ".Fm[int]")
                ELSE p \o "." \o b

Sites == {"", "f.go:1:2", "main.go:10:20", "a_file.go:123:4"}

RandomFn(pool) ==
  CHOOSE f \in {[name |-> NameOf(p, b), pkg |-> p, site |-> s] :
                  p \in {Pick(pool)}, b \in {Pick(Bases \cup Meths)}, s \in {Pick(Sites)}} : TRUE

FnOfPkg(p) ==
  CHOOSE f \in {[name |-> NameOf(p, b), pkg |-> p, site |-> s] :
                  b \in {Pick(Bases \cup Meths)}, s \in {Pick(Sites)}} : TRUE

\* A path of n functions with the given one at position k.
RandomPath(n, k, f, pool) == [i \in 1..n |-> IF i = k THEN f ELSE RandomFn(pool)]

RandomEntry(pool, caps) ==
  CHOOSE en \in UNION {UNION {{[cap |-> c, pkg |-> p, path |-> TLCEval(RandomPath(n, k, f, pool))] :
           f \in {FnOfPkg(p)}} :
             k \in {IF gran = "intermediate" THEN Pick(1..n) ELSE 1}} :
             n \in {IF want.long THEN Pick(6..14) ELSE Pick(1..4)}, p \in {Pick(pool)}, c \in {Pick(caps)}} : TRUE

Fits(report, en) ==
  \A k \in DOMAIN report :
    <<report[k].cap, Item(report[k], gran)>> # <<en.cap, Item(en, gran)>>

\* The set of packages and capabilities in use is small, so that paths pass
\* through items of other entries.  Some reports have long paths and many
\* entries with the same capability.
Init ==
  /\ gran \in {"package", "function", "intermediate", ""}
  /\ stage = "start" /\ base = <<>> /\ cur = <<>>
  /\ want = [base |-> 0, cur |-> 0, pool |-> {}, caps |-> {}, kind |-> "", long |-> FALSE]

Start ==
  /\ stage = "start" /\ stage' = "base"
  /\ \E long \in {Chance(1, 4)} : \E np \in {IF long THEN Pick(3..8) ELSE Pick(1..5)}, nc \in {IF long THEN Pick(1..2) ELSE Pick(1..4)} :
     \E pool \in {CHOOSE S \in {RandomSubset(np, Pkgs)} : TRUE}, caps \in {CHOOSE S \in {RandomSubset(nc, Caps)} : TRUE},
        nb \in {Pick(0..6)}, n2 \in {IF long THEN Pick(4..20) ELSE Pick(0..6)}, k \in {Pick({"grow", "grow", "same", "unrelated", "shrink", "repath"})} :
       want' = [base |-> nb, cur |-> n2, pool |-> pool, caps |-> caps, kind |-> k, long |-> long]
  /\ UNCHANGED <<gran, base, cur>>

FillBase ==
  /\ stage = "base"
  /\ IF want.base > 0
     THEN /\ \E en \in {RandomEntry(want.pool, want.caps)} : base' = IF Fits(base, en) THEN Append(base, en) ELSE base
          /\ want' = [want EXCEPT !.base = @ - 1]
          /\ UNCHANGED <<stage, cur>>
     ELSE /\ stage' = "cur" /\ UNCHANGED <<base, want>>
          /\ cur' = CASE want.kind = "unrelated" -> <<>>
                      [] want.kind = "shrink" -> SubSeq(base, 2, Len(base))
                      [] OTHER -> base
  /\ UNCHANGED gran

\* Reversing moves entries to other positions; the paths may differ, too.
RECURSIVE Reverse(_)
Reverse(s) == IF s = <<>> THEN <<>> ELSE Append(Reverse(Tail(s)), Head(s))

FillCur ==
  /\ stage = "cur"
  /\ IF want.cur > 0 /\ want.kind \notin {"same", "shrink"}
     THEN /\ \E en \in {RandomEntry(want.pool, want.caps)} : cur' = IF Fits(cur, en) THEN Append(cur, en) ELSE cur
          /\ want' = [want EXCEPT !.cur = @ - 1]
          /\ UNCHANGED <<stage, base>>
     ELSE /\ stage' = "done" /\ UNCHANGED <<base, want>>
          /\ cur' = IF want.kind = "repath"
                    THEN Reverse([k \in DOMAIN cur |-> [cur[k] EXCEPT !.path = @ \o <<RandomFn(want.pool)>>]])
                    ELSE cur
  /\ UNCHANGED gran

Next == Start \/ FillBase \/ FillCur
Spec == Init /\ [][Next]_vars

Emit ==
  stage = "done" =>
    /\ Assert(WellFormed(base, gran) /\ WellFormed(cur, gran), "malformed report")
    /\ PrintT(<<"SCENARIO", ToJson([gran |-> gran, base |-> base, cur |-> cur])>>)
=============================================================================
