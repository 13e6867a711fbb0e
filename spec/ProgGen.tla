------------------------------ MODULE ProgGen -------------------------------
(***************************************************************************)
(* Behaviours of this module write programs, one decision at a time.  Each *)
(* finished program is printed as JSON.                                    *)
(*                                                                         *)
(* Kinds of function:                                                      *)
(*   func, ufunc   exported and unexported function                        *)
(*   pmeth, vmeth  method with pointer and with value receiver             *)
(*   umeth         method of an unexported type                            *)
(*   gmeth, gen    method of a generic type, generic function              *)
(*   clos          function literal called where it is written             *)
(*   thunk, bound  wrapper made for a method expression or a method value  *)
(*   prom          wrapper made for a promoted method                      *)
(*   asm           function without a body                                 *)
(*   init          init function                                           *)
(*                                                                         *)
(* Shapes of program:                                                      *)
(*   rich   all kinds of function and call                                 *)
(*   plain  ordinary functions and calls, more of them                     *)
(*   deep   ordinary functions in many packages, the topmost is analysed   *)
(*   chain  one long chain of calls                                        *)
(*   tree   many callers                                                   *)
(*   star   many callers of the same functions                             *)
(***************************************************************************)
EXTENDS Analysis, Json, Randomization

CONSTANTS MaxFuncs, MaxCalls, Shape

AllCaps == {"FILES", "NETWORK", "RUNTIME", "READ_SYSTEM_STATE",
  "MODIFY_SYSTEM_STATE", "OPERATING_SYSTEM", "SYSTEM_CALLS",
  "ARBITRARY_EXECUTION", "CGO", "UNANALYZED", "UNSAFE_POINTER", "REFLECT",
  "EXEC"}

VARIABLES prog, phase, left, palette

vars == <<prog, phase, left, palette>>

Pick(S) == RandomElement(S)
\* TRUE k times out of n.
Chance(k, n) == RandomElement(1..n) <= k

Empty == [n |-> 0, kind |-> <<>>, pkg |-> <<>>, home |-> <<>>, par |-> <<>>, cls |-> <<>>,
          ext |-> <<>>, calls |-> <<>>, ign |-> <<>>, query |-> <<>>,
          pkgkind |-> <<"dot">>, under |-> <<>>, glue |-> <<>>, tail |-> <<>>, vend |-> <<>>,
          bare |-> <<>>, top |-> FALSE, builtin |-> TRUE, sel |-> <<>>, neg |-> FALSE]

Init == prog = Empty /\ phase = "packages" /\ left = 0 /\ palette = {}

(* A random choice is always bound by "\E x \in {Pick(S)}", so that it is made *)
(* only once.                                                               *)

ChoosePackages ==
  /\ phase = "packages"
  /\ \E np \in {IF Shape = "deep" THEN Pick(4..7) ELSE IF Shape = "chain" THEN Pick(2..4) ELSE Pick(1..4)} :
       prog' = [prog EXCEPT !.pkgkind = [k \in 1..np |-> IF Chance(1, 3) THEN "std" ELSE "dot"],
                            !.builtin = Chance(7, 8)]
  /\ left' = IF Shape \in {"chain", "tree", "star"} THEN MaxFuncs ELSE Pick(2..MaxFuncs)
  /\ palette' = RandomSubset(Pick(1..3), AllCaps)
  /\ phase' = "places"

\* The path of a package can begin with that of another one of the same kind,
\* which is a caller ("down") or a callee.  "/" puts it into a subdirectory,
\* and with "" only the paths have something in common.  A tail follows, which
\* may have characters that separate parts of names.  The standard library has
\* copies of other packages ("vend").  A path can be a single word ("bare").
\* The last package can be a program ("top").
ChoosePlaces ==
  /\ phase = "places"
  /\ LET np == Len(prog.pkgkind)
         same(k) == {j \in 1..np : prog.pkgkind[j] = prog.pkgkind[k]}
     IN \E flat \in {Chance(1, 2)}, down \in {Chance(1, 2)} :
        \E u \in {TLCEval([k \in 1..np |-> IF flat \/ Chance(1, 3) THEN 0
                            ELSE Pick({0} \cup {j \in same(k) : IF down THEN j > k ELSE j < k})])},
          g \in {TLCEval([k \in 1..np |-> IF Chance(2, 3) THEN "/" ELSE ""])},
          t \in {TLCEval([k \in 1..np |-> IF Chance(2, 3) THEN ""
                            ELSE Pick({"-x", "/v2", "_test"} \cup (IF prog.pkgkind[k] = "std" THEN {} ELSE {".v2", ".go/y"}))])},
          v \in {TLCEval([k \in 1..np |-> prog.pkgkind[k] = "std" /\ Chance(1, 3)])},
          b \in {TLCEval([k \in 1..np |-> Chance(1, 6)])}, top \in {Chance(1, 4)} :
          prog' = [prog EXCEPT !.under = u, !.glue = g, !.tail = t, !.vend = v, !.bare = b, !.top = top]
  /\ phase' = "functions"
  /\ UNCHANGED <<left, palette>>

BodyKinds == {"func", "ufunc", "umeth", "pmeth", "vmeth", "gmeth", "gen", "clos", "init"}
ClosureParents == {"func", "ufunc", "umeth", "pmeth", "vmeth", "clos", "init"}
AllKinds == BodyKinds \cup {"asm", "thunk", "bound", "prom"}
Grown == Shape \in {"chain", "tree", "star"}

\* Each new function calls an earlier one.
Grow ==
  /\ phase = "functions" /\ left > 0 /\ Grown
  /\ \E r \in {Pick(1..60)}, c \in {Pick(palette)} :
     LET f   == prog.n + 1
         np  == Len(prog.pkgkind)
         pkg == 1 + ((f - 1) * np) \div MaxFuncs
         cls == IF f = 1 THEN c
                ELSE IF Shape = "chain" \/ r > 5 THEN "UNSPECIFIED"
                ELSE IF r = 1 THEN "SAFE" ELSE c
     IN \E g \in {IF f = 1 THEN 0 ELSE IF Shape = "chain" THEN f - 1
                  ELSE IF Shape = "star" /\ f > 3 THEN Pick(1..3) ELSE Pick(1..(f - 1))} :
        prog' = [prog EXCEPT !.n = f, !.kind = Append(@, "func"), !.pkg = Append(@, pkg),
                             !.home = Append(@, pkg), !.par = Append(@, 0), !.cls = Append(@, cls),
                             !.ext = Append(@, <<>>),
                             !.calls = IF f = 1 THEN @ ELSE Append(@, [f |-> f, g |-> g, via |-> "static"])]
  /\ left' = left - 1
  /\ UNCHANGED <<phase, palette>>

AddFunction ==
  /\ phase = "functions" /\ left > 0 /\ ~Grown
  /\ \E want \in {IF Shape # "rich" \/ Chance(2, 5) THEN "func" ELSE Pick(AllKinds)},
       r \in {Pick(1..12)}, c \in {Pick(palette)}, x \in {Pick(1..8)} :
     LET funs    == 1..prog.n
         parents == {f \in funs : prog.kind[f] \in ClosureParents}
         methods == {f \in funs : prog.kind[f] \in {"pmeth", "vmeth"}}
         free(k) == {m \in methods : \A f \in funs : ~(prog.kind[f] = k /\ prog.par[f] = m)}
         kind == IF want = "clos" /\ parents = {} THEN "func"
                 ELSE IF want \in {"thunk", "bound", "prom"} /\ free(want) = {} THEN "pmeth"
                 ELSE want
         owners == IF kind = "clos" THEN parents
                   ELSE IF kind \in {"thunk", "bound", "prom"} THEN free(kind)
                   ELSE {0}
         cls == IF kind \in {"thunk", "bound", "prom"} THEN "UNSPECIFIED"
                ELSE IF r <= 3 THEN c
                ELSE IF r = 4 THEN "SAFE"
                ELSE "UNSPECIFIED"
         ext == IF kind \in BodyKinds /\ Shape = "rich" /\ x = 1
                THEN <<"UNSAFE_POINTER">> ELSE <<>>
         f == prog.n + 1
     IN
     \E par \in {Pick(owners)} :
     \E pkg \in {IF par # 0 THEN prog.pkg[par] ELSE Pick(DOMAIN prog.pkgkind)} :
     \E home \in {IF kind = "prom" THEN Pick(pkg..Len(prog.pkgkind)) ELSE pkg} :
       prog' = [prog EXCEPT !.n = f,
                   !.kind = Append(@, kind), !.pkg = Append(@, pkg),
                   !.home = Append(@, home),
                   !.par = Append(@, par), !.cls = Append(@, cls),
                   !.ext = Append(@, ext),
                   !.calls = IF kind = "clos" THEN Append(@, [f |-> par, g |-> f, via |-> "static"])
                             ELSE IF kind \in {"thunk", "bound", "prom"} THEN Append(@, [f |-> f, g |-> par, via |-> "wrap"])
                             ELSE @]
  /\ left' = left - 1
  /\ UNCHANGED <<phase, palette>>

StartCalls ==
  /\ phase = "functions" /\ left = 0
  /\ phase' = "calls" /\ left' = Pick(1..MaxCalls)
  /\ UNCHANGED <<prog, palette>>

Callers == {f \in 1..prog.n : prog.kind[f] \in BodyKinds}
InitCallees == {"func", "ufunc", "umeth", "pmeth", "vmeth", "gen", "gmeth", "asm"}
\* Packages import only packages with a smaller number.
Callees(f) ==
  {g \in 1..prog.n :
     /\ prog.kind[g] \notin {"clos", "init"}
     /\ f > prog.n => prog.kind[g] \in InitCallees
     /\ HomeOf(prog, g) <= PkgOf(prog, f)
     /\ prog.kind[g] \in {"ufunc", "umeth"} => PkgOf(prog, g) = PkgOf(prog, f)}

\* Functions that can be called through a hook by f.
HookCallees(f) ==
  {g \in 1..prog.n : prog.kind[g] \in {"func", "ufunc"} /\ prog.pkg[g] > PkgOf(prog, f)}

AddHook ==
  /\ phase = "calls" /\ left > 0
  /\ \E f \in {IF Callers = {} THEN 0 ELSE Pick(Callers)} :
     \E g \in {IF f = 0 \/ HookCallees(f) = {} THEN 0 ELSE Pick(HookCallees(f))} :
       prog' = IF g = 0 THEN prog
               ELSE [prog EXCEPT !.calls = Append(@, [f |-> f, g |-> g, via |-> "hook"])]
  /\ left' = left - 1
  /\ UNCHANGED <<phase, palette>>

AddCall ==
  /\ phase = "calls" /\ left > 0
  /\ LET inits == {prog.n + k : k \in DOMAIN prog.pkgkind} IN
     \E froms \in {IF Shape = "rich" /\ Chance(1, 10) THEN inits ELSE Callers} :
     \E f \in {IF froms = {} THEN 0 ELSE Pick(froms)} :
     \E g \in {IF f = 0 \/ Callees(f) = {} THEN 0 ELSE Pick(Callees(f))} :
     \E via \in {IF Shape # "rich" \/ f > prog.n \/ Chance(1, 2) THEN "static"
                 ELSE IF g # 0 /\ prog.kind[g] = "gmeth" THEN Pick({"defer", "go"})
                 ELSE Pick({"defer", "go", "value"})} :
       prog' = IF g = 0 THEN prog
               ELSE [prog EXCEPT !.calls = Append(@, [f |-> f, g |-> g, via |-> via])]
  /\ left' = left - 1
  /\ UNCHANGED <<phase, palette>>

\* The choice is made here, because both would be possible.
AddCallOrHook == IF Chance(1, 7) THEN AddHook ELSE AddCall

StartIgnore ==
  /\ phase = "calls" /\ left = 0
  /\ phase' = "ignore" /\ left' = Pick({0, 0, 1, 2})
  /\ UNCHANGED <<prog, palette>>

Ignore ==
  /\ phase = "ignore" /\ left > 0
  /\ IF prog.calls = <<>> THEN UNCHANGED prog
     ELSE \E i \in {Pick(DOMAIN prog.calls)} :
            prog' = [prog EXCEPT !.ign = Append(@, <<prog.calls[i].f, prog.calls[i].g>>)]
  /\ left' = left - 1
  /\ UNCHANGED <<phase, palette>>

RECURSIVE SetToSeq(_)
SetToSeq(S) ==
  IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})

Finish ==
  /\ phase = "ignore" /\ left = 0
  \* The topmost package is the usual one to ask about.
  /\ LET np == Len(prog.pkgkind) IN
     \E q \in {IF Shape = "deep" /\ Chance(2, 3) THEN {np} ELSE RandomSubset(Pick(1..np), 1..np)}, top \in {IF Chance(1, 2) THEN {np} ELSE {}},
       sel \in {IF Chance(1, 3) THEN {} ELSE
                  RandomSubset(Pick(1..2), palette \cup {"UNSAFE_POINTER", "ARBITRARY_EXECUTION"})},
       neg \in {Chance(1, 2)} :
       prog' = [prog EXCEPT !.query = SetToSeq(q \cup top), !.sel = SetToSeq(sel), !.neg = neg]
  /\ phase' = "done"
  /\ UNCHANGED <<left, palette>>

Next == ChoosePackages \/ ChoosePlaces \/ Grow \/ AddFunction \/ StartCalls \/ AddCallOrHook \/ StartIgnore \/ Ignore \/ Finish

Spec == Init /\ [][Next]_vars

\* Printed by every finished behaviour.
Emit == phase = "done" => PrintT(<<"SCENARIO", ToJson(prog)>>)
=============================================================================
