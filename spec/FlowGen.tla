------------------------------ MODULE FlowGen -------------------------------
(* Writes programs that store and call functions.                            *)
EXTENDS Flow, Json

CONSTANTS MaxFuns, MaxLeaves, MaxCells, MaxBody

VARIABLES stage, funs, cells, todo

vars == <<stage, funs, cells, todo>>

Pick(S) == RandomElement(S)
Chance(n, d) == Pick(1..d) <= n

Caps == <<"FILES", "NETWORK", "RUNTIME", "READ_SYSTEM_STATE", "CGO", "UNANALYZED", "UNSAFE_POINTER", "REFLECT", "EXEC">>
Classes == {"func", "iface"}
\* How functions and cells are declared, and values and calls are written.
FunKinds == {"plain", "method", "pmethod", "generic"}
LeafKinds == {"here", "there"}
CellKinds == {"var", "field", "pfield", "elem", "app", "arr", "map", "mapstruct", "chan", "ptr", "capt", "gbox", "any", "setter", "iset",
              "nest", "emb", "gfun", "local"}
FuncHows == {"name", "lit", "mval", "pmval", "mexpr", "emb", "ginst", "gmeth", "ival", "clos", "res"}
IfaceHows == {"val", "ptr", "embv", "embp", "embi", "adapt", "anon", "deep"}
CellHows == {"direct", "tmp", "alt"}
CallVias == {"call", "defer", "go", "deferlit", "golit", "helper", "ghelper", "rangef", "vari", "opts", "tmp", "iife", "chain", "sw", "assert", "other"}
PassVias == {"direct", "defer", "go", "fvar", "iface", "lit", "mexpr", "vari", "gen", "opts", "mval"}

Init == stage = "start" /\ funs = <<>> /\ cells = <<>> /\ todo = 0
Start ==
  /\ stage = "start" /\ stage' = "decls"
  /\ \E nf \in {Pick(2..MaxFuns)}, nl \in {Pick(1..MaxLeaves)}, nc \in {Pick(1..MaxCells)} :
     /\ todo' = nf + nl
     /\ funs' = [i \in 1..(nf + nl) |-> [leaf |-> i > nf]]
     /\ cells' = [i \in 1..nc |-> 0]

Class(none) == IF none > 0 /\ Chance(none, 4) THEN "none" ELSE Pick(Classes)
NewFun(leaf, c) ==
  IF leaf THEN [kind |-> Pick(LeafKinds), param |-> "none", ret |-> "none", loc |-> "func", cap |-> Caps[1 + (c % Len(Caps))], body |-> <<>>]
  ELSE [kind |-> Pick(FunKinds), param |-> Class(2), ret |-> Class(3), loc |-> Class(0), cap |-> "", body |-> <<>>]
Declare ==
  /\ stage = "decls" /\ stage' = "bodies"
  /\ \E c \in {Pick(DOMAIN Caps)} :
     \E fs \in {TLCEval([i \in DOMAIN funs |-> NewFun(funs[i].leaf, c + i)])},
        cs \in {TLCEval([i \in DOMAIN cells |-> [cls |-> Pick(Classes), kind |-> Pick(CellKinds)]])} :
       funs' = fs /\ cells' = cs
  /\ UNCHANGED todo

\* Functions that can be values.
Values == {f \in DOMAIN funs : funs[f].param = "none" /\ funs[f].ret = "none"}
Leaves == {f \in DOMAIN funs : funs[f].cap # ""}
Others == DOMAIN funs \ Leaves

\* Each operator that makes a random choice binds it once.
OneOf(S) == CHOOSE x \in S : TRUE
\* Functions are seldom called by name.
Source(f, fun) ==
  OneOf({[s |-> k,
          i |-> CASE k = "fun" -> Pick(IF Chance(2, 3) THEN Leaves ELSE Values)
                  [] k = "cell" -> Pick(DOMAIN cells)
                  [] OTHER -> 0,
          how |-> CASE k = "fun" -> Pick(IF Chance(1, 2) THEN FuncHows ELSE IfaceHows)
                    [] k = "cell" -> Pick(CellHows)
                    [] OTHER -> ""] :
         k \in {IF funs[f].param # "none" /\ Chance(1, 3) THEN "param"
                ELSE IF Chance(1, 6) THEN "local" ELSE IF Chance(fun, 6) THEN "fun" ELSE "cell"}})
Target(f) ==
  OneOf({[d |-> d, i |-> IF d = "cell" THEN Pick(DOMAIN cells) ELSE 0] :
         d \in {IF funs[f].ret # "none" /\ Chance(1, 2) THEN "ret" ELSE IF Chance(1, 4) THEN "local" ELSE "cell"}})
NoTarget == [d |-> "none", i |-> 0]
NoSource == [s |-> "nil", i |-> 0, how |-> ""]
Set(f) == [op |-> "set", src |-> Source(f, 3), dst |-> Target(f), g |-> 0, keep |-> FALSE, via |-> ""]
Call(f) == [op |-> "call", src |-> Source(f, 1), dst |-> NoTarget, g |-> 0, keep |-> FALSE, via |-> Pick(CallVias)]
Pass(f) ==
  OneOf({[op |-> "pass", src |-> IF funs[g].param = "none" THEN NoSource ELSE Source(f, 3), dst |-> NoTarget, g |-> g,
          keep |-> via \notin {"defer", "go"} /\ funs[g].ret # "none", via |-> via] :
         g \in {Pick(Others)}, via \in {Pick(PassVias)}})
Statement(f) ==
  OneOf({CASE n <= 4 -> Set(f) [] n <= 7 -> Call(f) [] OTHER -> Pass(f) : n \in {Pick(1..10)}})

Write ==
  /\ stage = "bodies" /\ todo > 0
  /\ IF todo \in Leaves THEN UNCHANGED funs
     ELSE \E n \in {Pick(1..MaxBody)} : \E b \in {TLCEval([i \in 1..n |-> Statement(todo)])} : funs' = [funs EXCEPT ![todo].body = b]
  /\ todo' = todo - 1 /\ UNCHANGED <<stage, cells>>
Finish == stage = "bodies" /\ todo = 0 /\ stage' = "done" /\ UNCHANGED <<funs, cells, todo>>
Next == Start \/ Declare \/ Write \/ Finish
Spec == Init /\ [][Next]_vars
Emit == stage = "done" => PrintT(<<"SCENARIO", ToJson([funs |-> funs, cells |-> cells])>>)
=============================================================================
