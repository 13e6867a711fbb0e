------------------------------ MODULE DetermGen -----------------------------
(* Writes histories of analyses of a program, and programs in which several  *)
(* functions have the same name.                                             *)
EXTENDS Determ, Json

CONSTANTS MaxSteps, Processes, Loads

VARIABLES stage, reqs, plan, blocks, left

vars == <<stage, reqs, plan, blocks, left>>

Pick(S) == RandomElement(S)
Chance(n, d) == Pick(1..d) <= n

Outputs == {"json", "m", "v", "g", "", "compare"}
Grans == {"", "function", "package", "intermediate"}

(* Blocks of a program: in function fun there is a local type T with several *)
(* integers that embeds type emb, whose method calls leaf emb; it is used in *)
(* some way.  In other packages an alias of type emb is used instead.        *)
Uses == {"instance", "iface", "mexpr", "mvalue", "closure", "ptr", "nested", "slice", "gtype", "func", "ivalue", "hook", "iexpr"}
NewBlock(x) == [pkg |-> IF Chance(1, 2) THEN 0 ELSE Pick(1..4), fun |-> Pick(1..3), emb |-> Pick(1..2), ints |-> Pick(0..3), use |-> Pick(Uses)]
NewReq(x) ==
  CHOOSE r \in {[query |-> IF Chance(2, 3) THEN "all" ELSE Pick({"first", "last"}),
                 output |-> IF Chance(1, 2) THEN "json" ELSE Pick(Outputs),
                 gran |-> IF Chance(1, 2) THEN "" ELSE Pick(Grans),
                 omit |-> Chance(1, 5), sel |-> Chance(1, 5)]} : TRUE
NewStep(x) ==
  CHOOSE s \in {[proc |-> Pick(1..Processes), load |-> Pick(1..Loads), order |-> Pick({"plain", "reverse", "rotate"})] @@ r :
                r \in {reqs[Pick(DOMAIN reqs)]}} : TRUE

Init == stage = "start" /\ reqs = <<>> /\ plan = <<>> /\ blocks = <<>> /\ left = 0
Start ==
  /\ stage = "start" /\ stage' = "steps"
  /\ \E nr \in {Pick(1..3)}, nb \in {Pick(2..14)} :
     \E r \in {TLCEval([i \in 1..nr |-> NewReq(0)])}, b \in {TLCEval([i \in 1..nb |-> NewBlock(0)])} :
       reqs' = r /\ blocks' = b
  /\ left' = MaxSteps /\ UNCHANGED plan
AddStep ==
  /\ stage = "steps" /\ left > 0 /\ left' = left - 1
  /\ \E s \in {NewStep(0)} : plan' = Append(plan, s)
  /\ UNCHANGED <<stage, reqs, blocks>>
Finish == stage = "steps" /\ left = 0 /\ stage' = "done" /\ UNCHANGED <<reqs, plan, blocks, left>>
Next == Start \/ AddStep \/ Finish
Spec == Init /\ [][Next]_vars
Emit == stage = "done" => PrintT(<<"SCENARIO", ToJson([plan |-> plan, blocks |-> blocks])>>)
=============================================================================
