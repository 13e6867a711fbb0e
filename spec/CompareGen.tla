----------------------------- MODULE CompareGen -----------------------------
(* Programs as from ProgGen, with a baseline made from other categories.   *)
EXTENDS ProgGen

Damages == {"missing", "directory", "empty", "truncated", "notjson", "array", "trailing",
            "capability", "wrongtype", "otherjson", "binary", "null"}

\* Granularities of the comparison and the baseline, and which may omit paths.
Grains == {<<"", "">>, <<"", "package">>, <<"package", "package">>, <<"package", "function">>, <<"package", "">>,
           <<"function", "function">>, <<"function", "">>, <<"intermediate", "intermediate">>}

OtherCls(c, f) == IF prog.kind[f] \in {"asm", "thunk", "bound", "prom"} THEN c
                  ELSE IF Chance(1, 6) THEN Pick(palette \cup {"UNSPECIFIED", "SAFE"}) ELSE c

Cmp(z) ==
  [cls |-> IF Chance(1, 4) THEN prog.cls
           ELSE IF Chance(1, 4) THEN [f \in DOMAIN prog.cls |-> IF Chance(1, 2) /\ prog.kind[f] # "asm" THEN "UNSPECIFIED" ELSE prog.cls[f]]
           ELSE [f \in DOMAIN prog.cls |-> OtherCls(prog.cls[f], f)],
   ign |-> IF Chance(1, 2) THEN prog.ign ELSE SubSeq(prog.ign, 1, Len(prog.ign) \div 2),
   extra |-> IF Chance(4, 5) THEN <<>> ELSE [i \in 1..Pick(1..2) |-> Pick(AllCaps)],
   omit |-> Chance(1, 3), damage |-> IF Chance(1, 8) THEN Pick(Damages) ELSE "none", at |-> Pick(0..999)]

EmitCompare ==
  phase = "done" =>
    \E g \in {Pick(Grains)} :
      PrintT(<<"SCENARIO", ToJson(prog @@ [cmp |-> Cmp(g) @@
        [gran |-> g[1], basegran |-> g[2], baseomit |-> Chance(1, 3) /\ ~(g[1] = "function" /\ g[2] = "")]])>>)
=============================================================================
