------------------------------ MODULE ScanGen -------------------------------
(* Writes programs for source inspection.  Kind is "unsafe", "reflect" or    *)
(* "nobody".                                                                 *)
EXTENDS SourceScan, Json, Randomization

CONSTANTS Kind, MaxDecls

VARIABLES stage, decls, calls, left, npk

vars == <<stage, decls, calls, left, npk>>

Pick(S) == RandomElement(S)
Chance(n, d) == Pick(1..d) <= n

Contexts == {"stmt", "paren", "arg", "var", "cond", "forcond", "forpost", "switch", "case", "select", "defer", "go", "lit", "mapkey",
             "index", "ret", "label", "dead", "sizeof", "range", "send", "ifinit", "block", "rangefunc", "closurearg"}

GenKinds == {"gen", "gmeth"}
ConvOf(kind, to, from, ctx) ==
  [what |-> "conv",
   to |-> IF kind \notin GenKinds /\ to \in {"tpptr", "tpuint", "tpuptr", "tpmix"} THEN "ptr" ELSE to,
   from |-> IF kind \notin GenKinds /\ from \in {"tp", "tpx"} THEN "uptr" ELSE from,
   ctx |-> ctx]
FixConv(it) == IF ConvOK(it.to, it.from) THEN it ELSE [it EXCEPT !.to = "ptr", !.from = "uptr"]
RandomConv(kind) ==
  CHOOSE it \in {FixConv(ConvOf(kind, to, from, ctx)) :
     to \in {Pick(IF Chance(1, 3) THEN IntegerTo ELSE AllTo \ IntegerTo)},
     from \in {Pick(IF Chance(1, 3) THEN OtherFrom ELSE AllFrom \ OtherFrom)},
     ctx \in {Pick(Contexts)}} : TRUE

Hows == {"assign", "assign", "multi", "range", "recv", "commaok", "mapok", "assertok", "call", "call2", "zero", "select"}
OtherUses == {"arg", "ret", "mapset", "send", "iface", "new", "load", "defer", "append", "slicelit", "variadic", "gstore", "go"}

RECURSIVE WalkFrom(_, _)
WalkFrom(t, n) ==
  IF n = 0 \/ Steps(t) = {} THEN <<>>
  ELSE CHOOSE p \in {<<s>> \o WalkFrom(StepTo(t, s), n - 1) : s \in {Pick(Steps(t))}} : TRUE

Named == {"S", "NS", "E", "SS", "A", "A1", "AS", "AA", "SA", "R", "SP", "AP", "X", "B1", "B2", "B3", "B4", "B5", "W", "D16"}
Literal(t) == Def(Resolve(t)).k \in {"value", "struct", "array"}

\* Parameters, results and variables of an enclosing function need one.
RootFor(kind, t, r) ==
  IF r \in {"param", "result", "escparam"} /\ kind = "init" THEN "local"
  ELSE IF r = "outer" /\ kind # "lit" THEN "global"
  ELSE IF r = "sliced" /\ Def(Resolve(t)).k # "array" THEN "addr"
  ELSE IF r = "pmethod" /\ t \notin Named THEN "captured"
  ELSE r
DefinedRoots == {"local", "addr", "captured", "sliced", "pmethod"}
\* A definition declares the variable itself.
HowFor(root, path, t, h, def) ==
  IF def /\ path = <<>> /\ root \in DefinedRoots THEN Pick({"define", "vardecl"})
  ELSE IF h = "zero" /\ ~Literal(TypeAt(t, path)) THEN "assign"
  ELSE h

StoreOf(kind, t, r, h, def, n) ==
  CHOOSE it \in {[what |-> "store", root |-> RootFor(kind, t, r), type |-> t, path |-> p,
                  how |-> HowFor(RootFor(kind, t, r), p, t, h, def)] : p \in {WalkFrom(t, n)}} : TRUE
RandomStore(kind) ==
  CHOOSE it \in {StoreOf(kind, t, r, h, def, n) :
     t \in {Pick(IF Chance(2, 3) THEN {"V", "S", "SS", "A", "A1", "AS", "AA", "SA", "E", "R", "G", "SP", "B2", "B4", "B5", "W", "D16"} ELSE StoreTypes)},
     r \in {Pick(IF Chance(1, 2) THEN PlainRoots ELSE IF Chance(1, 2) THEN EscapingRoots ELSE OutsideRoots)},
     h \in {Pick(Hows)}, def \in {Chance(1, 3)}, n \in {Pick(IF Chance(1, 8) THEN 0..7 ELSE 0..3)}} : TRUE
RandomUse(kind) ==
  CHOOSE it \in {[what |-> "use", type |-> t, how |-> IF kind = "var" THEN "varinit" ELSE IF kind = "init" /\ h = "ret" THEN "load" ELSE h] :
     t \in {Pick(StoreTypes)}, h \in {Pick(OtherUses)}} : TRUE

RandomItem(kind) ==
  IF Kind = "reflect" THEN IF kind = "var" \/ Chance(1, 4) THEN RandomUse(kind) ELSE RandomStore(kind)
  ELSE RandomConv(kind)
RandomItems(kind) ==
  IF kind \in NoBody THEN <<>>
  ELSE LET n == IF Kind = "nobody" THEN Pick({0, 0, 0, 1}) ELSE Pick({0, 1, 1, 1, 2})
       IN IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<RandomItem(kind)>> ELSE <<RandomItem(kind), RandomItem(kind)>>

Kinds == {"func", "func", "ufunc", "pmeth", "vmeth", "gen", "gmeth", "init", "var", "lit", "lit2", "lit3", "blank", "umeth"}
         \cup (IF Kind = "nobody" THEN {"nobody", "nobodyu", "nobodypm", "nobodyvm", "nobodylink"} ELSE {})
\* Signatures of functions without a body: none has no result.
Signatures == {"", "", "none", "two", "three", "params", "variadic"}
Parents == {d \in DOMAIN decls : decls[d].kind \notin NoBody \cup {"blank", "gen", "gmeth"}}
Caps == {"UNSAFE_POINTER", "REFLECT", "ARBITRARY_EXECUTION", "FILES", "CGO"}

(* All single items, in functions that can contain them.                    *)
RECURSIVE Paths(_, _)
Paths(t, n) == {<<>>} \cup (IF n = 0 THEN {} ELSE UNION {{<<s>> \o p : p \in Paths(StepTo(t, s), n - 1)} : s \in Steps(t)})
AllConvs(k) ==
  {it \in [what : {"conv"}, to : AllTo, from : AllFrom, ctx : Contexts] :
     ConvOK(it.to, it.from) /\ ConvOf(k, it.to, it.from, it.ctx) = it}
AllStores(k) ==
  UNION {UNION {{it \in [what : {"store"}, root : PlainRoots \cup EscapingRoots \cup OutsideRoots, type : {t}, path : {p},
                         how : Hows \cup {"define", "vardecl"}] :
                   /\ RootFor(k, t, it.root) = it.root
                   /\ it.how \in {"define", "vardecl"} => p = <<>> /\ it.root \in DefinedRoots
                   /\ it.how = "zero" => Literal(TypeAt(t, p))} : p \in Paths(t, 3)} : t \in StoreTypes}
AllUses == {it \in [what : {"use"}, type : StoreTypes, how : OtherUses] : TRUE}

AllKinds == {"func", "gen", "lit"}
AllInit ==
  /\ stage = "all" /\ calls = <<>> /\ left = 0 /\ npk = 1
  /\ \E k \in AllKinds :
     \E it \in IF Kind = "reflect" THEN AllStores(k) \cup AllUses ELSE AllConvs(k) :
        decls = <<[kind |-> k, items |-> <<it>>]>>
NoStep == FALSE /\ UNCHANGED vars
EmitAll == PrintT(<<"SCENARIO", ToJson(decls[1])>>)

Init == stage = "start" /\ decls = <<>> /\ calls = <<>> /\ left = 0 /\ npk = 1
Start == stage = "start" /\ stage' = "decls" /\ left' = Pick(2..MaxDecls) /\ npk' = Pick(1..2) /\ UNCHANGED <<decls, calls>>

KindFor(k) == IF k \in {"lit", "lit2", "lit3"} THEN IF Parents = {} THEN "func" ELSE "lit" ELSE k

AddDecl ==
  /\ stage = "decls" /\ left > 0
  /\ \E k \in {KindFor(Pick(Kinds))} :
     \E par \in {IF k = "lit" THEN Pick(Parents) ELSE 0}, pk \in {Pick(1..npk)},
        use \in {Pick({"called", "called", "var", "defer", "go", "kept", "ret"})},
        cls \in {IF k \in {"var", "blank", "init", "lit"} THEN "UNSPECIFIED"
                 ELSE IF Chance(1, IF k \in NoBody THEN 4 ELSE 8) THEN "SAFE"
                 ELSE IF Chance(1, IF k \in NoBody THEN 3 ELSE 8) THEN Pick(Caps) ELSE "UNSPECIFIED"},
        items \in {TLCEval(RandomItems(k))}, sig \in {Pick(Signatures)} :
       decls' = Append(decls, [kind |-> k, pkg |-> IF par = 0 THEN pk ELSE decls[par].pkg, par |-> par,
                               use |-> IF k # "lit" THEN "" ELSE IF use = "ret" THEN "kept" ELSE IF decls[par].kind = "var" /\ use # "kept" THEN "called" ELSE use,
                               cls |-> cls, items |-> items, sig |-> IF k \in NoBody THEN sig ELSE ""])
  /\ left' = left - 1 /\ UNCHANGED <<stage, calls, npk>>

StartCalls ==
  /\ stage = "decls" /\ left = 0
  /\ stage' = "calls" /\ left' = Pick(0..(2 * Len(decls))) /\ UNCHANGED <<decls, calls, npk>>

Methods == {"pmeth", "vmeth", "umeth", "nobodypm", "nobodyvm", "gmeth"}
Callers == {d \in DOMAIN decls : decls[d].kind \notin NoBody}
\* Unexported functions are called in their own package only.
Callees(f) ==
  {d \in DOMAIN decls : /\ decls[d].kind \notin {"var", "blank", "init", "lit"}
                        /\ decls[d].pkg = decls[f].pkg \/ (decls[f].pkg = 1 /\ decls[d].kind \notin {"ufunc", "umeth", "nobodyu"})
                        /\ decls[f].kind = "var" => decls[d].sig # "none"}
Vias(f, g) ==
  IF decls[f].kind = "var" THEN {"static"}
  ELSE {"static", "defer", "go", "value"}
       \cup (IF decls[g].kind \in Methods \ {"gmeth"} THEN {"iface", "mexpr", "mval"} ELSE {})
       \cup (IF decls[g].kind \in {"pmeth", "vmeth", "nobodypm", "nobodyvm"} THEN {"prom"} ELSE {})

AddCall ==
  /\ stage = "calls" /\ left > 0
  /\ IF Callers = {} THEN UNCHANGED calls
     ELSE \E f \in {Pick(Callers)} :
          IF Callees(f) = {} THEN UNCHANGED calls
          ELSE \E g \in {Pick(Callees(f))} : \E via \in {Pick(Vias(f, g))} :
               calls' = IF \E c \in Range(calls) : c.f = f /\ c.g = g THEN calls ELSE Append(calls, [f |-> f, g |-> g, via |-> via])
  /\ left' = left - 1 /\ UNCHANGED <<stage, decls, npk>>

Finish == stage = "calls" /\ left = 0 /\ stage' = "done" /\ UNCHANGED <<decls, calls, left, npk>>

Next == Start \/ AddDecl \/ StartCalls \/ AddCall \/ Finish
Spec == Init /\ [][Next]_vars

Scenario == [pkgs |-> npk, decls |-> decls, calls |-> calls, builtin |-> Pick(1..8) # 1, main |-> Pick(1..4) = 1]
Emit == stage = "done" => PrintT(<<"SCENARIO", ToJson(Scenario)>>)
=============================================================================
