----------------------------- MODULE SourceScan -----------------------------
(***************************************************************************)
(* Capabilities that are found by looking at the source of functions.      *)
(*                                                                         *)
(* A program sc has declarations sc.decls, each [kind, pkg, par, use, cls, *)
(* items], and calls sc.calls, each [f, g, via].  Kinds are func, ufunc,   *)
(* pmeth, vmeth, gen, gmeth and init; var (initialisers of variables of    *)
(* the package); lit (a literal in declaration par); nobody, nobodylink,   *)
(* nobodyu, nobodypm and nobodyvm (functions and methods without a body,   *)
(* with signature sig); and blank (functions called _).  Packages are      *)
(* 1..sc.pkgs; package 1 imports the others, and may be a program.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[k] : k \in DOMAIN s}

-----------------------------------------------------------------------------
(* Conversions: item [what |-> "conv", to, from, ctx].  The context makes   *)
(* no difference.                                                           *)

UnsafeFrom == {"uptr", "nuptr", "auptr", "tp", "call", "conv", "add", "field", "index", "deref", "closure"}
\* Type parameters: tpmix may be a pointer or an integer, and tpx an unsafe
\* pointer or an integer.  What can be a pointer for some type arguments counts.
OtherFrom == {"uintptr", "ptr", "nil"}
IntegerTo == {"uintptr", "nuintptr", "auintptr", "tpuint"}
UnsafeTo == {"uptr", "nuptr", "auptr", "tpuptr"}
PointerTo == {"ptr", "nptr", "aptr", "tpptr", "sptr", "fptr", "arrptr", "pptr"}
AllFrom == UnsafeFrom \cup {"tpx"} \cup OtherFrom
AllTo == IntegerTo \cup UnsafeTo \cup PointerTo \cup {"tpmix"}

ConvOK(to, from) ==
  CASE from \in UnsafeFrom -> TRUE
    [] from = "tpx" -> to \in IntegerTo \cup UnsafeTo
    [] from = "uintptr" -> to \in IntegerTo \cup UnsafeTo
    [] from = "ptr" -> to \in {"ptr", "nptr", "aptr", "tpptr"} \cup UnsafeTo
    [] from = "nil" -> to \in PointerTo \cup UnsafeTo

ConvFound(it) == it.from \in UnsafeFrom \cup {"tpx"} /\ it.to \notin IntegerTo

-----------------------------------------------------------------------------
(* Types, for stores.                                                       *)

\* A tower of structs and arrays.
DeepNames == [i \in 1..16 |-> "D" \o ToString(i)]
Deep(i) ==
  LET of == IF i = 1 THEN "B5" ELSE DeepNames[i - 1]
  IN IF i % 2 = 0 THEN [k |-> "array", of |-> of] ELSE [k |-> "struct", f |-> [N |-> "I", M |-> of]]

Def(t) ==
  CASE t = "V" -> [k |-> "value"]
    [] t = "AV" -> [k |-> "same", of |-> "V"]
    [] t = "I" -> [k |-> "basic"]
    [] t = "S" -> [k |-> "struct", f |-> [N |-> "I", V |-> "V"]]
    [] t = "NS" -> [k |-> "same", of |-> "S"]
    [] t = "E" -> [k |-> "struct", f |-> [Value |-> "V", N |-> "I"]]
    [] t = "SS" -> [k |-> "struct", f |-> [N |-> "I", S |-> "S"]]
    [] t = "A" -> [k |-> "array", of |-> "V"]
    [] t = "A1" -> [k |-> "array", of |-> "V"]
    [] t = "AS" -> [k |-> "array", of |-> "S"]
    [] t = "AA" -> [k |-> "array", of |-> "A"]
    [] t = "SA" -> [k |-> "struct", f |-> [A |-> "A", P |-> "PS", L |-> "LS", Q |-> "PA"]]
    [] t = "G" -> [k |-> "struct", f |-> [X |-> "V", N |-> "I"]]
    [] t = "GI" -> [k |-> "struct", f |-> [X |-> "I", N |-> "I"]]
    [] t = "R" -> [k |-> "struct", f |-> [Next |-> "PR", V |-> "V"]]
    [] t = "SP" -> [k |-> "struct", f |-> [P |-> "PV", L |-> "LV", N |-> "I"]]
    [] t = "AP" -> [k |-> "array", of |-> "PV"]
    [] t = "X" -> [k |-> "struct", f |-> [N |-> "I"]]
    [] t = "B1" -> [k |-> "struct", f |-> [N |-> "I", M |-> "SS"]]
    [] t = "B2" -> [k |-> "struct", f |-> [M |-> "B1", N |-> "I"]]
    [] t = "B3" -> [k |-> "array", of |-> "B2"]
    [] t = "B4" -> [k |-> "struct", f |-> [N |-> "I", P |-> "PS", M |-> "B3"]]
    [] t = "B5" -> [k |-> "struct", f |-> [M |-> "B4", N |-> "I"]]
    [] t = "W" -> [k |-> "struct", f |-> [F1 |-> "I", F2 |-> "I", F3 |-> "PV", F4 |-> "I", F5 |-> "LV", F6 |-> "I", F7 |-> "I", F8 |-> "I", F9 |-> "V", F0 |-> "I"]]
    [] \E i \in DOMAIN DeepNames : t = DeepNames[i] -> Deep(CHOOSE i \in DOMAIN DeepNames : t = DeepNames[i])
    [] t = "PV" -> [k |-> "pointer", of |-> "V"]
    [] t = "PS" -> [k |-> "pointer", of |-> "S"]
    [] t = "PA" -> [k |-> "pointer", of |-> "A"]
    [] t = "PR" -> [k |-> "pointer", of |-> "R"]
    [] t = "LV" -> [k |-> "slice", of |-> "V"]
    [] t = "LS" -> [k |-> "slice", of |-> "S"]
    [] t \in {"MV", "CV", "FV", "Any", "T", "K"} -> [k |-> "basic"]

StoreTypes == {"V", "AV", "I", "S", "NS", "E", "SS", "A", "A1", "AS", "AA", "SA", "G", "GI", "R", "SP", "AP", "X", "B1", "B2", "B3", "B4", "B5", "W", "D16", "PV", "PS", "PA", "LV", "LS",
               "MV", "CV", "FV", "Any", "T", "K"}

RECURSIVE Contains(_)
Contains(t) ==
  LET d == Def(t)
  IN CASE d.k = "value" -> TRUE
       [] d.k \in {"same", "array"} -> Contains(d.of)
       [] d.k = "struct" -> \E f \in DOMAIN d.f : Contains(d.f[f])
       [] OTHER -> FALSE

RECURSIVE Resolve(_)
Resolve(t) == IF Def(t).k = "same" THEN Resolve(Def(t).of) ELSE t

\* The steps from a variable of type t to its parts: a field, "[]" and "*".
Steps(t) ==
  LET d == Def(Resolve(t))
  IN CASE d.k = "struct" -> DOMAIN d.f
       [] d.k \in {"array", "slice"} -> {"[]"}
       [] d.k = "pointer" -> {"*"}
       [] OTHER -> {}
StepTo(t, s) == LET d == Def(Resolve(t)) IN IF d.k = "struct" THEN d.f[s] ELSE d.of

RECURSIVE TypeAt(_, _)
TypeAt(t, path) == IF path = <<>> THEN t ELSE TypeAt(StepTo(t, path[1]), Tail(path))

\* The path leads out of the variable.
RECURSIVE Leaves(_, _)
Leaves(t, path) ==
  path # <<>> /\ (Def(Resolve(t)).k \in {"pointer", "slice"} \/ Leaves(StepTo(t, path[1]), Tail(path)))

(* Stores: item [what |-> "store", root, type, path, how].  The variable is *)
(* local and nothing refers to it, or it is used in a way that lets it      *)
(* outlive the call, or it is not a local variable at all.                  *)
PlainRoots == {"local", "param", "result"}
EscapingRoots == {"addr", "addrpart", "captured", "sliced", "pmethod", "escparam"}
OutsideRoots == {"global", "ptr", "slice", "outer", "ptrptr", "ofarray", "made", "fresh", "mapptr"}

\* An argument is stored to a parameter that is used in such a way.
StoreFound(it) ==
  \/ Contains(TypeAt(it.type, it.path)) /\ (it.root \notin PlainRoots \/ Leaves(it.type, it.path))
  \/ it.root = "escparam" /\ Contains(it.type)

\* Other uses of a value: item [what |-> "use", type, how].  Elements of slices
\* that are made for it are memory; elements of maps, channels and interface
\* values do not count.
UseFound(it) == it.how \in {"append", "slicelit", "variadic", "gstore", "varinit"} /\ Contains(it.type)

-----------------------------------------------------------------------------
Found(it) ==
  CASE it.what = "conv" -> IF ConvFound(it) THEN {"UNSAFE_POINTER"} ELSE {}
    [] it.what = "store" -> IF StoreFound(it) THEN {"REFLECT"} ELSE {}
    [] it.what = "use" -> IF UseFound(it) THEN {"REFLECT"} ELSE {}

N(sc) == Len(sc.decls)
NoBody == {"nobody", "nobodyu", "nobodypm", "nobodyvm", "nobodylink"}

\* Initialisers are run by the package's initialisation, which is node N + pkg.
NodeOf(sc, d) == IF sc.decls[d].kind = "var" THEN N(sc) + sc.decls[d].pkg ELSE d
Nodes(sc) == {d \in 1..N(sc) : sc.decls[d].kind \notin {"var", "blank"}} \cup {N(sc) + k : k \in 1..sc.pkgs}
ClsOf(sc, x) == IF x > N(sc) THEN "UNSPECIFIED" ELSE sc.decls[x].cls
InBody(sc, x) ==
  LET ds == {d \in 1..N(sc) : sc.decls[d].kind # "blank" /\ NodeOf(sc, d) = x}
  IN UNION {UNION {Found(sc.decls[d].items[k]) : k \in DOMAIN sc.decls[d].items} : d \in ds}
     \cup (IF \E d \in ds : sc.decls[d].kind \in NoBody THEN {"ARBITRARY_EXECUTION"} ELSE {})

\* A literal is called where it is written, or kept, without being called.
Edges(sc) ==
  {<<NodeOf(sc, c.f), c.g>> : c \in {c \in Range(sc.calls) : sc.decls[c.f].kind # "blank"}}
  \cup {<<NodeOf(sc, sc.decls[d].par), d>> : d \in {d \in 1..N(sc) : sc.decls[d].kind = "lit" /\ sc.decls[d].use # "kept"}}
  \cup {<<N(sc) + sc.decls[d].pkg, d>> : d \in {d \in 1..N(sc) : sc.decls[d].kind = "init"}}
  \cup {<<N(sc) + 1, N(sc) + k>> : k \in 2..sc.pkgs}

Explicit(sc, x) == ClsOf(sc, x) \notin {"SAFE", "UNSPECIFIED"}
Holding(sc, cap) ==
  {x \in Nodes(sc) : IF Explicit(sc, x) THEN ClsOf(sc, x) = cap
                     ELSE ClsOf(sc, x) # "SAFE" /\ sc.builtin /\ cap \in InBody(sc, x)}

RECURSIVE Backwards(_, _, _)
Backwards(E, S, sc) ==
  LET T == S \cup {e[1] : e \in {e \in E : e[2] \in S /\ ClsOf(sc, e[1]) = "UNSPECIFIED"}}
  IN IF T = S THEN S ELSE Backwards(E, T, sc)

\* The functions that are reported with a capability.
Reported(sc, cap) == Backwards(Edges(sc), Holding(sc, cap), sc)
=============================================================================
