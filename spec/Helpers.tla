------------------------------ MODULE Helpers -------------------------------
(***************************************************************************)
(* Programs that pass functions and collections to helpers of the standard *)
(* library: sync.Once, and functions of sort, slices and sync.             *)
(*                                                                         *)
(* A program sc has users sc.users, functions that call a helper once: a   *)
(* record [helper, place, form, arg, fn, imp, in, caps].  caps says which  *)
(* capability each part of the code has, if any: fn (the function that is  *)
(* passed), len, less and swap (methods of the collection), op (evaluating *)
(* the receiver or collection), mk (evaluating the function), decoy (code  *)
(* of the program that looks like a helper).  A user with in = j > 0 is    *)
(* not a function but stands in the function literal that user j passes.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[k] : k \in DOMAIN s}

CallbackHelpers == {"Do", "Slice", "SliceStable"}
SortHelpers == {"Sort", "Stable", "IsSorted"}
OtherHelpers == {"OnceFunc", "OnceValue", "SortFunc", "SortStableFunc", "Search"}
Decoys == {"OwnOnce", "OwnSort", "Shadowed", "OwnSlice"}
AllHelpers == CallbackHelpers \cup SortHelpers \cup OtherHelpers \cup Decoys

\* Where the call is written: as a statement in a list of statements, as a
\* statement elsewhere, deferred or started, or as an operand.
ListPlaces == {"top", "block", "if", "else", "for", "range", "switch", "default", "tswitch", "select", "selectdef", "label", "closure",
               "closurevar", "deferlit", "golit", "varlit", "labelblock", "method"}
SimplePlaces == {"forpost", "ifinit", "switchinit", "forinit"}
CallPlaces == {"defer", "go"}
ExprPlaces == {"assign", "cond", "arg"}

\* Receivers of Do.
PlainReceivers == {"global", "local", "ptr", "field", "paren", "addr", "deref", "elem", "alias", "param", "pfield"}
LooseReceivers == {"embedded", "call", "idxcall", "iface", "litcallrecv"}
\* Collections for Slice and SliceStable.
PlainSlices == {"ident", "slice", "index", "sfield", "lit", "star", "assert", "mapindex", "parenid", "recv", "kvlit", "slice3", "addrlit", "keylit"}
LooseSlices == {"scall", "sidxcall", "sconv", "litcall", "kvcall", "slicecall", "assertcall", "starcall", "fieldcall",
                "maxcall", "lowcall", "keycall", "addrcall", "bincall", "arridxcall"}
\* Collections for Sort, Stable and IsSorted.
PlainSorts == {"value", "var", "pptr", "ivar", "sparam", "tparam", "prom", "eiface", "salias", "mkcall", "mklit", "conv", "tfield", "pprom",
               "phi", "elemcall", "iassert"}
LooseSorts == {"reverse"}
\* Those that make a call of their own.
WithCall == {"call", "idxcall", "scall", "sidxcall", "litcall", "kvcall", "slicecall", "assertcall", "starcall", "fieldcall", "mkcall", "mklit", "elemcall",
             "maxcall", "lowcall", "keycall", "addrcall", "bincall", "arridxcall", "litcallrecv"}

PlainFns == {"flit", "named", "mval", "phi", "gvar", "ffield", "fparam", "res", "ginst", "fparen", "fconv", "capt", "falias"}
LooseFns == {"namedtype"}

Forms == {"plain", "parenfun", "value", "mexpr"}
Imports == {"plain", "alias", "dot"}

FnUser(h) == h \in CallbackHelpers \cup OtherHelpers \cup {"OwnOnce", "OwnSlice"}
SortUser(h) == h \in SortHelpers \cup {"OwnSort", "Shadowed"}

Group(h) ==
  CASE h = "Do" -> "Do"
    [] h \in {"Slice", "SliceStable"} -> "Slice"
    [] h \in SortHelpers -> "Sort"
    [] h \in {"SortFunc", "SortStableFunc"} -> "SortFunc"
    [] OTHER -> h

\* The call is not looked into, so that it may be reported with what others
\* pass to the same helper in this way.
Loose(u) ==
  \/ u.helper \in OtherHelpers
  \/ u.helper \in CallbackHelpers \cup SortHelpers /\ u.form # "plain"
  \/ u.helper \in SortHelpers /\ (u.place \notin ListPlaces \/ u.arg \in LooseSorts \/ u.imp = "dot")
  \/ u.helper \in CallbackHelpers /\ (u.place \notin ListPlaces \cup SimplePlaces \/ u.fn \in LooseFns \/ u.arg \in LooseReceivers \cup LooseSlices)
  \/ u.helper \in {"Slice", "SliceStable"} /\ u.imp = "dot"

-----------------------------------------------------------------------------
Cap(u, part) == IF u.caps[part] = "" THEN {} ELSE {u.caps[part]}

\* Evaluating the call.
Operands(u) ==
  (IF u.arg \in WithCall THEN Cap(u, "op") ELSE {})
  \cup (IF FnUser(u.helper) /\ u.fn = "res" THEN Cap(u, "mk") ELSE {})
  \cup (IF u.helper \in Decoys THEN Cap(u, "decoy") ELSE {})
\* What the helper runs, and what it may run.
Passed(u) ==
  IF u.helper \in Decoys THEN {}
  ELSE IF FnUser(u.helper) THEN Cap(u, "fn")
  ELSE Cap(u, "len") \cup Cap(u, "less") \cup (IF u.helper = "IsSorted" THEN {} ELSE Cap(u, "swap"))
PassedAtMost(u) == Passed(u) \cup (IF u.helper = "IsSorted" THEN Cap(u, "swap") ELSE {})

\* Users that are evaluated, and users whose functions are run, starting from
\* the set X of users.
RECURSIVE Run(_, _, _, _)
Run(us, loose, X, Y) ==
  LET X2 == X \cup {v \in DOMAIN us : us[v].in \in Y}
      Y2 == Y \cup {u \in X2 : us[u].helper \notin Decoys}
              \cup (IF loose THEN {w \in DOMAIN us : Loose(us[w]) /\ \E u \in X2 : Loose(us[u]) /\ Group(us[u].helper) = Group(us[w].helper)}
                    ELSE {})
  IN IF X2 = X /\ Y2 = Y THEN <<X, Y>> ELSE Run(us, loose, X2, Y2)

\* Node 0 is the initialisation of the package, where place "varlit" is.
Roots(us, n) == IF n = 0 THEN {u \in DOMAIN us : us[u].place = "varlit" /\ us[u].in = 0} ELSE {n}
Nodes(us) == {0} \cup {u \in DOMAIN us : us[u].place # "varlit" /\ us[u].in = 0}

AtLeast(us, n) ==
  LET r == Run(us, FALSE, Roots(us, n), {})
  IN UNION {Operands(us[u]) : u \in r[1]} \cup UNION {Passed(us[u]) : u \in r[2]}
AtMost(us, n) ==
  LET r == Run(us, TRUE, Roots(us, n), {})
  IN UNION {Operands(us[u]) : u \in r[1]} \cup UNION {PassedAtMost(us[u]) : u \in r[2]}
=============================================================================
