----------------------------- MODULE HelpersGen -----------------------------
(* Writes programs that use helpers.                                         *)
EXTENDS Helpers, Json

CONSTANTS MaxUsers

VARIABLES stage, us, left

vars == <<stage, us, left>>

Pick(S) == RandomElement(S)
Chance(n, d) == Pick(1..d) <= n

Caps == {"FILES", "NETWORK", "RUNTIME", "READ_SYSTEM_STATE", "MODIFY_SYSTEM_STATE", "OPERATING_SYSTEM", "SYSTEM_CALLS",
         "ARBITRARY_EXECUTION", "CGO", "UNANALYZED", "UNSAFE_POINTER", "REFLECT", "EXEC"}

\* Calls that can be written.
ArgsOf(h) ==
  CASE h \in {"Do", "OwnOnce"} -> PlainReceivers \cup LooseReceivers
    [] h \in {"Slice", "SliceStable", "OwnSlice"} -> PlainSlices \cup LooseSlices
    [] SortUser(h) -> PlainSorts \cup LooseSorts
    [] OTHER -> {"none"}
FnsOf(h) == IF FnUser(h) THEN PlainFns \cup LooseFns ELSE {"none"}
PlacesOf(h) ==
  IF h \in {"OnceFunc", "OnceValue"} THEN ListPlaces \cup CallPlaces
  ELSE IF h = "Search" THEN {"assign", "cond", "arg"} \cup CallPlaces \cup ListPlaces
  ELSE IF h = "IsSorted" THEN ListPlaces \cup SimplePlaces \cup CallPlaces \cup ExprPlaces
  ELSE ListPlaces \cup SimplePlaces \cup CallPlaces
FormsOf(h) == IF h = "Do" THEN Forms ELSE IF h \in CallbackHelpers \cup SortHelpers THEN {"plain", "parenfun", "value"} ELSE {"plain"}
ImportsOf(h) == IF h \in Decoys THEN {"plain"} ELSE Imports
UserOf(h, place, form, arg, fn, imp, in) ==
  [helper |-> h, place |-> place,
   form |-> IF form = "mexpr" /\ arg \in {"call", "idxcall", "iface", "embedded", "litcallrecv"} THEN "plain" ELSE form,
   arg |-> IF h = "OwnOnce" /\ arg = "iface" THEN "global" ELSE IF h = "Shadowed" /\ arg = "reverse" THEN "value" ELSE arg, fn |-> fn, imp |-> imp, in |-> in]

Parts == {"fn", "len", "less", "swap", "op", "mk", "decoy"}
RandomCaps(x) == TLCEval([p \in Parts |-> IF Chance(1, 4) THEN "" ELSE Pick(Caps)])

\* Users that others can stand in.
Hosts == {u \in DOMAIN us : us[u].helper \in CallbackHelpers \cup {"OnceFunc", "SortFunc"} /\ us[u].fn = "flit"}

Mostly(S, T) == Pick(IF Chance(2, 3) /\ S \cap T # {} THEN S \cap T ELSE T)

Init == stage = "start" /\ us = <<>> /\ left = 0
Start == stage = "start" /\ stage' = "users" /\ left' = Pick(3..MaxUsers) /\ UNCHANGED us
AddUser ==
  /\ stage = "users" /\ left > 0
  /\ \E h \in {Pick(IF Chance(3, 4) THEN CallbackHelpers \cup SortHelpers ELSE OtherHelpers \cup Decoys)} :
     \E place \in {Mostly(ListPlaces, PlacesOf(h))}, form \in {Mostly({"plain"}, FormsOf(h))},
        arg \in {Mostly(PlainReceivers \cup PlainSlices \cup PlainSorts, ArgsOf(h))}, fn \in {Mostly(PlainFns, FnsOf(h))},
        imp \in {Pick(ImportsOf(h))}, in \in {IF Hosts # {} /\ h \notin Decoys \ {"Shadowed"} /\ Chance(1, 5) THEN Pick(Hosts) ELSE 0}, caps \in {RandomCaps(0)},
        dep \in {Chance(1, 4)} :
       us' = Append(us, [caps |-> caps, dep |-> IF in # 0 THEN us[in].dep ELSE dep /\ place # "varlit"] @@
                        UserOf(h, IF in # 0 /\ place \in {"varlit", "method"} THEN "top" ELSE place, form, arg, fn,
                               IF in # 0 THEN us[in].imp ELSE imp, in))
  /\ left' = left - 1 /\ UNCHANGED stage
Finish == stage = "users" /\ left = 0 /\ stage' = "done" /\ UNCHANGED <<us, left>>
Next == Start \/ AddUser \/ Finish
Spec == Init /\ [][Next]_vars
Emit == stage = "done" => PrintT(<<"SCENARIO", ToJson([users |-> us])>>)

-----------------------------------------------------------------------------
(* All kinds of users; those that differ from the plainest one in at most    *)
(* two ways.                                                                 *)
Base(h) ==
  UserOf(h, IF h = "Search" THEN "assign" ELSE "top", "plain",
         CHOOSE a \in ArgsOf(h) : a \in {"global", "ident", "value", "none"},
         IF FnUser(h) THEN "named" ELSE "none", "plain", 0)
Kinds(h) ==
  {u \in [helper : {h}, place : PlacesOf(h), form : FormsOf(h), arg : ArgsOf(h), fn : FnsOf(h), imp : ImportsOf(h), in : {0}] :
     /\ UserOf(h, u.place, u.form, u.arg, u.fn, u.imp, 0) = u
     /\ Cardinality({k \in DOMAIN u : u[k] # Base(h)[k]}) <= 2}
AllInit == stage = "all" /\ left = 0 /\ \E h \in AllHelpers : \E u \in Kinds(h) : us = <<u>>
NoStep == FALSE /\ UNCHANGED vars
EmitAll == PrintT(<<"SCENARIO", ToJson(us[1])>>)
=============================================================================
