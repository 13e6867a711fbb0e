------------------------------- MODULE CapSet -------------------------------
(***************************************************************************)
(* Capability selections: the strings given to -capabilities.              *)
(*                                                                         *)
(* A string is described by its items, which are separated by commas; an   *)
(* item has a number of minus signs, a number of "CAPABILITY_" prefixes,   *)
(* and a rest, which is the name of a capability or something else.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

Names == {"UNSPECIFIED", "SAFE", "FILES", "NETWORK", "RUNTIME",
  "READ_SYSTEM_STATE", "MODIFY_SYSTEM_STATE", "OPERATING_SYSTEM",
  "SYSTEM_CALLS", "ARBITRARY_EXECUTION", "CGO", "UNANALYZED",
  "UNSAFE_POINTER", "REFLECT", "EXEC"}

Junk == {"", "files", " FILES", "FILES ", "FILE", "FILESS", "2", "NETWORK-",
         "*", "ALL", "Network", "FILES;EXEC", "FILES EXEC", "!EXEC", "+EXEC",
         "FILES=1", "\\n", "CAPABILITY", "\"FILES\"", "0", "CAPABILITY_FILES "}

Item == [minus : 0..2, prefix : 0..2, rest : Names \cup Junk]

RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN "" ELSE s \o Repeat(s, n - 1)

ItemText(i) == Repeat("-", i.minus) \o Repeat("CAPABILITY_", i.prefix) \o i.rest

RECURSIVE Text(_)
Text(items) ==
  IF items = <<>> THEN ""
  ELSE IF Len(items) = 1 THEN ItemText(items[1])
  ELSE ItemText(items[1]) \o "," \o Text(Tail(items))

-----------------------------------------------------------------------------
(* The meaning of a selection. *)

IsEmpty(items) == Text(items) = ""

KnownItem(i) == i.prefix <= 1 /\ i.rest \in Names

Accepted(items) ==
  \/ IsEmpty(items)
  \/ /\ \A k \in DOMAIN items : KnownItem(items[k]) /\ items[k].minus <= 1
     /\ \A k \in DOMAIN items : items[k].minus = items[1].minus

Listed(items) == {items[k].rest : k \in DOMAIN items}

\* The capabilities selected by an accepted list.
Members(items) ==
  IF IsEmpty(items) THEN Names
  ELSE IF items[1].minus = 1 THEN Names \ Listed(items)
  ELSE Listed(items)

=============================================================================
