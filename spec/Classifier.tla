----------------------------- MODULE Classifier -----------------------------
(***************************************************************************)
(* Capability maps and the classifiers made from them.                     *)
(*                                                                         *)
(* A map file is a sequence of lines.  A line is described by its words    *)
(* and its layout (leading space, separators, what follows the last word), *)
(* from which Text gives the characters of the file.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

Capabilities == {"CAPABILITY_" \o n : n \in
  {"UNSPECIFIED", "SAFE", "FILES", "NETWORK", "RUNTIME", "READ_SYSTEM_STATE",
   "MODIFY_SYSTEM_STATE", "OPERATING_SYSTEM", "SYSTEM_CALLS",
   "ARBITRARY_EXECUTION", "CGO", "UNANALYZED", "UNSAFE_POINTER", "REFLECT", "EXEC"}}

Keywords == {"func", "package", "unanalyzed", "ignore_edge", "cgo_suffix"}

\* The number of words that a line needs, with the keyword.
Words(k) == IF k \in {"unanalyzed", "cgo_suffix"} THEN 2 ELSE 3

-----------------------------------------------------------------------------
(* The text of a map. *)

RECURSIVE Join(_, _)
Join(words, sep) ==
  IF words = <<>> THEN ""
  ELSE IF Len(words) = 1 THEN words[1]
  ELSE words[1] \o sep \o Join(Tail(words), sep)

LineText(ln) == ln.lead \o Join(ln.words, ln.sep) \o ln.trail

RECURSIVE Text(_, _)
Text(lines, final) ==
  IF lines = <<>> THEN ""
  ELSE IF Len(lines) = 1 THEN LineText(lines[1]) \o (IF final THEN "\n" ELSE "")
  ELSE LineText(lines[1]) \o "\n" \o Text(Tail(lines), final)

-----------------------------------------------------------------------------
(* The meaning of a map. *)

\* Lines with no words (blank lines and comments) say nothing.
Blank(ln) == ln.words = <<>>

WellFormed(ln) ==
  \/ Blank(ln)
  \/ /\ ln.words[1] \in Keywords
     /\ Len(ln.words) >= Words(ln.words[1])
     /\ ln.words[1] \in {"func", "package"} => ln.words[3] \in Capabilities

\* What two lines must not have in common.
Key(ln) == SubSeq(ln.words, 1, IF ln.words[1] = "ignore_edge" /\ Len(ln.words) > 2 THEN 3 ELSE 2)

Says(lines, k) == {i \in DOMAIN lines : ~Blank(lines[i]) /\ lines[i].words[1] = k}

Duplicate(lines) ==
  \E i, j \in DOMAIN lines :
     /\ i < j /\ ~Blank(lines[i]) /\ ~Blank(lines[j])
     /\ lines[i].words[1] # "cgo_suffix" /\ Len(lines[i].words) > 1 /\ Len(lines[j].words) > 1
     /\ Key(lines[i]) = Key(lines[j])

Valid(lines) == (\A i \in DOMAIN lines : WellFormed(lines[i])) /\ ~Duplicate(lines)

\* The meaning of a valid map.
Entries(lines) ==
  LET table(k) == [n \in {lines[i].words[2] : i \in Says(lines, k)} |->
                     lines[CHOOSE i \in Says(lines, k) : lines[i].words[2] = n].words[3]]
  IN [func |-> table("func"), package |-> table("package"),
      unanalyzed |-> {lines[i].words[2] : i \in Says(lines, "unanalyzed")},
      edges |-> {<<lines[i].words[2], lines[i].words[3]>> : i \in Says(lines, "ignore_edge")},
      suffixes |-> {lines[i].words[2] : i \in Says(lines, "cgo_suffix")}]

NoEntries == Entries(<<>>)

-----------------------------------------------------------------------------
(* Classifiers.  One has the entries of a user map, perhaps with those of  *)
(* the built-in one, perhaps without unanalysed functions.                 *)

HasSuffix(s, t) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t

Category(c, builtin, pkg, name) ==
  LET b == IF c.builtin THEN builtin ELSE NoEntries
      u == c.user
  IN IF \E t \in u.suffixes \cup b.suffixes : HasSuffix(name, t) THEN "CAPABILITY_CGO"
     ELSE IF name \in DOMAIN u.func THEN u.func[name]
     ELSE IF name \in DOMAIN b.func THEN b.func[name]
     ELSE IF c.unanalyzed /\ name \in u.unanalyzed \cup b.unanalyzed THEN "CAPABILITY_UNANALYZED"
     ELSE IF pkg \in DOMAIN u.package THEN u.package[pkg]
     ELSE IF pkg \in DOMAIN b.package THEN b.package[pkg]
     ELSE "CAPABILITY_UNSPECIFIED"

Included(c, builtin, caller, callee) ==
  /\ <<caller, callee>> \notin c.user.edges
  /\ c.builtin => <<caller, callee>> \notin builtin.edges

DefaultClassifier == [user |-> NoEntries, builtin |-> TRUE, unanalyzed |-> TRUE]
Loaded(lines, excludeBuiltin) ==
  [user |-> Entries(lines), builtin |-> ~excludeBuiltin, unanalyzed |-> TRUE]
WithoutUnanalyzed(c) == [c EXCEPT !.unanalyzed = FALSE]

-----------------------------------------------------------------------------
(* A program whose packages and calls are mentioned in the built-in map,   *)
(* and what the command reports on it when given a map.                    *)

X == "golang.org/x/"
ProgramPkgs == {X \o "m", X \o "sys/unix", X \o "sys/cpu", X \o "crypto/argon2", X \o "text/currency"}

\* Functions that package sort itself passes to sort.Search.
SortClosures == {"sort.SearchInts$1", "sort.SearchFloat64s$1", "sort.SearchStrings$1"}

\* Functions with their packages and calls.
Program ==
  [f \in {} |-> f]
  @@ (X \o "m.Sys" :> [pkg |-> X \o "m", calls |-> {X \o "sys/unix.Do"}])
  @@ (X \o "m.Cpu" :> [pkg |-> X \o "m", calls |-> {X \o "sys/cpu.Do"}])
  @@ (X \o "m.Arg" :> [pkg |-> X \o "m", calls |-> {X \o "crypto/argon2.Wrap"}])
  @@ (X \o "m.Region" :> [pkg |-> X \o "m", calls |-> {X \o "text/currency.Region"}])
  @@ (X \o "m.Find" :> [pkg |-> X \o "m", calls |-> {"sort.Search"}])
  @@ (X \o "m.Ints" :> [pkg |-> X \o "m", calls |-> {"sort.SearchInts"}])
  @@ (X \o "m.Cgo" :> [pkg |-> X \o "m", calls |-> {X \o "m.call_Cfunc_CBytes"}])
  @@ (X \o "m.call_Cfunc_CBytes" :> [pkg |-> X \o "m", calls |-> {}])
  @@ (X \o "m.Ptr" :> [pkg |-> X \o "m", calls |-> {}])
  @@ (X \o "m.Leaf" :> [pkg |-> X \o "m", calls |-> {}])
  @@ (X \o "m.All" :> [pkg |-> X \o "m", calls |-> {X \o "m." \o f : f \in {"Sys", "Find", "Cgo", "Ptr", "Leaf"}}])
  @@ ("(*" \o X \o "m.T).M" :> [pkg |-> X \o "m", calls |-> {X \o "m.Leaf"}])
  @@ (X \o "sys/unix.Do" :> [pkg |-> X \o "sys/unix", calls |-> {}])
  @@ (X \o "sys/cpu.Do" :> [pkg |-> X \o "sys/cpu", calls |-> {X \o "sys/unix.Do"}])
  @@ (X \o "crypto/argon2.Wrap" :> [pkg |-> X \o "crypto/argon2", calls |-> {X \o "crypto/argon2.blamkaSSE4"}])
  @@ (X \o "crypto/argon2.blamkaSSE4" :> [pkg |-> X \o "crypto/argon2", calls |-> {X \o "sys/unix.Do"}])
  @@ (X \o "text/currency.Region" :> [pkg |-> X \o "text/currency", calls |-> {"sort.Search"}])
  @@ (X \o "text/currency.Other" :> [pkg |-> X \o "text/currency", calls |-> {"sort.Search"}])
  @@ ("sort.Search" :> [pkg |-> "sort", calls |-> SortClosures])
  @@ [f \in SortClosures |-> [pkg |-> "sort", calls |-> {}]]
  @@ ("sort.SearchInts" :> [pkg |-> "sort", calls |-> {"sort.Search"}])

\* The function whose body converts an unsafe pointer.
Converts == X \o "m.Ptr"

RECURSIVE Held(_, _, _)
Held(c, builtin, f) ==
  LET own == Category(c, builtin, Program[f].pkg, f)
  IN CASE own = "CAPABILITY_SAFE" -> {}
       [] own # "CAPABILITY_UNSPECIFIED" -> {own}
       [] OTHER -> (IF f = Converts /\ c.builtin THEN {"CAPABILITY_UNSAFE_POINTER"} ELSE {})
                   \cup UNION {Held(c, builtin, g) : g \in {h \in Program[f].calls : Included(c, builtin, f, h)}}

Report(c, builtin) ==
  UNION {{<<f, x>> : x \in Held(c, builtin, f)} :
           f \in {g \in DOMAIN Program : Program[g].pkg \in ProgramPkgs}}
=============================================================================
