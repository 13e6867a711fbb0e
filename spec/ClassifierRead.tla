--------------------------- MODULE ClassifierRead ---------------------------
(* Reading a map line by line, stopping at the first error, gives the      *)
(* meaning in Classifier; a reader that fails gives no classifier.         *)
EXTENDS Classifier

CONSTANTS MaxLines

SomeLines ==
  {[lead |-> "", sep |-> " ", trail |-> "", words |-> w] : w \in
     {<<>>, <<"func", "f", "CAPABILITY_FILES">>, <<"func", "f", "CAPABILITY_SAFE">>,
      <<"func", "g", "CAPABILITY_FILES">>, <<"func", "f">>, <<"func", "f", "x">>,
      <<"package", "f", "CAPABILITY_EXEC">>, <<"unanalyzed", "f">>, <<"unanalyzed">>,
      <<"ignore_edge", "f", "g">>, <<"ignore_edge", "g", "f">>, <<"cgo_suffix", "f">>, <<"x", "y", "z">>}}

VARIABLES lines, pos, fault, status, got, keys

vars == <<lines, pos, fault, status, got, keys>>

Init ==
  /\ lines \in UNION {[1..n -> SomeLines] : n \in 0..MaxLines}
  /\ fault \in 0..(MaxLines + 1)       \* reading this line fails; 0: never
  /\ pos = 0 /\ status = "reading" /\ got = NoEntries /\ keys = {}

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Read ==
  /\ status = "reading" /\ pos < Len(lines)
  /\ pos' = pos + 1
  /\ LET ln == lines[pos + 1] IN
     IF fault = pos + 1 \/ ~WellFormed(ln) \/ (~Blank(ln) /\ Key(ln) \in keys)
     THEN status' = "failed" /\ UNCHANGED <<got, keys>>
     ELSE /\ status' = status
          /\ keys' = IF Blank(ln) \/ ln.words[1] = "cgo_suffix" THEN keys ELSE keys \cup {Key(ln)}
          /\ got' = IF Blank(ln) THEN got
                    ELSE CASE ln.words[1] = "func" -> [got EXCEPT !.func = Put(@, ln.words[2], ln.words[3])]
                           [] ln.words[1] = "package" -> [got EXCEPT !.package = Put(@, ln.words[2], ln.words[3])]
                           [] ln.words[1] = "unanalyzed" -> [got EXCEPT !.unanalyzed = @ \cup {ln.words[2]}]
                           [] ln.words[1] = "ignore_edge" -> [got EXCEPT !.edges = @ \cup {<<ln.words[2], ln.words[3]>>}]
                           [] ln.words[1] = "cgo_suffix" -> [got EXCEPT !.suffixes = @ \cup {ln.words[2]}]
  /\ UNCHANGED <<lines, fault>>

End ==
  /\ status = "reading" /\ pos = Len(lines)
  /\ status' = IF fault = pos + 1 THEN "failed" ELSE "loaded"
  /\ UNCHANGED <<lines, pos, fault, got, keys>>

Next == Read \/ End
Spec == Init /\ [][Next]_vars

Exact ==
  /\ status = "failed" => ~Valid(lines) \/ fault \in 1..(Len(lines) + 1)
  /\ status = "loaded" => Valid(lines) /\ got = Entries(lines) /\ fault \notin 1..(Len(lines) + 1)
=============================================================================
