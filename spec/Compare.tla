------------------------------ MODULE Compare -------------------------------
(***************************************************************************)
(* Comparing a report with a baseline.  The program of the baseline is the *)
(* same one with other categories and excluded calls (p.cmp), and things   *)
(* that are not in the program.                                            *)
(***************************************************************************)
EXTENDS Analysis

FItem(f) == "f" \o ToString(f)
PItem(k) == "p" \o ToString(k)
XItem(i) == "x" \o ToString(i)

\* A comparison is by package unless something else is asked for.
Grain(g) == IF g = "" THEN "package" ELSE g

\* The (capability, item) pairs of the report on p.
Items(p, g) ==
  LET o == Oracle(p)
  IN  CASE Grain(g) = "function" -> {<<k[1], FItem(k[2])>> : k \in Pairs(o)}
        [] Grain(g) = "package" -> {<<k[1], PItem(k[2])>> : k \in PackagePairs(p, o)}
        [] Grain(g) = "intermediate" -> {<<k[1], PItem(k[2])>> : k \in IntermediatePairs(p, o, Selected(p))}

BaseProgram(p) == [p EXCEPT !.cls = p.cmp.cls, !.ign = p.cmp.ign]
BaseItems(p) ==
  Items(BaseProgram(p), p.cmp.gran) \cup {<<p.cmp.extra[i], XItem(i)>> : i \in DOMAIN p.cmp.extra}

Gained(base, cur) == cur \ base
Lost(base, cur) == base \ cur
Outcome(base, cur) == IF base = cur THEN "same" ELSE "different"

\* What is observed when p is compared: each pair is printed once.
ComparisonOK(p, e) ==
  IF p.cmp.damage # "none"
  THEN e.outcome = "error" /\ e.gained = <<>> /\ e.lost = <<>>
  ELSE LET base == BaseItems(p)
           cur == Items(p, p.cmp.gran)
           set(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
       IN /\ set(e.gained) = Gained(base, cur) /\ Len(e.gained) = Cardinality(Gained(base, cur))
          /\ set(e.lost) = Lost(base, cur) /\ Len(e.lost) = Cardinality(Lost(base, cur))
          /\ e.outcome = Outcome(base, cur)
          /\ e.outcome = "same" => ~e.output
=============================================================================
