------------------------------ MODULE Commits -------------------------------
(***************************************************************************)
(* What the git comparison tool says about the revisions that it compares: *)
(* their names, the packages, and the commits between them.                *)
(*                                                                         *)
(* The commits between revisions a and b are those that b has in its       *)
(* history and a has not.  They are listed from the newest to the oldest;  *)
(* commits are numbered by age.  A long list can leave out commits in its  *)
(* middle, and then says how many.  A listing is a sequence of commits, in *)
(* which a negative number stands for so many commits left out.            *)
(***************************************************************************)
EXTENDS GitRun, SequencesExt

History(repo, c) == IF c = None THEN {} ELSE Closure(repo, {c})

Between(repo, a, b) == History(repo, b) \ History(repo, a)

\* From the newest to the oldest.
Descending(S) == SetToSortSeq(S, LAMBDA x, y : x > y)

\* At most this many commits are always listed in full.
Short == 100

\* The listing L shows the sequence of commits s.
Shows(L, s) ==
  LET gaps == {k \in DOMAIN L : L[k] < 0}
  IN IF gaps = {} THEN L = s
     ELSE /\ Len(s) > Short /\ Cardinality(gaps) = 1
          /\ LET g == CHOOSE k \in gaps : TRUE
                 left == 0 - L[g]
             IN /\ Len(L) - 1 + left = Len(s)
                /\ \A k \in 1..(g - 1) : L[k] = s[k]
                /\ \A k \in (g + 1)..Len(L) : L[k] = s[(k - 1) + left]
                \* both ends are there
                /\ g > 1 /\ g < Len(L)

Two(sc) == sc.revs[1].base.kind # "dot" /\ sc.revs[2].base.kind # "dot"

\* The listing of a run that compared its revisions.
ListingOK(sc, L) ==
  IF Two(sc)
  THEN Shows(L, Descending(Between(sc.repo, Meaning(sc.repo, sc.revs[1]), Meaning(sc.repo, sc.revs[2]))))
  ELSE L = <<>>
=============================================================================
