---------------------------- MODULE CommitsWalk -----------------------------
(***************************************************************************)
(* Finding the commits between two revisions by walking from both towards  *)
(* older commits, on all histories of N commits: the newest commit that    *)
(* waits is taken, and its parents wait after it; parents of unwanted      *)
(* commits are unwanted.  What is collected is what Between says, in the   *)
(* order that Descending says; and every way of leaving out the middle     *)
(* shows that and nothing else.                                            *)
(***************************************************************************)
EXTENDS Commits

CONSTANT N

VARIABLES repo, a, b, waiting, unwanted, found

wvars == <<repo, a, b, waiting, unwanted, found, vars>>

Init ==
  /\ RunInit
  /\ \E par \in [1..N -> 0..(N - 1)], sec \in [1..N -> 0..(N - 1)] :
       /\ \A c \in 1..N : par[c] < c /\ sec[c] < c /\ (sec[c] # 0 => sec[c] < par[c])
       /\ repo = [parent |-> par, second |-> sec]
  /\ a \in 1..N /\ b \in 1..N
  /\ waiting = {a, b} /\ unwanted = {a} /\ found = <<>>

Take ==
  /\ waiting \ unwanted # {}
  /\ LET c == CHOOSE x \in waiting : \A d \in waiting : d <= x
         ps == {repo.parent[c], repo.second[c]} \ {0}
     IN /\ waiting' = (waiting \ {c}) \cup ps
        /\ unwanted' = IF c \in unwanted THEN unwanted \cup ps ELSE unwanted
        /\ found' = IF c \in unwanted THEN found ELSE Append(found, c)
  /\ UNCHANGED <<repo, a, b, vars>>

Spec == Init /\ [][Take]_wvars

Done == waiting \ unwanted = {}
Finds == Done => found = Descending(Between(repo, a, b))
Never == Range(found) \subseteq Between(repo, a, b)

\* A listing determines how many commits there are, and hides none of its
\* ends: checked on a sequence that is long enough to be abridged.
Many == Descending(1..(Short + 3))
Abridged(i, j) == SubSeq(Many, 1, i) \o <<0 - (Len(Many) - i - j)>> \o SubSeq(Many, Len(Many) - j + 1, Len(Many))
ASSUME \A i \in 1..50, j \in 1..50 : Shows(Abridged(i, j), Many)
ASSUME \A i \in 1..20 : /\ ~Shows(SubSeq(Many, 1, i), Many)
                        /\ ~Shows(Abridged(0, i), Many) /\ ~Shows(Abridged(i, 0), Many)
                        /\ ~Shows([Abridged(i, i) EXCEPT ![i + 1] = @ + 1], Many)
                        /\ ~Shows(Abridged(i, i), Tail(Many))
=============================================================================
