---------------------------- MODULE GitRunModel -----------------------------
(* All runs of the tool on all revision names of some small repositories,   *)
(* with failures of any step.                                               *)
EXTENDS GitRun

CONSTANT Big

VARIABLE sc

Repos ==
  {[n |-> 3, parent |-> <<0, 1, p3>>, second |-> <<0, 0, s3>>, late |-> 2,
    refs |-> <<[ref |-> "refs/heads/main", at |-> m], [ref |-> "refs/heads/b", at |-> 1],
               [ref |-> "refs/tags/b", at |-> 2], [ref |-> "refs/remotes/origin/main", at |-> o]>>,
    head |-> h, mainwas |-> w] :
      p3 \in IF Big THEN {1, 2} ELSE {2}, s3 \in {0, 2}, m \in {2, 3}, o \in {1, 3}, w \in IF Big THEN {0, 1} ELSE {1},
      h \in {[kind |-> "branch", branch |-> "main", at |-> 0], [kind |-> "detached", branch |-> "", at |-> 1]}}

Base(k, nm, at) == [kind |-> k, name |-> nm, at |-> at]
Bases == {Base("dot", "", 0), Base("head", "", 0), Base("name", "main", 0), Base("name", "b", 0),
          Base("name", "origin/main", 0), Base("sha", "", 3), Base("reflog", "", 0), Base("unknown", "", 0),
          Base("message", "", 3)}
Revs == {[base |-> b, steps |-> s] : b \in Bases, s \in IF Big THEN {<<>>, <<"~">>, <<"2">>} ELSE {<<>>, <<"~">>}}

Init ==
  /\ \E r \in Repos, a \in Revs, b \in Revs, d \in {"", "late"}, u \in {"ok", "bad"}, dt \in {"no", "staged"},
        f \in IF Big THEN {"none", "no-git", "no-capslock", "temp-file"} ELSE {"none", "no-git"} :
       /\ a.base.kind = "dot" => a.steps = <<>>
       /\ b.base.kind = "dot" => b.steps = <<>>
       /\ sc = [repo |-> r, revs |-> <<a, b>>, cwd |-> d, usage |-> u, dirty |-> dt,
                fault |-> [kind |-> f, at |-> 1],
                pkg |-> "none", gran |-> "none", caps |-> "none"]
  /\ RunInit

Opts == [output |-> "json", packages |-> "./...", granularity |-> "intermediate",
         capabilities |-> "-UNANALYZED", other |-> <<>>]

Next ==
  /\ UNCHANGED sc
  /\ \/ \E ok \in BOOLEAN : Analyse(sc, Wanted(sc, Len(asked) + 1), Opts, ok)
     \/ \E ok \in BOOLEAN : Git(ok)
     \/ MakeTemp
     \/ DropTemp
     \/ \E st \in 0..2, pr \in BOOLEAN : End(sc, st, pr)

Spec == Init /\ [][Next]_<<vars, sc>>

IsFaithful == Faithful(sc)
IsClean == Clean
\* A run can end when all that is possible has been done.
CanEnd ==
  Running /\ temps = 0 =>
    \/ \E st \in 0..2, pr \in BOOLEAN : ENABLED End(sc, st, pr)
    \/ ENABLED Analyse(sc, Wanted(sc, Len(asked) + 1), Opts, TRUE)
=============================================================================
