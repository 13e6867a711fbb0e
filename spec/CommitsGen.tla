----------------------------- MODULE CommitsGen -----------------------------
(* Prints runs of the git comparison tool on short and long histories.      *)
EXTENDS GitRunGen

\* Histories whose length is around those at which lists are abridged.
Long ==
  /\ stage = "start" /\ stage' = "run"
  /\ \E n \in {IF Chance(2, 3) THEN Pick(98..124) ELSE Pick(125..230)}, merges \in {Pick({0, 0, 4, 20})},
        late \in {Pick(1..6)}, hk \in {Pick({"branch", "detached"})}, m \in {Pick(1..3)} :
     \E par \in {TLCEval([c \in 1..n |-> IF c = 1 THEN 0 ELSE IF c > 4 /\ merges > 0 /\ Chance(1, merges) THEN c - Pick(2..4) ELSE c - 1])},
        sec \in {TLCEval([c \in 1..n |-> IF c > 4 /\ merges > 0 /\ Chance(1, merges) THEN c - Pick(1..4) ELSE 0])} :
       repo' = [n |-> n, parent |-> par, second |-> [c \in 1..n |-> IF sec[c] = par[c] THEN 0 ELSE sec[c]],
                late |-> late,
                refs |-> <<[ref |-> "refs/heads/main", at |-> n], [ref |-> "refs/heads/sub", at |-> n - m],
                           [ref |-> "refs/tags/v1", at |-> m], [ref |-> "refs/tags/id", at |-> n],
                           [ref |-> "refs/heads/old", at |-> Pick(1..n)]>>,
                head |-> [kind |-> hk, branch |-> "main", at |-> n], mainwas |-> n - 1]
  /\ UNCHANGED <<run, vars>>

LongRev(k) ==
  CASE k = 1 -> [base |-> Base("name", "main", 0), steps |-> <<>>]
    [] k = 2 -> [base |-> Base("name", "sub", 0), steps |-> <<>>]
    [] k = 3 -> [base |-> Base("name", "id", 0), steps |-> <<>>]
    [] k = 4 -> [base |-> Base("head", "HEAD", 0), steps |-> <<"~">>]
    [] k = 5 -> [base |-> Base("name", "v1", 0), steps |-> <<>>]
    [] k = 6 -> [base |-> Base("sha", "", Pick(1..8)), steps |-> <<>>]
    [] k = 7 -> [base |-> Base("short", "", Pick(1..repo.n)), steps |-> <<>>]
    [] OTHER -> [base |-> Base("name", "old", 0), steps |-> <<>>]
OneRev(S) == CHOOSE r \in {LongRev(k) : k \in {Pick(S)}} : TRUE

\* Surroundings in which nothing fails.
MakeQuiet ==
  /\ stage = "run" /\ stage' = "done"
  /\ \E long \in {repo.n > 10} :
     \E r1 \in {IF long THEN OneRev({5, 6, 6, 7, 8}) ELSE GoodRev(1)},
        r2 \in {IF long THEN OneRev(1..4) ELSE GoodRev(2)}, turn \in {Chance(1, 10)},
        cwd \in {Pick({"", "", "sub", "sub/d e"})},
        layout \in {Pick({"plain", "plain", "worktree", "packed"})},
        dirty \in {Pick({"no", "unstaged", "staged"})}, env \in {IF Chance(1, 6) THEN "full" ELSE "none"},
        still \in {Pick({0, 2, 5})},
        msgs \in {Pick({"plain", "plain", "format", "lines", "blank", "gap"})},
        verbose \in {Chance(1, 6)}, gran \in {Pick({"none", "package", "function"})},
        pkg \in {Pick({"none", "none", ".", "./x/...", "ex.test/m \"q\"/..."})} :
       run' = [repo |-> repo, revs |-> IF turn THEN <<r2, r1>> ELSE <<r1, r2>>, cwd |-> cwd,
               layout |-> IF env # "none" THEN "plain" ELSE layout, dirty |-> dirty, env |-> env, msgs |-> msgs,
               still |-> TLCEval([c \in 1..repo.n |-> still > 0 /\ Chance(1, still)]),
               tmp |-> "tool", verbose |-> verbose, gran |-> gran, caps |-> "none", pkg |-> pkg, usage |-> "ok",
               fault |-> [kind |-> "none", at |-> 0]]
  /\ UNCHANGED <<repo, vars>>

NextQuiet == MakeRepo \/ Long \/ MakeQuiet
CommitsSpec == GenInit /\ [][NextQuiet]_gvars
=============================================================================
