----------------------------- MODULE GitRunGen ------------------------------
(* Prints runs of the git comparison tool: repository, revision names,      *)
(* surroundings, options and a fault.                                       *)
EXTENDS GitRun, Randomization

VARIABLES stage, repo, run

gvars == <<stage, repo, run, vars>>

Pick(S) == RandomElement(S)
Chance(n, d) == Pick(1..d) <= n

BranchNames == {"main", "feature", "both", "sub", "topic/x", "id"}
TagNames == {"v1", "both", "v2-annotated", "release/1"}
RemoteNames == {"origin/main", "origin/feature", "upstream/main"}

GenInit == stage = "start" /\ repo = [n |-> 0] /\ run = [usage |-> ""] /\ RunInit

RefsIn(S, prefix, n) == [k \in 1..Len(S) |-> [ref |-> prefix \o S[k], at |-> Pick(1..n)]]

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

MakeRepo ==
  /\ stage = "start" /\ stage' = "run"
  /\ \E n \in {Pick(2..6)} :
     \E par \in {[c \in 1..n |-> IF c = 1 THEN 0 ELSE Pick(1..(c - 1))]},
        sec \in {[c \in 1..n |-> IF c > 2 /\ Chance(1, 3) THEN Pick(1..(c - 1)) ELSE 0]},
        late \in {Pick(1..n)},
        bs \in {RandomSubset(3, BranchNames \ {"main"})}, ts \in {RandomSubset(2, TagNames)},
        rs \in {RandomSubset(2, RemoteNames)}, fh \in {Pick(0..n)},
        hk \in {Pick({"branch", "branch", "detached"})}, ha \in {Pick(1..n)}, w \in {Pick(0..n)} :
     \E brefs \in {RefsIn(SeqOf(bs \cup {"main"}), "refs/heads/", n)},
        trefs \in {RefsIn(SeqOf(ts), "refs/tags/", n)},
        rrefs \in {RefsIn(SeqOf(rs), "refs/remotes/", n)},
        hb \in {Pick(bs \cup {"main"})} :
       repo' = [n |-> n, parent |-> par, second |-> [c \in 1..n |-> IF sec[c] = par[c] THEN 0 ELSE sec[c]],
                late |-> late,
                refs |-> brefs \o trefs \o rrefs
                           \o (IF fh = 0 THEN <<>> ELSE <<[ref |-> "FETCH_HEAD", at |-> fh]>>),
                head |-> [kind |-> hk, branch |-> hb, at |-> ha], mainwas |-> w]
  /\ UNCHANGED <<run, vars>>

Base(k, nm, at) == [kind |-> k, name |-> nm, at |-> at]

BaseOf(w) ==
  CASE w \in 1..3 -> Base("dot", "", 0)
       [] w \in 4..5 -> Base("head", Pick({"HEAD", "@"}), 0)
       [] w \in 6..9 -> Base("name", Pick(BranchNames), 0)
       [] w \in 10..12 -> Base("name", Pick(TagNames), 0)
       [] w \in 13..15 -> Base("name", Pick(RemoteNames), 0)
       [] w \in 16..17 -> Base("name", Pick({"heads/both", "tags/both", "refs/heads/main", "refs/heads/sub",
                                             "remotes/origin/main", "FETCH_HEAD"}), 0)
       [] w \in 18..19 -> Base("sha", "", Pick(1..repo.n))
       [] w \in 20..21 -> Base("short", "", Pick(1..repo.n))
       [] w = 22 -> Base("message", "", Pick(1..repo.n))
       [] w \in 23..24 -> Base("reflog", "", 0)
       [] w = 25 -> Base("unknown", Pick({"nosuch", "HEAD:id", "HEAD:", "", "main..feature", "origin", "..", "./",
                                          "0000000000000000000000000000000000000000"}), 0)
       [] OTHER -> Base("name", "main", 0)

RandomBase(z) == CHOOSE b \in {BaseOf(w) : w \in {Pick(1..26)}} : TRUE

StepsOf(k) == CASE k = 1 -> <<"~">> [] k = 2 -> <<"~", "~">> [] k = 3 -> <<"2">> [] k = 4 -> <<"~", "2">> [] OTHER -> <<>>
RandomSteps(b) ==
  IF b.kind \in {"dot", "unknown", "message"} THEN <<>>
  ELSE CHOOSE s \in {StepsOf(k) : k \in {Pick(1..10)}} : TRUE

RandomRev(z) == CHOOSE r \in {[base |-> b, steps |-> RandomSteps(b)] : b \in {RandomBase(z)}} : TRUE

\* A revision that means something, if one is found.
GoodOf(try) ==
  LET good == {k \in DOMAIN try : Meaning(repo, try[k]) # None}
  IN IF good = {} THEN try[1] ELSE try[CHOOSE k \in good : \A j \in good : k <= j]
GoodRev(z) == CHOOSE r \in {GoodOf(t) : t \in {<<RandomRev(1), RandomRev(2), RandomRev(3), RandomRev(4)>>}} : TRUE

Faults == {"git-before", "git-after", "capslock-1", "capslock-2", "capslock-kill", "capslock-garbage",
           "capslock-cut", "capslock-empty", "capslock-partial", "no-git", "no-capslock", "temp-missing", "temp-file",
           "temp-relative"}

MakeRun ==
  /\ stage = "run" /\ stage' = "done"
  /\ \E r1 \in {IF Chance(9, 10) THEN GoodRev(1) ELSE RandomRev(1)},
        r2 \in {IF Chance(9, 10) THEN GoodRev(2) ELSE RandomRev(2)},
        cwd \in {Pick({"", "", "sub", "sub/d e", " in/-x ", "late"})},
        layout \in {Pick({"plain", "plain", "plain", "worktree", "separate", "space", "packed"})},
        dirty \in {Pick({"no", "unstaged", "staged"})}, env \in {IF Chance(1, 4) THEN Pick({"dir", "reldir", "full"}) ELSE "none"},
        tmp \in {Pick({"tool", "system"})}, verbose \in {Chance(1, 4)},
        gran \in {Pick({"none", "none", "package", "function", "intermediate", ""})},
        caps \in {Pick({"none", "none", "", "FILES", "-EXEC,-FILES"})},
        pkg \in {Pick({"none", "none", ".", "./x/...", "ex.test/m/..."})},
        usage \in {IF Chance(1, 25) THEN Pick({"one", "four", "flag"}) ELSE "ok"},
        fault \in {IF Chance(2, 5) THEN [kind |-> Pick(IF Chance(1, 3) THEN {"git-before", "git-after"} ELSE Faults), at |-> Pick(1..10)] ELSE [kind |-> "none", at |-> 0]} :
       run' = [repo |-> repo, revs |-> <<r1, r2>>,
               cwd |-> IF cwd = "late" /\ HeadAt(repo) < repo.late THEN "" ELSE cwd,
               layout |-> IF env # "none" THEN "plain" ELSE layout, dirty |-> dirty,
               env |-> IF cwd # "" /\ env # "none" THEN "full" ELSE env,
               tmp |-> tmp, verbose |-> verbose, gran |-> gran, caps |-> caps, pkg |-> pkg, usage |-> usage,
               fault |-> IF fault.kind \in {"git-before", "git-after"} THEN fault
                         ELSE [fault EXCEPT !.at = (@ % 2) + 1]]
  /\ UNCHANGED <<repo, vars>>

Next == MakeRepo \/ MakeRun
Spec == GenInit /\ [][Next]_gvars

Emit == stage = "done" => PrintT(<<"SCENARIO", ToJson(run)>>)
=============================================================================
