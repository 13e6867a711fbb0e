------------------------------- MODULE GitRun -------------------------------
(***************************************************************************)
(* How the git comparison tool obtains its two reports.                    *)
(*                                                                         *)
(* A repository has commits 1..n, each with its first parent (0 if none)   *)
(* and second parent, references, a position of HEAD, and a working tree.  *)
(* A revision name is a base, possibly followed by steps to ancestors.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Range(s) == {s[k] : k \in DOMAIN s}

WorkTree == 99                        \* stands for the working tree as it is
None == 0                             \* a name that means no commit

\* refs is a sequence of [ref, at]; a reference that is not there is None.
RefAt(repo, ref) ==
  LET S == {r \in Range(repo.refs) : r.ref = ref}
  IN IF S = {} THEN None ELSE (CHOOSE r \in S : TRUE).at

\* A short name means, in this order: a special reference, a tag, a branch,
\* a remote branch.
RECURSIVE FirstOf(_)
FirstOf(s) == IF s = <<>> THEN None ELSE IF Head(s) # None THEN Head(s) ELSE FirstOf(Tail(s))

NameAt(repo, name) ==
  FirstOf(<<RefAt(repo, name), RefAt(repo, "refs/" \o name), RefAt(repo, "refs/tags/" \o name),
            RefAt(repo, "refs/heads/" \o name), RefAt(repo, "refs/remotes/" \o name),
            RefAt(repo, "refs/remotes/" \o name \o "/HEAD")>>)

HeadAt(repo) == IF repo.head.kind = "branch" THEN RefAt(repo, "refs/heads/" \o repo.head.branch) ELSE repo.head.at

\* The commits that references below refs/, and HEAD, lead to.
IsRef(name) == Len(name) > 5 /\ SubSeq(name, 1, 5) = "refs/"
RECURSIVE Closure(_, _)
Closure(repo, S) ==
  LET T == (S \cup {repo.parent[c] : c \in S} \cup {repo.second[c] : c \in S}) \ {0}
  IN IF T = S THEN S ELSE Closure(repo, T)
Reachable(repo) == Closure(repo, ({r.at : r \in {x \in Range(repo.refs) : IsRef(x.ref)}} \cup {HeadAt(repo)}) \ {0})

BaseAt(repo, b) ==
  CASE b.kind = "head" -> HeadAt(repo)
    [] b.kind = "name" -> NameAt(repo, b.name)
    [] b.kind \in {"sha", "short"} -> b.at
    [] b.kind = "message" -> IF b.at \in Reachable(repo) THEN b.at ELSE None
    [] b.kind = "reflog" -> IF repo.mainwas = None THEN None ELSE repo.mainwas
    [] OTHER -> None                  \* no commit: trees, files, unknown names

\* Steps: "~" is the first parent, "2" the second one.
RECURSIVE Walk(_, _, _)
Walk(repo, c, steps) ==
  IF c = None \/ steps = <<>> THEN c
  ELSE Walk(repo, IF Head(steps) = "2" THEN repo.second[c] ELSE repo.parent[c], Tail(steps))

Meaning(repo, rev) ==
  IF rev.base.kind = "dot" THEN WorkTree ELSE Walk(repo, BaseAt(repo, rev.base), rev.steps)

\* The directories that a commit has; "late" is added by a later commit.
HasDir(repo, c, dir) ==
  \/ dir \in {"", "sub", "sub/d e", " in/-x "}
  \/ dir = "late" /\ (c = WorkTree \/ c >= repo.late)

(***************************************************************************)
(* The reports: the one for commit c has packages 1..c with a capability,  *)
(* so a comparison shows what was compared.                                *)
(***************************************************************************)
Gains(c1, c2) == c2 > c1

(***************************************************************************)
(* One run.  A scenario sc says what was asked for; the run makes one      *)
(* analysis for each revision, in order, and then reports and ends.  Any   *)
(* step can fail.  asked is what has been analysed so far.                 *)
(***************************************************************************)
\* The working tree has the files of HEAD if it was not changed.
Content(sc, c) == IF c = WorkTree /\ sc.dirty = "no" THEN HeadAt(sc.repo) ELSE c

Wanted(sc, k) == [commit |-> Content(sc, Meaning(sc.repo, sc.revs[k])), dir |-> sc.cwd]

\* Revision k cannot be obtained in these surroundings.
Broken(sc, k) ==
  \/ sc.fault.kind = "no-capslock"
  \/ sc.fault.kind \in {"no-git", "temp-missing", "temp-file"} /\ sc.revs[k].base.kind # "dot"

\* Analysing revision k is possible at all.
Possible(sc, k) ==
  LET c == Meaning(sc.repo, sc.revs[k])
  IN c # None /\ HasDir(sc.repo, c, sc.cwd) /\ ~Broken(sc, k)

Possibles(sc) == sc.usage = "ok" /\ Possible(sc, 1) /\ Possible(sc, 2)

OptionsOK(sc, o) ==
  /\ o.output = "json"
  /\ o.packages = IF sc.pkg = "none" THEN "./..." ELSE sc.pkg
  /\ o.granularity = IF sc.gran = "none" THEN "intermediate" ELSE sc.gran
  /\ o.capabilities = IF sc.caps = "none" THEN "-UNANALYZED" ELSE sc.caps
  /\ o.other = <<>>

VARIABLES asked, failed, status, temps

vars == <<asked, failed, status, temps>>

RunInit == asked = <<>> /\ failed = FALSE /\ status = -1 /\ temps = 0

Running == status = -1

\* An analysis of the next revision is run.
Analyse(sc, seen, opts, ok) ==
  /\ Running /\ ~failed /\ Len(asked) < 2 /\ sc.usage = "ok"
  /\ Possible(sc, Len(asked) + 1)
  /\ seen = Wanted(sc, Len(asked) + 1)
  /\ OptionsOK(sc, opts)
  /\ asked' = Append(asked, seen)
  /\ failed' = ~ok
  /\ UNCHANGED <<status, temps>>

\* A command of git that is needed to obtain a revision.
Git(ok) ==
  /\ Running
  /\ failed' = (failed \/ ~ok)
  /\ UNCHANGED <<asked, status, temps>>

\* A temporary directory is made and removed.
MakeTemp == Running /\ ~failed /\ temps = 0 /\ temps' = 1 /\ UNCHANGED <<asked, failed, status>>
DropTemp == Running /\ temps = 1 /\ temps' = 0 /\ UNCHANGED <<asked, failed, status>>

\* The end: an exit status, and whether a comparison was printed.  What is
\* possible is done unless something fails.
End(sc, st, printed) ==
  /\ Running /\ temps = 0
  /\ status' = st
  /\ failed \/ ~Possibles(sc) \/ Len(asked) = 2
  /\ IF failed \/ ~Possibles(sc)
     THEN st = 2 /\ ~printed
     ELSE /\ st = IF Gains(asked[1].commit, asked[2].commit) THEN 1 ELSE 0
          /\ printed
  /\ UNCHANGED <<asked, failed, temps>>

(***************************************************************************)
(* What is wanted of every run.                                            *)
(***************************************************************************)
Faithful(sc) ==
  status \in {0, 1} =>
    /\ ~failed
    /\ asked = <<Wanted(sc, 1), Wanted(sc, 2)>>
    /\ (status = 1) = Gains(Wanted(sc, 1).commit, Wanted(sc, 2).commit)
Clean == ~Running => temps = 0
=============================================================================
