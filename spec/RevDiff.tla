------------------------------ MODULE RevDiff -------------------------------
(***************************************************************************)
(* What the git comparison tool says about two capability reports.         *)
(*                                                                         *)
(* A report is a sequence of entries [cap, pkg, path], where path is a     *)
(* sequence of functions [name, pkg, site] and site is "" or file:line:col.*)
(* The items of a report are packages or functions, depending on the       *)
(* granularity.                                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Range(s) == {s[k] : k \in DOMAIN s}

ByFunction(gran) == gran \in {"function", ""}

Item(en, gran) == IF ByFunction(gran) THEN en.path[1].name ELSE en.pkg

Pairs(report, gran) == {[item |-> Item(en, gran), cap |-> en.cap] : en \in Range(report)}

Gained(base, cur, gran) == Pairs(cur, gran) \ Pairs(base, gran)

\* The items that lie on a path.
OnPath(path, gran) == {IF ByFunction(gran) THEN path[k].name ELSE path[k].pkg : k \in DOMAIN path}

\* Reports as capslock makes them: one entry for each pair, with a path that
\* starts at the item, or passes through it at intermediate granularity.
WellFormed(report, gran) ==
  \A j \in DOMAIN report :
    /\ Item(report[j], gran) \in OnPath(report[j].path, gran)
    /\ gran = "package" => report[j].path[1].pkg = report[j].pkg
    /\ \A k \in DOMAIN report :
         k # j => <<report[k].cap, Item(report[k], gran)>> # <<report[j].cap, Item(report[j], gran)>>

\* Capabilities of the second report that the first does not have at all, and
\* those that it has for other items.
NewCaps(base, cur, gran) ==
  {p.cap : p \in Gained(base, cur, gran)} \ {p.cap : p \in Pairs(base, gran)}
OldCaps(base, cur, gran) ==
  {p.cap : p \in Gained(base, cur, gran)} \cap {p.cap : p \in Pairs(base, gran)}
NewUses(base, cur, gran) ==
  Cardinality({p \in Gained(base, cur, gran) : p.cap \in OldCaps(base, cur, gran)})

(***************************************************************************)
(* The output: groups of items that share a capability and an example, and *)
(* a summary, with the numbers that it gives.                              *)
(***************************************************************************)
PrintedPath(path) == [k \in DOMAIN path |-> [name |-> path[k].name, site |-> path[k].site]]

GroupOK(g, cur, gran) ==
  \E en \in Range(cur) :
    /\ en.cap = g.cap
    /\ PrintedPath(en.path) = g.path
    /\ Range(g.items) \subseteq OnPath(en.path, gran)

GroupPairs(g) == {[item |-> i, cap |-> g.cap] : i \in Range(g.items)}

RECURSIVE Total(_)
Total(groups) == IF groups = <<>> THEN 0 ELSE Len(Head(groups).items) + Total(Tail(groups))

OutputOK(o, base, cur, gran) ==
  LET gained == Gained(base, cur, gran)
  IN /\ UNION {GroupPairs(g) : g \in Range(o.groups)} = gained
     /\ Total(o.groups) = Cardinality(gained)
     /\ \A g \in Range(o.groups) : GroupOK(g, cur, gran)
     /\ Range(o.newcaps) = NewCaps(base, cur, gran)
     /\ Len(o.newcaps) = Cardinality(NewCaps(base, cur, gran))
     /\ Range(o.oldcaps) = OldCaps(base, cur, gran)
     /\ Len(o.oldcaps) = Cardinality(OldCaps(base, cur, gran))
     /\ o.nnew = Cardinality(NewCaps(base, cur, gran))
     /\ o.nuses = NewUses(base, cur, gran)
     /\ o.status = IF gained = {} THEN 0 ELSE 1
=============================================================================
