------------------------------ MODULE Analysis ------------------------------
(***************************************************************************)
(* What a capability report of a program must contain.                     *)
(*                                                                         *)
(* A program p is a record:                                                *)
(*   n        number of functions; they are numbered 1..n                  *)
(*   kind     kind of each function (see ProgGen)                          *)
(*   pkg      package number of each function                              *)
(*   home     package in which each function comes into being: for a       *)
(*            wrapper of a promoted method that of the embedding type,     *)
(*            otherwise the same as pkg                                    *)
(*   par      enclosing function of a closure, method of a wrapper, or 0   *)
(*   cls      category assigned to each function: UNSPECIFIED, SAFE or a   *)
(*            capability                                                   *)
(*   ext      capabilities visible in the body of each function            *)
(*   calls    sequence of [f, g, via]: function f calls function g         *)
(*   ign      sequence of <<f, g>>: calls excluded from the analysis       *)
(*   query    the analysed packages                                        *)
(*   pkgkind  kind of each package: "dot", or "std" (standard library)     *)
(*   builtin  whether bodies of functions are inspected                    *)
(*   sel, neg the selected capabilities, for modes with a selection        *)
(* Sets are represented by sequences, so that programs can be exchanged    *)
(* with the implementation as JSON.                                        *)
(* Function n+k is the initialisation of package k.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}

Packages(p) == DOMAIN p.pkgkind
Nodes(p) == 1..(p.n + Len(p.pkgkind))
KindOf(p, f) == IF f > p.n THEN "pinit" ELSE p.kind[f]
PkgOf(p, f) == IF f > p.n THEN f - p.n ELSE p.pkg[f]
Cls(p, f) == IF f > p.n THEN "UNSPECIFIED" ELSE p.cls[f]
BodyCaps(p, f) ==
  IF f > p.n THEN {}
  ELSE Range(p.ext[f]) \cup
       (IF p.kind[f] = "asm" THEN {"ARBITRARY_EXECUTION"} ELSE {})

IsWrapper(p, f) == KindOf(p, f) \in {"thunk", "bound", "prom"}
HomeOf(p, f) == IF f > p.n THEN f - p.n ELSE p.home[f]

\* The functions that are listed in reports as belonging to a package.
Home(p, f) == ~IsWrapper(p, f)
Queried(p) == {f \in Nodes(p) : Home(p, f) /\ PkgOf(p, f) \in Range(p.query)}

\* A call through a hook is a call of a variable of the calling package, which
\* the package of the called function sets.
Imports(p, k) ==
  (UNION {IF c.via = "hook"
          THEN IF PkgOf(p, c.g) = k THEN {PkgOf(p, c.f)} ELSE {}
          ELSE IF ~IsWrapper(p, c.f) /\ PkgOf(p, c.f) = k THEN {HomeOf(p, c.g)} ELSE {} :
            c \in Range(p.calls)}
   \cup {p.pkg[f] : f \in {f \in 1..p.n : p.kind[f] = "prom" /\ p.home[f] = k}}) \ {k}

\* A package's initialisation runs that of the packages it imports, and the
\* package's own init functions.
InitCalls(p) ==
  {<<p.n + PkgOf(p, i), i>> : i \in {i \in 1..p.n : p.kind[i] = "init"}}
  \cup UNION {{<<p.n + k, p.n + j>> : j \in Imports(p, k)} : k \in Packages(p)}

\* The program that is analysed consists of the analysed packages and those
\* that they import, directly or indirectly.
RECURSIVE Importing(_, _)
Importing(p, K) ==
  LET more == UNION {Imports(p, k) : k \in K} \ K
  IN  IF more = {} THEN K ELSE Importing(p, K \cup more)
Loaded(p) == Importing(p, Range(p.query))

Calls(p) ==
  LET loaded == Loaded(p)
  IN  {e \in {<<c.f, c.g>> : c \in Range(p.calls)} \cup InitCalls(p) :
         HomeOf(p, e[1]) \in loaded /\ HomeOf(p, e[2]) \in loaded}

-----------------------------------------------------------------------------
(* Categories and the search for capabilities. *)

Safe(p, f) == Cls(p, f) = "SAFE"
Explicit(p, f) == Cls(p, f) \notin {"SAFE", "UNSPECIFIED"}

\* Function f itself holds capability c.
Holds(p, f, c) ==
  IF Explicit(p, f) THEN Cls(p, f) = c
  ELSE ~Safe(p, f) /\ p.builtin /\ c \in BodyCaps(p, f)

CapsOf(p) == UNION {IF Explicit(p, f) THEN {Cls(p, f)} ELSE BodyCaps(p, f) : f \in Nodes(p)}

\* The calls that a path to a capability may use: a path stops at a function
\* with a category, and never continues through a safe function.
Allowed(p) ==
  {e \in Calls(p) : /\ ~Safe(p, e[1])
                    /\ ~Explicit(p, e[1])
                    /\ \A i \in DOMAIN p.ign : p.ign[i] # e}

\* The length of the shortest allowed path from each function to one that
\* holds c, for the functions that have such a path.
RECURSIVE Spread(_, _, _, _)
Spread(E, d, frontier, k) ==
  IF frontier = {} THEN d
  ELSE LET next == {e[1] : e \in {x \in E : x[2] \in frontier}} \ DOMAIN d
       IN  Spread(E, d @@ [f \in next |-> k], next, k + 1)

Dist(p, c) ==
  LET start == {f \in Nodes(p) : Holds(p, f, c)}
  IN  Spread(Allowed(p), [f \in start |-> 0], start, 1)

\* All there is to know about p.
Oracle(p) == [dist |-> [c \in CapsOf(p) |-> Dist(p, c)],
              allowed |-> Allowed(p),
              queried |-> Queried(p)]

\* The (capability, function) pairs that a report on p consists of.
Pairs(o) == UNION {{<<c, f>> : f \in DOMAIN o.dist[c] \cap o.queried} : c \in DOMAIN o.dist}

-----------------------------------------------------------------------------
(* Properties of one entry of a report. *)

\* path is an allowed call path for capability c.
IsPath(p, o, c, path) ==
  /\ path # <<>>
  /\ \A i \in DOMAIN path : path[i] \in Nodes(p)
  /\ \A i \in 1..(Len(path) - 1) : <<path[i], path[i + 1]>> \in o.allowed
  /\ Holds(p, path[Len(path)], c)

IsShortest(o, c, path) ==
  c \in DOMAIN o.dist /\ path[1] \in DOMAIN o.dist[c] /\ Len(path) - 1 = o.dist[c][path[1]]

Direct(p, path) ==
  \A i \in DOMAIN path :
    \/ PkgOf(p, path[i]) = PkgOf(p, path[1])
    \/ p.pkgkind[PkgOf(p, path[i])] = "std"

Label(p, path) == IF Direct(p, path) THEN "DIRECT" ELSE "TRANSITIVE"

-----------------------------------------------------------------------------
(* Searching forwards from the analysed functions: the calls and functions *)
(* that lie on some allowed path from an analysed function to capability c *)

RECURSIVE Closure(_, _, _)
Closure(E, S, frontier) ==
  IF frontier = {} THEN S
  ELSE LET next == {e[2] : e \in {x \in E : x[1] \in frontier}} \ S
       IN  Closure(E, S \cup next, next)

\* Functions and calls on paths from analysed functions to capabilities in C.
OnPath(p, o, C) ==
  LET reach == UNION {DOMAIN o.dist[c] : c \in C \cap DOMAIN o.dist}
      E     == {e \in o.allowed : e[2] \in reach}
      start == o.queried \cap reach
      nodes == Closure(E, start, start)
  IN  [nodes |-> nodes, edges |-> {e \in E : e[1] \in nodes}]

Selected(p) ==
  IF p.sel = <<>> THEN CapsOf(p)
  ELSE IF p.neg THEN CapsOf(p) \ Range(p.sel)
  ELSE CapsOf(p) \cap Range(p.sel)

CapEdges(p, nodes, C) ==
  UNION {{<<f, c>> : c \in {c \in C : Holds(p, f, c)}} : f \in nodes}

\* Package-level pairs.
PackagePairs(p, o) == {<<e[1], PkgOf(p, e[2])>> : e \in Pairs(o)}
IntermediatePairs(p, o, C) ==
  UNION {{<<c, PkgOf(p, f)>> : f \in OnPath(p, o, {c}).nodes} : c \in C}
=============================================================================
