-------------------------------- MODULE Load --------------------------------
(***************************************************************************)
(* What is loaded: which files belong to a package under a build           *)
(* configuration, which packages a pattern matches, which modules provide  *)
(* them, and whether there are errors.                                     *)
(*                                                                         *)
(* A world w has modules w.mods, the first of them the main one.  A module *)
(* is [path, ver, reqs, pkgs], with ver = 0 for modules that have no       *)
(* version; version k is called v1.k.0.  A package is [dir, name, files].  *)
(* A file is [elems, ext, under, cons, kind, imports]: its name is made of *)
(* elems, joined by "_", after another "_" if under is set.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Range(s) == {s[k] : k \in DOMAIN s}

Systems == {"linux", "windows", "darwin", "freebsd", "js", "plan9"}
Unixes == {"linux", "darwin", "freebsd"}
Archs == {"amd64", "arm64", "386", "wasm"}
\* Pairs of system and architecture that the generated configurations use;
\* other pairs are not supported.
Supported == {"linux", "windows", "darwin", "freebsd"} \X {"amd64", "arm64"}

\* A configuration is [goos, goarch, tags], with tags a sequence.
TagTrue(cfg, t) ==
  \/ t = cfg.goos
  \/ t = cfg.goarch
  \/ t \in Range(cfg.tags)
  \/ t = "unix" /\ cfg.goos \in Unixes
  \/ t \in {"gc", "go1.1", "go1.18", "go1.21"}

RECURSIVE Holds(_, _)
Holds(cfg, c) ==
  CASE c.op = "true" -> TRUE
    [] c.op = "tag" -> TagTrue(cfg, c.tag)
    [] c.op = "not" -> ~Holds(cfg, c.a)
    [] c.op = "and" -> Holds(cfg, c.a) /\ Holds(cfg, c.b)
    [] c.op = "or" -> Holds(cfg, c.a) \/ Holds(cfg, c.b)

\* The part of a file name up to the first "_" means nothing.
IsTest(f) == f.ext = "go" /\ Len(f.elems) > 1 /\ f.elems[Len(f.elems)] = "test"
NameMatches(cfg, f) ==
  LET e == IF Len(f.elems) > 1 /\ f.elems[Len(f.elems)] = "test" THEN SubSeq(f.elems, 2, Len(f.elems) - 1) ELSE Tail(f.elems)
      n == Len(e)
  IN IF n >= 2 /\ e[n - 1] \in Systems /\ e[n] \in Archs THEN e[n - 1] = cfg.goos /\ e[n] = cfg.goarch
     ELSE IF n >= 1 /\ e[n] \in Systems THEN e[n] = cfg.goos
     ELSE IF n >= 1 /\ e[n] \in Archs THEN e[n] = cfg.goarch
     ELSE TRUE

\* Files that import "C" count as constrained, as cgo is off.
Matches(cfg, f) == NameMatches(cfg, f) /\ Holds(cfg, f.cons) /\ f.kind # "cgo"

Selected(cfg, p) == {k \in DOMAIN p.files : LET f == p.files[k] IN f.ext = "go" /\ ~f.under /\ ~IsTest(f) /\ Matches(cfg, f)}
Ignored(cfg, p) == {k \in DOMAIN p.files : ~p.files[k].under /\ ~Matches(cfg, p.files[k])}

(***************************************************************************)
(* Modules: of each required module, the highest version that is required  *)
(* by anything is used.                                                    *)
(***************************************************************************)
Main(w) == w.mods[1]
RECURSIVE Required(_, _)
Required(w, S) ==
  LET T == S \cup UNION {Range(m.reqs) : m \in {m \in Range(w.mods) : [path |-> m.path, ver |-> m.ver] \in S}}
  IN IF T = S THEN S ELSE Required(w, T)
AllRequired(w) == Required(w, Range(Main(w).reqs))
BuildList(w) ==
  {m \in Range(w.mods) :
     \/ m.ver = 0
     \/ /\ [path |-> m.path, ver |-> m.ver] \in AllRequired(w)
        /\ \A r \in AllRequired(w) : r.path = m.path => r.ver <= m.ver}

PathOf(m, p) == IF p.dir = "" THEN m.path ELSE m.path \o "/" \o p.dir

\* All packages of the build list, by path.
Packages(w) == UNION {{[path |-> PathOf(m, p), mod |-> m, pkg |-> p] : p \in Range(m.pkgs)} : m \in BuildList(w)}
Named(w, path) == {x \in Packages(w) : x.path = path}

Standard == {"unsafe", "errors", "os", "strconv"}

Imports(cfg, p) == UNION {Range(p.files[k].imports) : k \in Selected(cfg, p)}

\* One package has several versions of a file, for different systems.
Count(cfg, p, kind) == Cardinality({k \in Selected(cfg, p) : p.files[k].kind = kind})

ErrorKinds == {"syntax", "type", "undefined", "unused", "redeclared", "many"}

Internal(p) == Len(p.dir) > 9 /\ SubSeq(p.dir, 1, 9) = "internal/"

\* The package name in the files is "main".
IsProgram(cfg, p) == p.name = "main" /\ \E k \in Selected(cfg, p) : p.files[k].kind # "clause"

\* Errors of a package itself.  A file of kind "clause" has another package
\* name than the others.
Faulty(w, cfg, x) ==
  \/ Selected(cfg, x.pkg) = {}
  \/ \E k \in Selected(cfg, x.pkg) : x.pkg.files[k].kind \in ErrorKinds
  \/ Cardinality({x.pkg.files[k].kind = "clause" : k \in Selected(cfg, x.pkg)}) > 1
  \/ Count(cfg, x.pkg, "plat") > 1
  \/ Count(cfg, x.pkg, "useplat") > 0 /\ Count(cfg, x.pkg, "plat") = 0
  \/ \E i \in Imports(cfg, x.pkg) :
       /\ i \notin Standard
       /\ \/ Named(w, i) = {}
          \/ \E y \in Named(w, i) : IsProgram(cfg, y.pkg) \/ (Internal(y.pkg) /\ x.mod.path # y.mod.path)

RECURSIVE Closure(_, _, _)
Closure(w, cfg, S) ==
  LET T == S \cup UNION {UNION {Named(w, i) : i \in Imports(cfg, x.pkg)} : x \in S}
  IN IF T = S THEN S ELSE Closure(w, cfg, T)

Loaded(w, cfg, roots) == Closure(w, cfg, roots)

Direct(w, cfg, x) == UNION {Named(w, i) : i \in Imports(cfg, x.pkg)}
Cyclic(w, cfg, S) == \E x \in S : x \in Closure(w, cfg, Direct(w, cfg, x))

(***************************************************************************)
(* Patterns: [kind, arg].  "dir" is ./arg or . and "path" a package path;  *)
(* "all" is ./arg/... or ./... and "allpath" is arg/... for a module path. *)
(***************************************************************************)
Under(dir, top) == top = "" \/ dir = top \/ (Len(dir) > Len(top) /\ SubSeq(dir, 1, Len(top) + 1) = top \o "/")

Matched(w, cfg, pat) ==
  CASE pat.kind = "dir" -> {x \in Packages(w) : x.mod = Main(w) /\ x.pkg.dir = pat.arg}
    [] pat.kind = "path" -> Named(w, pat.arg)
    [] pat.kind = "all" -> {x \in Packages(w) : x.mod = Main(w) /\ Under(x.pkg.dir, pat.arg) /\ Selected(cfg, x.pkg) # {}}
    [] pat.kind = "allpath" -> {x \in Packages(w) : x.mod.path = pat.arg /\ Selected(cfg, x.pkg) # {}}

\* Directories of the main module that exist: some have no packages, or none
\* that patterns match.  "nested" is one of another module.
Exists(w, dir) ==
  dir \in {"", "testdata", "empty"} \/ \E p \in Range(Main(w).pkgs) : Under(p.dir, dir)

Wild(pat) == pat.kind \in {"all", "allpath"}
Roots(w, cfg, pats) == UNION {Matched(w, cfg, pats[k]) : k \in DOMAIN pats}

\* The packages can be loaded without errors in the current module.
LoadsHere(w, cfg, pats) ==
  /\ \A k \in DOMAIN pats : ~Wild(pats[k]) => Matched(w, cfg, pats[k]) # {}
  /\ \A k \in DOMAIN pats : pats[k].kind = "all" => Exists(w, pats[k].arg)
  /\ Roots(w, cfg, pats) # {}
  /\ LET L == Loaded(w, cfg, Roots(w, cfg, pats))
     IN (\A x \in L : ~Faulty(w, cfg, x)) /\ ~Cyclic(w, cfg, L)

\* Otherwise a temporary module is tried, unless forbidden.  That can only
\* work for packages of the published modules w.published: the temporary
\* module requires the latest version of each one that is asked for.
Provides(m, pat) == IF pat.kind = "path" THEN \E p \in Range(m.pkgs) : PathOf(m, p) = pat.arg ELSE pat.kind = "allpath" /\ m.path = pat.arg
Latest(w, pat) ==
  {[path |-> m.path, ver |-> m.ver] : m \in {m \in Range(w.published) :
     /\ Provides(m, pat)
     /\ \A n \in Range(w.published) : n.path = m.path => n.ver <= m.ver}}
RECURSIVE Chain(_)
Chain(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Chain(S \ {x})
Temporary(w, pats) ==
  [mods |-> <<[path |-> "capslockmodule", ver |-> 0, reqs |-> Chain(UNION {Latest(w, pats[k]) : k \in DOMAIN pats}), pkgs |-> <<>>]>>
            \o w.published]
LoadsElsewhere(w, cfg, pats) ==
  /\ \A k \in DOMAIN pats : Latest(w, pats[k]) # {}
  /\ LoadsHere(Temporary(w, pats), cfg, pats)

\* It is tried if the go command lists errors for a requested package, or
\* nothing matches; a package with other errors is not looked for elsewhere.
TriedElsewhere(w, cfg, pats, force) ==
  /\ ~force
  /\ ~LoadsHere(w, cfg, pats)
  /\ \A k \in DOMAIN pats : pats[k].kind \in {"path", "allpath"} /\ Matched(w, cfg, pats[k]) = {}

(***************************************************************************)
(* What a report says.                                                     *)
(***************************************************************************)
FnOf(path, f) == path \o ".F_" \o f.elems[1]
HolderFiles(cfg, p) == {k \in Selected(cfg, p) : p.files[k].kind \in {"fn", "clause"}}
Functions(cfg, S) == UNION {{FnOf(x.path, x.pkg.files[k]) : k \in HolderFiles(cfg, x.pkg)} : x \in S}
Holders(cfg, S) == {x.path : x \in {x \in S : HolderFiles(cfg, x.pkg) # {}}}

VersionOf(k) == "v1." \o ToString(k) \o ".0"
ModuleInfo(L) == {[path |-> x.mod.path, version |-> VersionOf(x.mod.ver)] : x \in {x \in L : x.mod.ver # 0}}

RECURSIVE JoinElems(_)
JoinElems(e) == IF Len(e) = 1 THEN e[1] ELSE e[1] \o "_" \o JoinElems(Tail(e))
FileName(f) == JoinElems(f.elems) \o "." \o f.ext

PackageInfo(cfg, L) ==
  {[path |-> x.path, ignored |-> {FileName(x.pkg.files[k]) : k \in Ignored(cfg, x.pkg)}] : x \in L}
=============================================================================
