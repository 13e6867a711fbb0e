----------------------------- MODULE CommandGen -----------------------------
(* Prints runs of the command.  Kind is "command" or "info", or "files" for   *)
(* runs without trouble whose reports depend on the configuration.          *)
EXTENDS Command, Randomization

CONSTANT Kind

VARIABLES stage, mods, plan, out

vars == <<stage, mods, plan, out>>

Pick(S) == RandomElement(S)
Chance(n, d) == Pick(1..d) <= n
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

Tags == {"linux", "windows", "darwin", "unix", "amd64", "arm64", "tagx", "tagy", "ignore", "go1.18", "go1.99", "cgo", "gc"}
SomeTags(vendored) == IF vendored THEN Tags \ {"ignore"} ELSE Tags
Lit(t) == [op |-> "tag", tag |-> t]
RandomLit(S) == CHOOSE c \in {IF Chance(1, 3) THEN [op |-> "not", a |-> Lit(t)] ELSE Lit(t) : t \in {Pick(S)}} : TRUE
RandomBin(S) ==
  CHOOSE c \in {[op |-> o, a |-> a, b |-> b] : o \in {Pick({"and", "or"})}, a \in {RandomLit(S)}, b \in {RandomLit(S)}} : TRUE
ConsOf(k, S) ==
  CASE k <= 5 -> [op |-> "true"]
    [] k = 6 -> RandomLit(S)
    [] k = 7 -> RandomLit({"linux", "windows", "tagx"})
    [] k = 8 -> RandomBin(S)
    [] k = 9 -> [op |-> "not", a |-> RandomBin(S)]
    [] OTHER -> [op |-> Pick({"and", "or"}), a |-> RandomBin(S), b |-> RandomLit(S)]
RandomCons(S) == CHOOSE c \in {ConsOf(k, S) : k \in {Pick(1..10)}} : TRUE

Suffixes == <<<<"linux">>, <<"windows">>, <<"darwin">>, <<"amd64">>, <<"arm64">>, <<"linux", "amd64">>, <<"windows", "amd64">>,
              <<"linux", "arm64">>, <<"arm64", "linux">>, <<"unix">>, <<"foo">>, <<"js">>, <<"js", "wasm">>, <<"windows", "linux">>,
              <<"x", "linux">>, <<"linux", "x">>>>

\* Runs are planned to go wrong in a few ways each, and some in none.
Rough == plan.rough

Bad == {"syntax", "type", "undefined", "unused", "clause", "redeclared", "many"}
KindOf(k) ==
  CASE k <= 12 -> "fn"
    [] k \in 13..15 -> "plain"
    [] k = 16 -> "cgo"
    [] k = 17 -> "plat"
    [] k = 18 -> IF Rough.files THEN "useplat" ELSE "plain"
    [] OTHER -> IF Rough.files THEN Pick(Bad) ELSE "fn"

\* A file with number k.  Parameters say what the rest of the package allows.
FileOf(k, S, sfx, test, ext, kind, cons, under, imps) ==
  [elems |-> <<"f" \o ToString(k)>> \o sfx \o (IF test THEN <<"test">> ELSE <<>>),
   ext |-> ext, under |-> under, cons |-> cons, kind |-> IF ext = "s" THEN "asm" ELSE kind, imports |-> imps]
RandomFile(k, S, free) ==
  CHOOSE f \in {FileOf(k, S, sfx, test, ext, kind, cons, under, imps) :
      sfx \in {IF Chance(IF Kind = "files" THEN 2 ELSE 1, 3) THEN Suffixes[Pick(1..Len(Suffixes))] ELSE <<>>},
      test \in {Chance(1, 10)},
      ext \in {IF Chance(1, 12) THEN "s" ELSE "go"},
      kind \in {KindOf(Pick(1..(IF free THEN 20 ELSE 16)))},
      cons \in {RandomCons(S)}, under \in {Chance(1, 15)},
      imps \in {<<>>}} : TRUE
SimpleFile(k, kind) == FileOf(k, {}, <<>>, FALSE, "go", kind, [op |-> "true"], FALSE, <<>>)
PlainFile(k) == SimpleFile(k, "fn")

\* Test files are not copied to vendor directories, and count as files when a
\* directory has no others, so there are none in such places.
Tidy(f, vendored) ==
  IF (vendored \/ f.kind \in {"clause", "cgo"}) /\ f.ext = "go" /\ f.elems[Len(f.elems)] = "test"
  THEN [f EXCEPT !.elems = SubSeq(@, 1, Len(@) - 1)]
  ELSE f

\* n files; at least the first is always selected if sure is set.  Package
\* names differ in files of kind "clause", so those and tests exclude each other.
RandomFiles(n, sure, S, free, vendored) ==
  TLCEval([k \in 1..n |-> IF k = 1 /\ sure THEN PlainFile(1) ELSE Tidy(RandomFile(k, S, free), vendored \/ ~sure)])
NoClash(files) ==
  LET tests == \E k \in DOMAIN files : files[k].elems[Len(files[k].elems)] = "test"
  IN [k \in DOMAIN files |-> IF tests /\ files[k].kind = "clause" THEN [files[k] EXCEPT !.kind = "fn"] ELSE files[k]]

Dirs == {"", "a", "a/b", "c", "ab", "a-b", "B", "internal/x", "cmd/t"}
DepPaths == <<"d1.test/lib", "d2.test/x/y", "d1.test/Zed", "d1.test/lib-2">>

Init ==
  /\ stage = "plan" /\ mods = <<>> /\ out = <<>>
  /\ plan = [n |-> 0, rough |-> [files |-> FALSE]]

Plan ==
  /\ stage = "plan" /\ stage' = "main"
  /\ \E np \in {Pick(1..4)}, nd \in {IF Kind = "info" THEN Pick(0..4) ELSE IF Chance(1, 4) THEN Pick(1..2) ELSE 0},
        layout \in {IF Kind = "info" THEN Pick({"plain", "plain", "vendor", "replacedir", "replacemod", "work", "gopath"})
                    ELSE IF Chance(1, 6) THEN Pick({"vendor", "replacedir", "work"}) ELSE "plain"} :
     \E dirs \in {RandomSubset(np, Dirs)}, thin \in {Chance(1, 2)}, away \in {layout # "gopath" /\ Chance(1, 6)},
        main \in {IF Kind = "info" /\ Chance(1, 4) THEN "myapp" ELSE "ex.test/m"}, quiet \in {Kind # "files" /\ Chance(1, 5)}, some \in {TLCEval([k \in 1..5 |-> Kind = "command" /\ Chance(1, 5)])} :
       plan' = [rough |-> [files |-> some[1], imports |-> some[2], pats |-> some[3], options |-> some[4], system |-> some[5]],
                spoilt |-> IF Kind = "command" /\ (\A k \in 1..5 : ~some[k]) /\ Chance(1, 3) THEN Pick(1..np) ELSE 0,
                thin |-> thin, away |-> away, main |-> main, quiet |-> quiet, n |-> np, deps |-> IF layout = "work" THEN 1 ELSE nd, layout |-> layout, dirs |-> SeqOf(dirs)]
  /\ UNCHANGED <<mods, out>>

\* Some runs that are not to go wrong otherwise have one more file, with a mistake.
Spoilt(k, files) ==
  IF k = plan.spoilt THEN Append(files, SimpleFile(Len(files) + 1, Pick(Bad))) ELSE files

Sure(z) == IF Rough.files THEN Chance(2, 3) ELSE TRUE

\* The packages of the main module, without imports.
MakeMain ==
  /\ stage = "main" /\ stage' = "deps"
  /\ \E pk \in {TLCEval([k \in 1..plan.n |->
                  [dir |-> plan.dirs[k],
                   name |-> IF plan.dirs[k] = "cmd/t" THEN "main" ELSE "p",
                   files |-> NoClash(Spoilt(k, RandomFiles(Pick(1..4), Sure(k), Tags, TRUE, FALSE)))]])} :
       mods' = <<[path |-> plan.main, ver |-> 0, reqs |-> <<>>, pkgs |-> pk]>>
  /\ UNCHANGED <<plan, out>>

Unversioned == {"work", "gopath"}
\* The versions of module k: one if it is replaced or in the workspace.
VersionsOf(k) == IF plan.layout \in Unversioned THEN {0} ELSE IF plan.layout \in {"replacedir", "replacemod"} THEN {Pick(0..3)} ELSE 1..Pick(1..3)

DepPkgs(vendored) ==
  TLCEval([j \in 1..3 |->
     [dir |-> IF j = 1 THEN "" ELSE IF j = 2 THEN "sub" ELSE "internal/q", name |-> "p",
      files |-> NoClash(RandomFiles(Pick(1..3), TRUE, SomeTags(vendored), FALSE, vendored))]])

DepOf(k, v) ==
  CHOOSE m \in {[path |-> DepPaths[k], ver |-> v, reqs |-> <<>>, pkgs |-> pk] : pk \in {DepPkgs(plan.layout = "vendor")}} : TRUE

RECURSIVE DepsOf(_, _)
DepsOf(k, V) == IF V = {} THEN <<>> ELSE LET v == CHOOSE v \in V : \A u \in V : v <= u IN <<DepOf(k, v)>> \o DepsOf(k, V \ {v})

MakeDep ==
  /\ stage = "deps"
  /\ IF plan.deps = 0 THEN stage' = "reqs" /\ UNCHANGED <<plan, mods>>
     ELSE /\ \E vs \in {VersionsOf(plan.deps)} : \E ms \in {DepsOf(plan.deps, IF plan.layout \in Unversioned THEN {0} ELSE {IF v = 0 THEN 1 ELSE v : v \in vs})} : mods' = mods \o ms
          /\ plan' = [plan EXCEPT !.deps = @ - 1]
          /\ UNCHANGED stage
  /\ UNCHANGED out

\* Requirements: the main module requires some version of each; others may
\* require each other, in one direction only, so that imports do not cycle.
Versions(path) == {m.ver : m \in {m \in Range(mods) : m.path = path /\ m.ver # 0}}
DepIndex(path) == CHOOSE k \in DOMAIN DepPaths : DepPaths[k] = path
Known == {m.path : m \in {m \in Range(mods) : m.ver # 0}}
ReqOf(path) == [path |-> path, ver |-> Pick(Versions(path))]
ReqsFor(m) ==
  IF m.ver = 0
  THEN IF m.path = plan.main THEN LET ps == SeqOf(Known) IN TLCEval([k \in DOMAIN ps |-> ReqOf(ps[k])]) ELSE <<>>
  ELSE LET ps == SeqOf({p \in Known : DepIndex(p) > DepIndex(m.path)})
       IN TLCEval([k \in DOMAIN ps |-> ReqOf(ps[k])])

MakeReqs ==
  /\ stage = "reqs" /\ stage' = "imports"
  /\ mods' = [k \in DOMAIN mods |-> [mods[k] EXCEPT !.reqs = ReqsFor(mods[k])]]
  /\ UNCHANGED <<plan, out>>

\* Imports.  The first package imports each dependency, or only the first one
\* if the plan is thin, and each of these imports those it requires, so that
\* all requirements are needed.
LocalPath(k) == PathOf(mods[1], mods[1].pkgs[k])
Missing == {"nosuch.test/x", plan.main \o "/nosuch", "nosuchstd"}
Wanted ==
  LET all == {m.path : m \in Range(Tail(mods))}
  IN IF plan.thin THEN {p \in all : \A q \in all : DepIndex(p) <= DepIndex(q)} ELSE all
ImportsFor(p, j, isDep, path, pos) ==
  IF isDep
  THEN IF j = 1 /\ pos = 1
       THEN SeqOf({m.path : m \in {m \in Range(Tail(mods)) : DepIndex(m.path) > DepIndex(path)}})
            \o (IF Chance(1, 2) THEN <<path \o "/internal/q">> ELSE <<>>)
       ELSE IF Chance(1, 6) THEN <<"errors">> ELSE <<>>
  ELSE LET base == IF pos = 1 /\ j = 1 THEN SeqOf(Wanted) ELSE <<>>
           other == IF Chance(1, 3) /\ pos < Len(mods[1].pkgs)
                    THEN <<LocalPath(Pick((pos + 1)..Len(mods[1].pkgs)))>> ELSE <<>>
           std == IF Chance(1, 8) THEN <<Pick(IF Kind = "info" /\ Chance(1, 4) THEN {"os"} ELSE {"errors"})>> ELSE <<>>
           bad == IF Rough.imports /\ Chance(1, 6) THEN <<Pick(Missing)>> ELSE <<>>
           loop == IF Rough.imports /\ Chance(1, 6) THEN <<LocalPath(Pick(1..Len(mods[1].pkgs)))>> ELSE <<>>
           sub == IF Chance(1, 4) /\ Len(mods) > 1 THEN <<Pick({m.path : m \in Range(Tail(mods))}) \o "/sub">> ELSE <<>>
       IN base \o other \o std \o bad \o loop \o sub

\* Programs cannot be imported.
Fit(imps, isDep) == LET ok(i) == ~Rough.imports => i # plan.main \o "/cmd/t" IN SelectSeq(imps, ok)
RECURSIVE Unique(_)
Unique(s) == IF s = <<>> THEN <<>> ELSE LET r == Unique(SubSeq(s, 1, Len(s) - 1)) IN
               IF s[Len(s)] \in Range(r) THEN r ELSE Append(r, s[Len(s)])

WithImports(m, isDep) ==
  [m EXCEPT !.pkgs = TLCEval([pos \in DOMAIN m.pkgs |->
     [m.pkgs[pos] EXCEPT !.files = TLCEval([j \in DOMAIN m.pkgs[pos].files |->
        LET f == m.pkgs[pos].files[j]
        IN IF f.ext = "s" \/ IsTest(f) THEN f
           ELSE [f EXCEPT !.kind = IF plan.quiet /\ @ = "fn" THEN "plain" ELSE @, !.imports = Unique(Fit(ImportsFor(m.pkgs[pos], j, isDep, m.path, pos), isDep))]])]])]

MakeImports ==
  /\ stage = "imports" /\ stage' = "run"
  /\ mods' = TLCEval([k \in DOMAIN mods |-> WithImports(mods[k], k # 1)])
  /\ UNCHANGED <<plan, out>>

\* Modules that are published and not required: two versions of a library,
\* one that needs the older of them, one that has errors and one that needs it.
Lib == "up.test/lib"
AwayPkg(dir, imps) ==
  CHOOSE p \in {[dir |-> dir, name |-> "p", files |-> <<[PlainFile(1) EXCEPT !.imports = imps]>> \o Tail(fs)] :
                  fs \in {NoClash(RandomFiles(Pick(1..4), TRUE, SomeTags(TRUE), FALSE, TRUE))}} : TRUE
Away(path, ver, reqs, pkgs) == [path |-> path, ver |-> ver, reqs |-> reqs, pkgs |-> pkgs]
PublishedMods(z) ==
  <<Away(Lib, 1, <<>>, <<AwayPkg("", <<>>), AwayPkg("sub", <<"errors">>)>>),
    Away(Lib, 2, <<>>, <<AwayPkg("", <<>>), AwayPkg("sub", <<Lib>>)>>),
    Away("up.test/app", 1, <<[path |-> Lib, ver |-> 1]>>, <<AwayPkg("", <<Pick({Lib, Lib \o "/sub"})>>), AwayPkg("x", <<>>)>>),
    Away("up.test/bad", 1, <<>>, <<[dir |-> "", name |-> "p", files |-> <<[PlainFile(1) EXCEPT !.kind = Pick({"type", "undefined", "unused"})]>>]>>),
    Away("up.test/uses", 1, <<[path |-> "up.test/bad", ver |-> 1]>>, <<AwayPkg("", <<"up.test/bad">>)>>)>>
AwayPaths == {Lib, Lib \o "/sub", "up.test/app", "up.test/app/x"}
BadAwayPaths == {"up.test/bad", "up.test/uses"}
AwayPat(z) ==
  CHOOSE p \in {IF Rough.pats /\ Chance(1, 3) THEN [kind |-> Pick({"path", "allpath"}), arg |-> Pick(BadAwayPaths)]
                 ELSE IF Chance(1, 3) THEN [kind |-> "allpath", arg |-> Pick({Lib, "up.test/app"})]
                 ELSE [kind |-> "path", arg |-> Pick(AwayPaths)]} : TRUE

DirOrPath(k) ==
  CHOOSE p \in {IF Chance(1, 2) THEN [kind |-> "dir", arg |-> mods[1].pkgs[k].dir] ELSE [kind |-> "path", arg |-> LocalPath(k)]} : TRUE
\* Without trouble, only directories that exist.
AllArg(k) ==
  IF k < 4 THEN "" ELSE IF ~Rough.pats /\ ~Exists([mods |-> mods], "a") THEN "empty" ELSE Pick({"a", "empty", IF Rough.pats THEN "nested" ELSE "a"})
\* Requirements that are not needed are dropped from go.mod, and packages of
\* other modules that are not imported are not vendored.
DepRoots ==
  LET f == mods[1].pkgs[1].files[1]
      all == {m.path : m \in Range(Tail(mods))}
      needed == f.ext = "go" /\ ~f.under /\ Len(f.elems) = 1 /\ f.cons.op = "true" /\ f.kind \in {"fn", "plain"}
  IN IF plan.layout \in {"work", "gopath"} THEN all
     ELSE IF ~needed THEN {}
     ELSE IF plan.layout = "vendor" THEN all \cap Range(f.imports) ELSE all
PatOf(k) ==
  CASE k <= 6 -> DirOrPath(Pick(1..Len(mods[1].pkgs)))
    [] k \in 7..10 -> [kind |-> "all", arg |-> AllArg(Pick(1..4))]
    [] k = 11 -> [kind |-> "allpath", arg |-> Pick({plan.main} \cup (IF plan.layout = "vendor" THEN {} ELSE DepRoots))]
    [] k = 12 -> IF DepRoots # {} THEN [kind |-> "path", arg |-> Pick(DepRoots)] ELSE DirOrPath(1)
    [] k = 13 -> IF Rough.pats THEN [kind |-> "path", arg |-> Pick({"nosuch.test/x", plan.main \o "/nosuch", "up.test/bad", "up.test/lib/nosuch"})] ELSE [kind |-> "all", arg |-> ""]
    [] k = 14 -> IF Rough.pats THEN [kind |-> "dir", arg |-> Pick({"nosuch", "testdata", "empty"})] ELSE [kind |-> "all", arg |-> ""]
    [] k = 15 -> IF Kind = "command" /\ Rough.pats THEN AwayPat(k) ELSE [kind |-> "all", arg |-> ""]
    [] OTHER -> IF Rough.pats THEN [kind |-> "all", arg |-> "nosuch"] ELSE [kind |-> "all", arg |-> ""]
RandomPat(z) == CHOOSE p \in {IF plan.away THEN AwayPat(k) ELSE PatOf(k) : k \in {Pick(1..16)}} : TRUE
PatsOf(n) == IF n = 1 THEN <<RandomPat(1)>> ELSE IF n = 2 THEN <<RandomPat(1), RandomPat(2)>> ELSE <<RandomPat(1), RandomPat(2), RandomPat(3)>>
\* Packages that are published are not requested with ones of other modules
\* that could be got elsewhere, too.
PatsFit(ps) ==
  (\E k \in DOMAIN ps : ps[k].arg \in AwayPaths \cup BadAwayPaths) =>
     \A k \in DOMAIN ps : ps[k].arg \notin {m.path : m \in Range(Tail(mods))}

\* An option has its usual value most of the time.
Opt(usual, S, n) == IF Chance(1, n) THEN Pick(S) ELSE usual
Faults == {"go-before", "go-before", "go-after", "no-go"}

Options(z) ==
  CHOOSE o \in {[output |-> om, gran |-> g, caps |-> c, map |-> m, disable |-> d, cpu |-> cp, mem |-> me, extra |-> x,
                 base |-> b, force |-> f, omit |-> oo, noisy |-> ny, stdout |-> so, flag |-> fl, goos |-> os, goarch |-> ar, tags |-> t,
                 names |-> nm] :
     om \in {IF Kind \in {"info", "files"} \/ Chance(1, 3) THEN "json" ELSE Pick({"json", "m", "v", "", "graph", "compare"})},
     g \in {IF Rough.options THEN Opt(Pick(Grans), {"pkg", "Function"}, 4) ELSE Pick(Grans)},
     c \in {IF Rough.options THEN Opt(Opt("", GoodCaps, 4), {"BOGUS", "FILES,-EXEC", "UNSAFE_POINTER,BOGUS"}, 4) ELSE Opt("", GoodCaps, 2)},
     m \in {IF Kind = "command" THEN Opt("none", {"ok"} \cup (IF Rough.options THEN {"missing", "bad", "dir"} ELSE {}), 4) ELSE "none"},
     d \in {Kind = "command" /\ Chance(1, IF Rough.options THEN 5 ELSE 8)},
     cp \in {IF Rough.options THEN Opt("none", {"ok", "bad"}, 5) ELSE "none"},
     me \in {IF Rough.options THEN Opt("none", {"ok", "bad"}, 5) ELSE "none"},
     x \in {IF Rough.options THEN Opt(0, {1, 2}, 6) ELSE 0},
     b \in {Pick({"empty", "same"} \cup (IF Rough.options THEN {"missing", "bad", "dir"} ELSE {}))},
     f \in {Chance(1, 4) /\ (Kind = "command" \/ ~plan.away)}, oo \in {Chance(1, 5)}, ny \in {Chance(1, 5)},
     so \in {IF Rough.system THEN Opt("ok", {"full"}, 3) ELSE "ok"},
     fl \in {IF Rough.options THEN Opt("ok", {"unknown", "badvalue"}, 10) ELSE "ok"},
     os \in {Opt("", {"linux", "windows", "darwin"} \cup (IF Rough.options THEN {"plan10", "Linux", "windows,linux"} ELSE {}), 2)},
     ar \in {Opt("", {"amd64", "arm64"} \cup (IF Rough.options THEN {"z80", "AMD64"} ELSE {}), 3)},
     t \in {Pick({<<>>, <<>>, <<"tagx">>, <<"tagx", "tagy">>, <<"tagy">>})},
     nm \in {Pick({"absolute", "relative"})}} : TRUE

\* Only rough runs disable the built-in map without giving another.
Fix(o) == [o EXCEPT !.map = IF o.disable /\ ~Rough.options THEN "ok" ELSE @]

MakeRun ==
  /\ stage = "run"
  /\ \E o \in {Options(1)}, ps \in {PatsOf(Pick({1, 1, 1, 2, 3}))},
        eo \in {Opt("", {"linux", "windows", "darwin"}, 2)}, ea \in {Opt("", {"amd64", "arm64"}, 2)},
        fk \in {IF Rough.system THEN Opt("none", Faults, 2) ELSE "none"}, fa \in {Pick(1..6)}, pub \in {PublishedMods(1)} :
       /\ IF PatsFit(ps)
          THEN /\ stage' = "done"
               /\ out' = [w |-> [mods |-> mods, published |-> pub], layout |-> plan.layout, pats |-> ps, o |-> Fix(o),
                          env |-> [goos |-> eo, goarch |-> ea], fault |-> [kind |-> fk, at |-> fa]]
          ELSE UNCHANGED <<stage, out>>
  /\ UNCHANGED <<mods, plan>>

Next == Plan \/ MakeMain \/ MakeDep \/ MakeReqs \/ MakeImports \/ MakeRun
Spec == Init /\ [][Next]_vars

\* The items of the comparison file that should give no differences.
Emit ==
  stage = "done" =>
    PrintT(<<"SCENARIO", ToJson(out @@ [items |-> SeqOf(IF Good(out) /\ out.o.output = "compare" THEN ItemsAt(out, CompareGran(out)) ELSE {}),
                                        good |-> Good(out), here |-> Here(out)])>>)
=============================================================================
