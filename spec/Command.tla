------------------------------ MODULE Command -------------------------------
(***************************************************************************)
(* One run of the capslock command: options are checked, packages are      *)
(* loaded, here or in a temporary module, and a report is written.         *)
(*                                                                         *)
(* A scenario has a world, patterns, options o, and surroundings.  In all  *)
(* generated packages, functions F_* have the unsafe-pointer capability    *)
(* and nothing else has any.                                               *)
(***************************************************************************)
EXTENDS Load

First(s) == IF s = <<>> THEN "" ELSE s[1]

Config(sc) ==
  [goos |-> IF sc.o.goos # "" THEN sc.o.goos ELSE IF sc.env.goos # "" THEN sc.env.goos ELSE "linux",
   goarch |-> IF sc.o.goarch # "" THEN sc.o.goarch ELSE IF sc.env.goarch # "" THEN sc.env.goarch ELSE "amd64",
   tags |-> sc.o.tags]

Grans == {"", "package", "function", "intermediate"}
GoodCaps == {"", "UNSAFE_POINTER", "FILES,UNSAFE_POINTER", "-UNSAFE_POINTER", "FILES", "-FILES"}
Selects(caps) == caps \in {"", "UNSAFE_POINTER", "FILES,UNSAFE_POINTER", "-FILES"}

OptionsValid(o) ==
  /\ o.flag = "ok"
  /\ o.gran \in Grans
  /\ o.caps \in GoodCaps
  /\ o.map \in {"none", "ok"}
  /\ o.disable => o.map = "ok"
  /\ o.cpu \in {"none", "ok"}
  /\ o.mem \in {"none", "ok"}
  /\ IF o.output = "compare" THEN o.base \in {"empty", "same"} /\ o.extra = 0 ELSE o.extra = 0

\* The packages that are reported on, with all that is loaded for them.
Here(sc) == LoadsHere(sc.w, Config(sc), sc.pats)
Elsewhere(sc) == TriedElsewhere(sc.w, Config(sc), sc.pats, sc.o.force) /\ LoadsElsewhere(sc.w, Config(sc), sc.pats)

World(sc) == IF Here(sc) THEN sc.w ELSE Temporary(sc.w, sc.pats)
Reported(sc) == Roots(World(sc), Config(sc), sc.pats)
AllLoaded(sc) == Loaded(World(sc), Config(sc), Reported(sc))

Good(sc) ==
  /\ OptionsValid(sc.o)
  /\ <<Config(sc).goos, Config(sc).goarch>> \in Supported
  /\ Here(sc) \/ Elsewhere(sc)

\* The items of a report at a granularity.
ItemsAt(sc, gran) ==
  IF sc.o.disable \/ (gran = "intermediate" /\ ~Selects(sc.o.caps)) THEN {}
  ELSE IF gran \in {"function", ""} THEN Functions(Config(sc), Reported(sc))
  ELSE Holders(Config(sc), Reported(sc))

CompareGran(sc) == IF sc.o.gran = "" THEN "package" ELSE sc.o.gran
Differs(sc) == IF sc.o.base = "empty" THEN ItemsAt(sc, CompareGran(sc)) # {} ELSE FALSE

\* Something is written to the standard output.
Writes(sc) ==
  CASE sc.o.output = "compare" -> Differs(sc)
    [] sc.o.output = "m" -> ItemsAt(sc, IF sc.o.gran = "intermediate" THEN "package" ELSE sc.o.gran) # {}
    [] OTHER -> TRUE

ReportOK(sc, r) ==
  CASE sc.o.output = "json" ->
         IF sc.o.omit THEN Range(r.packages) = ItemsAt(sc, IF sc.o.gran = "intermediate" THEN "intermediate" ELSE "package")
         ELSE Range(r.items) = ItemsAt(sc, sc.o.gran)
    [] sc.o.output = "m" -> Range(r.caps) = IF Writes(sc) THEN {"UNSAFE_POINTER"} ELSE {}
    [] sc.o.output = "compare" -> r.text = Differs(sc)
    [] OTHER -> r.text

Status(sc) == IF sc.o.output = "compare" /\ Differs(sc) THEN 1 ELSE 0

\* A run ends as it should; failed says that a step was made to fail.
Ends(sc, failed, r) ==
  LET error == r.status = 2 /\ r.message /\ (~r.text \/ sc.o.stdout = "full")
      good == r.status = Status(sc) /\ (sc.o.stdout = "full" \/ ReportOK(sc, r))
  IN IF ~Good(sc) \/ (sc.o.stdout = "full" /\ Writes(sc)) THEN error
     ELSE good \/ (failed /\ error)

(***************************************************************************)
(* The lists of modules and packages of a report.                          *)
(***************************************************************************)
InfoOK(sc, r) ==
  LET L == AllLoaded(sc)
  IN /\ {[path |-> m.path, version |-> m.version] : m \in Range(r.modules)} = ModuleInfo(L)
     /\ Len(r.modules) = Cardinality(ModuleInfo(L))
     /\ {[path |-> p.path, ignored |-> Range(p.ignored)] : p \in Range(r.infos)} = PackageInfo(Config(sc), L)
     /\ Len(r.infos) = Cardinality(L)
     /\ \A p \in Range(r.infos) : Len(p.ignored) = Cardinality(Range(p.ignored))
     /\ r.sorted
=============================================================================
