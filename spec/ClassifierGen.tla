---------------------------- MODULE ClassifierGen ---------------------------
(* Histories of loading and restricting classifiers. *)
EXTENDS Classifier

CONSTANTS UniverseFile, Kind, MaxLines, MaxOps

U == JsonDeserialize(UniverseFile)
Range(s) == {s[k] : k \in DOMAIN s}
Funcs == IF Kind = "command" THEN {[name |-> f, pkg |-> Program[f].pkg] : f \in DOMAIN Program} ELSE Range(U.funcs)
Pkgs == IF Kind = "command" THEN ProgramPkgs \cup {"sort"} ELSE Range(U.pkgs)
Edges == IF Kind = "command" THEN UNION {{<<f, g>> : g \in Program[f].calls} : f \in DOMAIN Program} ELSE Range(U.edges)
Suffixes == Range(U.suffixes)
BadCaps == {"FILES", "CAPABILITY_FILE", "capability_files", "CAPABILITY_", "SAFE", "CAPABILITY_FILES,",
            "2", "CAPABILITY_SAFE/", "CAPABILITY_UNSAFE"}
BadWords == {"fn", "Func", "function", "func:", "packages", "unanalysed", "ignore", "cgo", "FUNC", "-", "include"}

Pick(S) == RandomElement(S)

VARIABLES lines, ops, done
vars == <<lines, ops, done>>

Plain(w) == [lead |-> "", sep |-> " ", trail |-> "", words |-> w]

-----------------------------------------------------------------------------
(* All maps of at most MaxLines lines from a small alphabet. *)

Small ==
  {<<>>, <<"func", "ex.test/a.F", "CAPABILITY_FILES">>, <<"func", "ex.test/a.F", "CAPABILITY_SAFE">>,
   <<"func", "(*ex.test/a.T).M", "CAPABILITY_FILES">>, <<"func", "ex.test/a.F">>, <<"func", "ex.test/a.F", "FILES">>,
   <<"package", "ex.test/a", "CAPABILITY_EXEC">>, <<"package", "ex.test/a", "CAPABILITY_UNSPECIFIED">>, <<"package", "plain", "x">>,
   <<"package", "plain">>, <<"package">>, <<"func">>, <<"cgo_suffix">>, <<"ignore_edge", "plain.F">>, <<"ignore_edge">>,
   <<"unanalyzed", "ex.test/a.F">>, <<"unanalyzed", "plain.F">>, <<"unanalyzed">>,
   <<"ignore_edge", "ex.test/a.F", "plain.F">>, <<"ignore_edge", "plain.F", "ex.test/a.F">>,
   <<"ignore_edge", "plain.F", "plain.F">>, <<"cgo_suffix", ".F">>, <<"cgo_suffix", "_Cfunc_Foo">>,
   <<"fun", "ex.test/a.F", "CAPABILITY_FILES">>, <<"ex.test/a.F">>}

Load(ls, fin, ex, rd, at) ==
  [op |-> "load", lines |-> ls, text |-> Text(ls, fin), exclude |-> ex, reader |-> rd, at |-> at, pad |-> 0, long |-> 0, fill |-> 0]

InitSmall ==
  \E n \in 0..MaxLines, fin \in BOOLEAN :
    \E ls \in [1..n -> {Plain(w) : w \in Small}] :
      /\ lines = ls
      /\ ops = <<Load(ls, fin, TRUE, "whole", 0)>>
      /\ done = TRUE

-----------------------------------------------------------------------------
(* Random histories.  (The parameter z keeps TLC from evaluating an operator only once.) *)

RandomWords(z) ==
  LET f == Pick(Funcs).name  g == Pick(Funcs).name
      c == IF Pick(1..60) = 1 THEN Pick(BadCaps)
           ELSE IF Pick(1..10) = 1 THEN Pick({"CAPABILITY_UNANALYZED", "CAPABILITY_CGO", "CAPABILITY_SAFE"})
           ELSE Pick(Capabilities)
      k == IF Pick(1..60) = 1 THEN Pick(BadWords) ELSE Pick({"func", "func", "package", "unanalyzed", "ignore_edge", "cgo_suffix"})
      full == CASE k = "package" -> <<k, Pick(Pkgs), c>>
                [] k = "unanalyzed" -> <<k, f>>
                [] k = "ignore_edge" -> IF Pick(1..3) = 1 \/ Kind = "command"
                     THEN CHOOSE w \in {<<k, e[1], e[2]>> : e \in {Pick(Edges)}} : TRUE
                     ELSE <<k, f, g>>
                [] k = "cgo_suffix" -> <<k, Pick(Suffixes)>>
                [] OTHER -> <<k, f, c>>
  IN IF Pick(1..80) = 1 THEN SubSeq(full, 1, Len(full) - 1) ELSE full

RandomLine(z) ==
  [lead |-> Pick({"", "", "", " ", "\t", "  \t", "\f"}),
   sep |-> Pick({" ", " ", "\t", "  ", " \t ", "\f", " \r"}),
   trail |-> Pick({"", "", "", "", " ", "\t", "#", " # note", "# func plain.F CAPABILITY_EXEC", "\r", " #", "\f", " \f\r"}),
   words |-> IF Pick(1..6) = 1 THEN <<>> ELSE RandomWords(z)]

\* Mostly avoid duplicate entries, which would make most maps invalid.
AddLine ==
  /\ ~done /\ Len(lines) < MaxLines
  /\ \E ln \in {RandomLine(lines)} :
       lines' = IF /\ ~Blank(ln) /\ Len(ln.words) > 1
                   /\ \E i \in DOMAIN lines : Len(lines[i].words) > 1 /\ Key(lines[i]) = Key(ln)
                   /\ Pick(1..20) # 1
                THEN lines
                ELSE Append(lines, ln)
  /\ UNCHANGED <<ops, done>>

\* Loads the lines gathered so far, which may be from a reader that fails
\* after part of the file, and may have an overlong line or a thousand times
\* "fill" characters of comments in front.
DoLoad ==
  /\ ~done /\ (Kind = "big" => Len(lines) >= MaxLines - 1)
  /\ \E rd \in {Pick({"whole", "whole", "whole", "onebyte", "half", "dataeof", "fault", "faultend", "pause"})},
        at \in {Pick(0..999)}, fin \in {Pick({TRUE, TRUE, FALSE})}, ex \in {Pick(BOOLEAN)},
        pad \in {IF Pick(1..20) = 1 THEN Pick({1000, 4095, 4096, 40000, 66000, 140000}) ELSE 0},
        long \in {IF Pick(1..20) = 1 THEN Pick({5000, 66000}) ELSE 0},
        fill \in {IF Pick(1..20) = 1 THEN Pick({70, 300, 1100, 4200}) ELSE 0} :
       ops' = Append(ops, [Load(lines, fin, ex, rd, at) EXCEPT !.pad = pad, !.long = long, !.fill = fill])
  /\ lines' = <<>>
  /\ UNCHANGED done

\* A run of the command on the program of Classifier with a map, or without.
DoCommand ==
  /\ ~done
  /\ \E m \in {Pick(1..8) # 1}, dis \in {Pick(BOOLEAN)}, noisy \in {Pick(BOOLEAN)} :
       ops' = Append(ops, [op |-> "command", map |-> m, lines |-> lines, text |-> Text(lines, TRUE),
                           disable |-> m /\ dis, noisy |-> noisy])
  /\ lines' = <<>>
  /\ done' = TRUE

DoDefault ==
  /\ ~done /\ Kind = "random" /\ lines = <<>>
  /\ ops' = Append(ops, [op |-> "default"])
  /\ UNCHANGED <<lines, done>>

\* Excludes unanalysed functions from an earlier classifier (by position
\* among the classifiers that exist at that time).
DoExclude ==
  /\ ~done /\ Kind = "random" /\ lines = <<>> /\ ops # <<>>
  /\ \E n \in {Pick(0..99)} : ops' = Append(ops, [op |-> "exclude", of |-> n])
  /\ UNCHANGED <<lines, done>>

Finish ==
  /\ ~done /\ ops # <<>> /\ (Len(ops) >= MaxOps \/ Pick(1..8) = 1)
  /\ done' = TRUE /\ UNCHANGED <<lines, ops>>

Init == IF Kind = "small" THEN InitSmall ELSE lines = <<>> /\ ops = <<>> /\ done = FALSE

Next ==
  IF Len(ops) >= MaxOps THEN Finish
  ELSE LET dice == Pick(1..10) IN
       IF Kind = "big" /\ Len(lines) < MaxLines - 1 /\ ops = <<>> THEN AddLine
       ELSE IF dice <= 8 /\ ENABLED AddLine THEN AddLine
       ELSE IF Kind = "command" THEN DoCommand
       ELSE DoLoad \/ DoDefault \/ DoExclude \/ Finish

Spec == Init /\ [][Next]_vars

Emit == done => PrintT(<<"SCENARIO", ToJson([ops |-> ops])>>)
=============================================================================
