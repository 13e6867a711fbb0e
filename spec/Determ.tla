------------------------------- MODULE Determ -------------------------------
(* The output for a program is determined by the request.                    *)
(*                                                                           *)
(* A request says which packages are analysed, the output mode, granularity, *)
(* whether paths are omitted and which capabilities are selected.  It does   *)
(* not say in which process the analysis is made, how often the packages     *)
(* have been loaded or analysed before, nor in what order they are listed.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Request(step) == [query |-> step.query, output |-> step.output, gran |-> step.gran, omit |-> step.omit, sel |-> step.sel]

\* answers: pairs of a request and the digest of the output.
Consistent(answers, req, digest) == \A a \in answers : a[1] = req => a[2] = digest

(* Entries of a report are [cap, pkg, meth, fun]: the numbers of the         *)
(* capability, and of the package and function in the order of their names.  *)
(* They come in the order of capabilities, then packages, then functions;    *)
(* methods may be kept apart from functions.                                 *)
Ordered(es) ==
  /\ \A i \in 1..(Len(es) - 1) :
       LET a == es[i] b == es[i + 1] IN a.cap < b.cap \/ (a.cap = b.cap /\ a.pkg <= b.pkg)
  /\ \A i, j \in DOMAIN es :
       (i < j /\ es[i].cap = es[j].cap /\ es[i].pkg = es[j].pkg /\ es[i].meth = es[j].meth) => es[i].fun <= es[j].fun
  \* The order of two functions is the same for all capabilities.
  /\ LET Key(x) == <<x.pkg, x.meth, x.fun>>
         Pairs == {<<Key(es[p[1]]), Key(es[p[2]])>> : p \in {q \in (DOMAIN es) \X (DOMAIN es) : q[1] < q[2] /\ es[q[1]].cap = es[q[2]].cap}}
     IN \A p \in Pairs : p[1] # p[2] => <<p[2], p[1]>> \notin Pairs
=============================================================================
