-------------------------------- MODULE Flow --------------------------------
(* How functions that are stored as values come to be called.                *)
(*                                                                           *)
(* A program has functions and cells.  A cell is a variable, field, element, *)
(* channel and so on that can hold a callable: a function value or an        *)
(* interface value with a method.  Callables are the numbers of the          *)
(* functions that they run; 0 is nil.  Each function also has one local      *)
(* variable, may have a parameter and a result, and may hold a capability.   *)
(* Its body is a list of statements each of which may or may not be executed:*)
(*                                                                           *)
(*   set   copies a value to a cell, the local variable or the result        *)
(*   call  calls a value                                                     *)
(*   pass  calls a function with a value as argument; it may keep the result *)
(*                                                                           *)
(* How values, cells and calls are written is chosen by the generator and    *)
(* makes no difference to what can happen.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT MaxDepth   \* active functions

Range(s) == {s[i] : i \in DOMAIN s}

Frame(f, par, keep) == [f |-> f, pc |-> 1, loc |-> 0, par |-> par, ret |-> 0, keep |-> keep]
Top(stack) == stack[Len(stack)]
Pop(stack) == SubSeq(stack, 1, Len(stack) - 1)

Value(cells, fr, src) ==
  CASE src.s = "fun" -> src.i
    [] src.s = "cell" -> cells[src.i]
    [] src.s = "local" -> fr.loc
    [] src.s = "param" -> fr.par
    [] OTHER -> 0

\* The configurations that follow from executing statement j of the top
\* function: pairs of cells and stack, none if the value is nil.
Executed(p, cells, stack, j) ==
  LET fr == Top(stack)
      st == p.funs[fr.f].body[j]
      v == Value(cells, fr, st.src)
      at(f) == Append(Pop(stack), [f EXCEPT !.pc = j + 1])
  IN CASE st.op = "set" /\ v # 0 /\ st.dst.d = "cell" -> {<<[cells EXCEPT ![st.dst.i] = v], at(fr)>>}
       [] st.op = "set" /\ v # 0 /\ st.dst.d = "local" -> {<<cells, at([fr EXCEPT !.loc = v])>>}
       [] st.op = "set" /\ v # 0 /\ st.dst.d = "ret" -> {<<cells, at([fr EXCEPT !.ret = v])>>}
       [] st.op = "call" /\ v # 0 /\ Len(stack) < MaxDepth -> {<<cells, Append(at(fr), Frame(v, 0, FALSE))>>}
       [] st.op = "pass" /\ (v # 0 \/ st.src.s = "nil") /\ Len(stack) < MaxDepth ->
            {<<cells, Append(at(fr), Frame(st.g, v, st.keep))>>}
       [] OTHER -> {}

\* The configuration after the top function returns.
Returned(stack) ==
  LET fr == Top(stack)
      rest == Pop(stack)
  IN IF rest = <<>> \/ ~fr.keep \/ fr.ret = 0 THEN rest
     ELSE Append(Pop(rest), [Top(rest) EXCEPT !.loc = fr.ret])

Steps(p, cells, stack) ==
  IF stack = <<>>
  THEN {<<cells, <<Frame(f, 0, FALSE)>>>> : f \in {f \in DOMAIN p.funs : p.funs[f].cap = ""}}
  ELSE {<<cells, Returned(stack)>>}
       \cup UNION {Executed(p, cells, stack, j) : j \in Top(stack).pc..Len(p.funs[Top(stack).f].body)}

\* What runs: the function on top and those that are waiting for it.
Running(p, stack) ==
  IF stack = <<>> \/ p.funs[Top(stack).f].cap = "" THEN {}
  ELSE {[f |-> stack[i].f, leaf |-> Top(stack).f] : i \in DOMAIN stack}

\* Instances of generic functions are not listed in reports, only the generic
\* function itself, whose parameter is not known, and the callers.
Listed(p, stack) ==
  LET other(i) == i = 1 \/ p.funs[stack[i].f].kind # "generic"
  IN SelectSeq([i \in DOMAIN stack |-> IF other(i) THEN stack[i] ELSE [f |-> 0]], LAMBDA fr : fr.f # 0)

-----------------------------------------------------------------------------
(* Which callables can be where, without regard to order and callers.  The   *)
(* places are cells and the locals, parameters and results of functions.     *)
Places(p) == {<<"cell", i>> : i \in DOMAIN p.cells}
             \cup {<<x, f>> : x \in {"local", "param", "ret"}, f \in DOMAIN p.funs}
At(h, f, src) ==
  CASE src.s = "fun" -> {src.i}
    [] src.s = "cell" -> h[<<"cell", src.i>>]
    [] src.s \in {"local", "param"} -> h[<<src.s, f>>]
    [] OTHER -> {}
Added(p, h, pl) ==
  h[pl] \cup UNION {UNION {LET st == p.funs[f].body[j] IN
    CASE st.op = "set" /\ st.dst.d = "cell" /\ pl = <<"cell", st.dst.i>> -> At(h, f, st.src)
      [] st.op = "set" /\ st.dst.d # "cell" /\ pl = <<st.dst.d, f>> -> At(h, f, st.src)
      [] st.op = "pass" /\ pl = <<"param", st.g>> -> At(h, f, st.src)
      [] st.op = "pass" /\ st.keep /\ pl = <<"local", f>> -> h[<<"ret", st.g>>]
      [] OTHER -> {} : j \in DOMAIN p.funs[f].body} : f \in DOMAIN p.funs}
RECURSIVE HoldsFrom(_, _)
HoldsFrom(p, h) == LET n == TLCEval([pl \in DOMAIN h |-> Added(p, h, pl)]) IN IF n = h THEN h ELSE HoldsFrom(p, n)
Holds(p) == HoldsFrom(p, [pl \in Places(p) |-> {}])

Callees(p, h, f) ==
  UNION {LET st == p.funs[f].body[j] IN
    CASE st.op = "call" -> At(h, f, st.src) [] st.op = "pass" -> {st.g} [] OTHER -> {} : j \in DOMAIN p.funs[f].body}
RECURSIVE Closure(_, _)
Closure(next, S) == LET n == S \cup UNION {next[f] : f \in S} IN IF n = S THEN S ELSE Closure(next, n)
\* Pairs of a function and one with a capability that it may come to call.
May(p) ==
  LET h == Holds(p)
      next == TLCEval([f \in DOMAIN p.funs |-> Callees(p, h, f)])
  IN {[f |-> f, leaf |-> l] : f \in DOMAIN p.funs, l \in {l \in DOMAIN p.funs : p.funs[l].cap # ""}}
     \cap UNION {{[f |-> f, leaf |-> l] : l \in Closure(next, {f})} : f \in DOMAIN p.funs}
=============================================================================
