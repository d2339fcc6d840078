----------------------------- MODULE Exceptions -----------------------------
(***************************************************************************)
(* Exceptions (include/try_catch.h) as a machine: a program is a sequence  *)
(* of instructions, a stack of active handlers, a stack of calls, and the  *)
(* pending code and message.                                               *)
(* Instructions [k, n, t]:                                                 *)
(*   try .. catch .. end    body, handler                                  *)
(*   call .. endcall        a function; "ret" leaves the innermost one     *)
(*                          with __nothrow (never from inside a body)      *)
(*   throw n; msg n t (throw with message t); rethrow; clear; set n        *)
(* Run(p) is what is seen: at every handler entered, after every try and   *)
(* call, and at the end: [at, code, msg].                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Limit == 1023
Cut(t) == SubSeq(t, 1, IF Len(t) < Limit THEN Len(t) ELSE Limit)
I(k) == [k |-> k, n |-> 0, t |-> ""]
Opens == {"try", "call"}

\* Where the part opened at i continues: "catch" and "end" of a try, "endcall" of a call.
RECURSIVE Find(_, _, _, _)
Find(p, i, what, depth) ==
   LET k == p[i].k IN
   IF depth = 0 /\ k = what THEN i
   ELSE Find(p, i + 1, what, IF k \in Opens THEN depth + 1 ELSE IF k \in {"end", "endcall"} THEN depth - 1 ELSE depth)
CatchOf(p, i) == Find(p, i + 1, "catch", 0)
EndOf(p, i) == Find(p, i + 1, "end", 0)
EndCallOf(p, i) == Find(p, i + 1, "endcall", 0)

\* The same for a whole program: the catch of every try, the end of every catch and call (0 of others), with the parts still open on a stack.
Match(p) ==
   LET one(acc, i) ==
         LET k == p[i].k
             n == Len(acc.open)
         IN CASE k \in Opens -> [acc EXCEPT !.open = Append(@, i)]
              [] k = "catch" -> [acc EXCEPT !.to[acc.open[n]] = i, !.open[n] = i]
              [] k \in {"end", "endcall"} -> [acc EXCEPT !.to[acc.open[n]] = i, !.open = Front(@)]
              [] OTHER -> acc
   IN FoldLeft(one, [open |-> <<>>, to |-> [i \in 1..Len(p) |-> 0]], [i \in 1..Len(p) |-> i]).to
MatchRight(p) == \A i \in 1..Len(p) : LET t == Match(p) IN
                   /\ p[i].k = "try" => t[i] = CatchOf(p, i) /\ t[t[i]] = EndOf(p, i)
                   /\ p[i].k = "call" => t[i] = EndCallOf(p, i)

\* ---- the machine -----------------------------------------------------------
\* hs: handlers, innermost last: [pc of the try, calls active then]; cs: pcs of the calls being run; run: "on", "done" or "uncaught".
Init0 == [pc |-> 1, hs |-> <<>>, cs |-> <<>>, code |-> 0, msg |-> "", out |-> <<>>, run |-> "on"]
See(m, at) == [m EXCEPT !.out = Append(@, [at |-> at, code |-> m.code, msg |-> m.msg])]
Higher(a, b) == IF a > b THEN a ELSE b
\* The body is left (either way): the previous handler is in force again; a pending code selects the handler's code.
Left(t, m, try) == IF m.code # 0 THEN See([m EXCEPT !.pc = t[try] + 1], "catch") ELSE [m EXCEPT !.pc = t[t[try]]]
Throw(t, m, n) ==
   LET x == [m EXCEPT !.code = Higher(n, @)] IN
   IF m.hs = <<>> THEN See([x EXCEPT !.run = "uncaught"], "uncaught")
   ELSE LET h == m.hs[Len(m.hs)] IN Left(t, [x EXCEPT !.hs = Front(@), !.cs = SubSeq(@, 1, h.calls)], h.pc)
Step(p, t, m) ==
   IF m.pc > Len(p) THEN See([m EXCEPT !.run = "done"], "done")
   ELSE LET i == p[m.pc]
            next == [m EXCEPT !.pc = @ + 1]
        IN CASE i.k = "try" -> [next EXCEPT !.hs = Append(@, [pc |-> m.pc, calls |-> Len(m.cs)]), !.code = 0, !.msg = ""]
             [] i.k = "catch" -> Left(t, [m EXCEPT !.hs = Front(@)], m.hs[Len(m.hs)].pc)           \* the end of the body
             [] i.k = "end" -> See(next, "end")
             [] i.k = "call" -> [next EXCEPT !.cs = Append(@, m.pc)]
             [] i.k = "endcall" -> See([next EXCEPT !.cs = Front(@)], "endcall")
             [] i.k = "ret" -> [m EXCEPT !.code = 0, !.pc = t[m.cs[Len(m.cs)]]]
             [] i.k = "throw" -> Throw(t, m, i.n)
             [] i.k = "msg" -> Throw(t, [m EXCEPT !.msg = Cut(i.t)], i.n)
             [] i.k = "rethrow" -> Throw(t, m, m.code)
             [] i.k = "clear" -> [next EXCEPT !.code = 0]
             [] i.k = "set" -> [next EXCEPT !.code = Higher(i.n, @)]
\* No instruction runs twice.
Run(p) == LET t == Match(p) IN FoldLeft(LAMBDA m, i : IF m.run # "on" THEN m ELSE Step(p, t, m), Init0, [i \in 1..(Len(p) + 1) |-> i]).out

\* ---- the same, told by the structure of the program alone -----------------------
\* st: [code, msg, out, how]: how - "ok", "thrown" (looking for a handler), "returned" (leaving a call) or "uncaught".
RECURSIVE Tell(_, _, _, _, _)
\* inside: whether some try surrounds
Tell(p, i, j, st, inside) ==                   \* instructions i..j
   IF i > j \/ st.how # "ok" THEN st
   ELSE LET note(s, at) == [s EXCEPT !.out = Append(@, [at |-> at, code |-> s.code, msg |-> s.msg])]
            thrown(s) == IF inside THEN [s EXCEPT !.how = "thrown"] ELSE note([s EXCEPT !.how = "uncaught"], "uncaught")
            x == p[i]
        IN CASE x.k = "try" ->
                  LET c == CatchOf(p, i)
                      e == EndOf(p, i)
                      body == Tell(p, i + 1, c - 1, [st EXCEPT !.code = 0, !.msg = ""], TRUE)
                      over == [body EXCEPT !.how = "ok"]
                      handled == IF over.code = 0 THEN over ELSE Tell(p, c + 1, e - 1, note(over, "catch"), inside)
                  IN Tell(p, e + 1, j, IF handled.how = "ok" THEN note(handled, "end") ELSE handled, inside)
             [] x.k = "call" ->
                  LET e == EndCallOf(p, i)
                      f == Tell(p, i + 1, e - 1, st, inside)
                  IN Tell(p, e + 1, j, IF f.how \in {"ok", "returned"} THEN note([f EXCEPT !.how = "ok"], "endcall") ELSE f, inside)
             [] x.k = "ret" -> [st EXCEPT !.code = 0, !.how = "returned"]
             [] x.k = "throw" -> thrown([st EXCEPT !.code = Higher(x.n, @)])
             [] x.k = "msg" -> thrown([st EXCEPT !.code = Higher(x.n, @), !.msg = Cut(x.t)])
             [] x.k = "rethrow" -> thrown(st)
             [] x.k = "clear" -> Tell(p, i + 1, j, [st EXCEPT !.code = 0], inside)
             [] x.k = "set" -> Tell(p, i + 1, j, [st EXCEPT !.code = Higher(x.n, @)], inside)
Told(p) == LET st == Tell(p, 1, Len(p), [code |-> 0, msg |-> "", out |-> <<>>, how |-> "ok"], FALSE)
           IN IF st.how = "uncaught" THEN st.out ELSE Append(st.out, [at |-> "done", code |-> st.code, msg |-> st.msg])
=============================================================================
