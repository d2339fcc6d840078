-------------------------------- MODULE ExcMC --------------------------------
(***************************************************************************)
(* Every well-formed program of a few instructions is written and then run *)
(* on the machine.  C27: what the machine shows is what the nesting of the *)
(* program says: the innermost active handler catches, and so on.          *)
(***************************************************************************)
EXTENDS Exceptions, Json, IOUtils, TLC

VARIABLES p, open, m
\* open: what is not closed yet: "body", "handler", "call"
vars == <<p, open, m>>
Big == IOEnv.BIG = "1"
Emitting == IOEnv.EMIT = "1"
Size == IF Big THEN 8 ELSE 7
Top == IF open = <<>> THEN "" ELSE open[Len(open)]
\* Closing everything still open takes so many instructions.
Need(o) == Len(SelectSeq(o, LAMBDA x : x = "body")) * 2 + Len(SelectSeq(o, LAMBDA x : x # "body"))
Swap(o, x) == Append(Front(o), x)
CanReturn == \E i \in 1..Len(open) : open[i] = "call" /\ \A j \in i..Len(open) : open[j] # "body"
Thrown == {[k |-> "throw", n |-> 5, t |-> ""], [k |-> "msg", n |-> 9, t |-> "m"]} \cup (IF Big THEN {[k |-> "msg", n |-> 2, t |-> "l"]} ELSE {})
Init == p = <<>> /\ open = <<>> /\ m = [Init0 EXCEPT !.run = "write"]
Write(i, o) == /\ Len(p) + 1 + Need(o) <= Size /\ p' = Append(p, i) /\ open' = o /\ UNCHANGED m
Next ==
   \/ /\ m.run = "write"
      /\ \/ Write(I("try"), Append(open, "body")) \/ Write(I("call"), Append(open, "call"))
         \/ Top = "body" /\ Write(I("catch"), Swap(open, "handler"))
         \/ Top = "handler" /\ Write(I("end"), Front(open))
         \/ Top = "call" /\ Write(I("endcall"), Front(open))
         \/ CanReturn /\ Write(I("ret"), open)
         \/ \E i \in Thrown \cup {I("rethrow"), I("clear"), [k |-> "set", n |-> 7, t |-> ""]} : Write(i, open)
         \/ p # <<>> /\ open = <<>> /\ m' = Init0 /\ UNCHANGED <<p, open>>
   \/ m.run = "on" /\ m' = Step(p, Match(p), m) /\ UNCHANGED <<p, open>>
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Over == m.run \in {"done", "uncaught"}
AsNested == Over => m.out = Told(p)
\* Handlers active at any moment: exactly the bodies being run, innermost last.
Around(i) == {j \in 1..(i - 1) : p[j].k = "try" /\ CatchOf(p, j) >= i}
ActiveRight == (m.run = "on" /\ m.pc <= Len(p)) => {m.hs[i].pc : i \in 1..Len(m.hs)} = Around(m.pc) /\ \A i \in 1..(Len(m.hs) - 1) : m.hs[i].pc < m.hs[i + 1].pc
\* Nothing is left behind, and a program that throws nothing shows nothing.
Clean == m.run = "done" => m.hs = <<>> /\ m.cs = <<>>
NothingFromNothing == (Over /\ \A i \in 1..Len(p) : p[i].k \notin {"throw", "msg", "set", "rethrow"}) => m.run = "done" /\ \A i \in 1..Len(m.out) : m.out[i].code = 0 /\ m.out[i].at # "catch"
MatchAsFound == (m.run = "on" /\ m.pc = 1) => MatchRight(p)
Inv == MatchAsFound /\ AsNested /\ ActiveRight /\ Clean /\ NothingFromNothing
Emit == (Emitting /\ Over) => PrintT("TEST " \o ToJson(p))
=============================================================================
