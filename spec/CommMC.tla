------------------------------- MODULE CommMC -------------------------------
(***************************************************************************)
(* Every history of the line with at most two bytes under way each way.    *)
(* C25 is stated over what went in and what came out.                      *)
(***************************************************************************)
EXTENDS Comm, Json, IOUtils, TLC

VARIABLES s, got, given, sent, seen, ever, last, hist
\* given/got: bytes written to standard input / received, since the line was opened; sent/seen: the same for standard output.
\* ever: a character was received through the line since init.
vars == <<s, got, given, sent, seen, ever, last, hist>>
Emitting == IOEnv.EMIT = "1"
Big == IOEnv.BIG = "1"
Depth == IF Big THEN 8 ELSE 6
Bytes == {0, 255, 36}
E0(k) == [k |-> k, d |-> <<>>, m |-> "", b |-> 0]
Ops == {E0(k) : k \in {"init", "eof", "has", "connected", "stop", "recv", "drain", "chas", "crecv"} \cup (IF Emitting THEN {} ELSE {"phas", "pwaiting", "pother", "precv"})}
       \cup {[E0("put") EXCEPT !.d = <<b>>] : b \in Bytes} \cup {[E0("file") EXCEPT !.d = d] : d \in {<<>>, <<128, 10>>}}
       \cup {[E0("send") EXCEPT !.b = b] : b \in Bytes} \cup {[E0(k) EXCEPT !.b = 128] : k \in IF Emitting THEN {"csend"} ELSE {"csend", "psend"}}
       \cup {[E0("in") EXCEPT !.m = m] : m \in {"open", "nowait", "closed", "dir"}} \cup {[E0("out") EXCEPT !.m = m] : m \in {"open", "closed", "gone", "full"}}
Init == s = Start /\ got = <<>> /\ given = <<>> /\ sent = <<>> /\ seen = <<>> /\ ever = FALSE /\ last = [e |-> E0("none"), c |-> 0, v |-> 0, before |-> Start] /\ hist = <<>>
Next ==
   /\ Len(hist) < Depth
   /\ \E e \in Ops :
        /\ Possible(s, e) /\ (e.k = "put" => Len(s.q) < 2) /\ (e.k \in {"send", "csend", "psend"} => Len(s.o) < 2)
        /\ LET x == Do(s, e) IN
           /\ s' = x.s /\ hist' = Append(hist, e) /\ last' = [e |-> e, c |-> x.c, v |-> x.v, before |-> s]
           /\ given' = CASE e.k = "put" -> given \o e.d [] e.k = "file" -> e.d [] e.k = "in" -> <<>> [] OTHER -> given
           /\ got' = CASE e.k \in {"recv", "crecv", "precv"} /\ x.c = 0 -> Append(got, x.v) [] e.k \in {"file", "in"} -> <<>> [] OTHER -> got
           /\ sent' = CASE e.k \in {"send", "csend", "psend"} /\ x.c = 0 -> Append(sent, e.b) [] e.k = "out" -> <<>> [] OTHER -> sent
           /\ seen' = CASE e.k = "drain" -> seen \o s.o [] e.k = "out" -> <<>> [] OTHER -> seen
           /\ ever' = IF e.k = "init" THEN FALSE ELSE ever \/ (e.k \in {"recv", "precv"} /\ x.c = 0)
   /\ (Emitting => PrintT("TEST " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
View == <<s, Len(got) > 0, ever, last.e, last.c>>
SmallView == s
----------------------------------------------------------------------------
\* Bytes arrive unchanged and in order, none is lost or made up.
InOrder == given = got \o s.q /\ sent = seen \o s.o
\* Connected from the first received character on or when input is pending; never before.
ConnectedRight ==
   LET b == last.before IN
   last.e.k \in {"connected", "pwaiting"} => (last.v = (IF last.e.k = "connected" THEN 1 ELSE 0)) = (ever \/ (b.in # "closed" /\ (b.q # <<>> \/ b.in \in {"end", "dir"})))
FlagRight == s.flag = ever
\* Looking changes nothing; failing changes nothing; polling never fails; running never stops by itself.
Looking == last.e.k \in {"has", "chas", "connected", "stop", "phas", "pwaiting", "pother"} => s = last.before
Failing == last.c # 0 => s = last.before /\ last.c = FileError /\ last.e.k \notin {"has", "connected", "stop", "init", "phas", "pwaiting", "pother"}
\* At the end of the input, or when it cannot be read, receiving is an error (it never waits or makes up characters).
EndReported == (last.e.k \in {"recv", "crecv", "precv"} /\ (last.before.q = <<>> \/ Broken(last.before))) => last.c = FileError
Inv == InOrder /\ ConnectedRight /\ FlagRight /\ Looking /\ Failing /\ EndReported
=============================================================================
