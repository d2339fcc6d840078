------------------------------ MODULE ScriptMC ------------------------------
(***************************************************************************)
(* Short histories of the scripted stand-ins (PART = line or con), with    *)
(* the history beside them; C32 is stated over the history alone.          *)
(***************************************************************************)
EXTENDS Script, FiniteSets, Json, IOUtils, TLC

VARIABLES s, hist, res
vars == <<s, hist, res>>
Part == IOEnv.PART
Big == IOEnv.BIG = "1"
Emitting == IOEnv.EMIT = "1"
Depth == (IF Emitting \/ Part = "line" THEN 4 ELSE 5) + (IF Big THEN 1 ELSE 0)
A(k, a) == [O(k) EXCEPT !.a = a]
D(k, d, e) == [O(k) EXCEPT !.d = d, !.e = e]
Texts == {<<>>, <<36, 63, 35>>}                  \* nothing, "$?#"
LineSet == {D("init", d, e) : d \in Texts, e \in Texts} \cup {[D("init", <<43>>, <<>>) EXCEPT !.a = 1], [D("initsum", <<36, 255, 2, 35>>, <<>>) EXCEPT !.a = 1], D("initsum", <<>>, <<65, 35, 35>>)}
           \cup {O(k) : k \in {"has", "recv", "sent", "stop", "conn", "uninit"}} \cup {A("delay", n) : n \in {0, 2}} \cup {A("keep", n) : n \in {0, 2}}
           \cup {D("send", <<b>>, <<>>) : b \in {45, 200}} \cup {D("sum", <<36, 250, 10, 35>>, <<>>)} \cup {A("setstop", v) : v \in {0, 1}} \cup {A("setconn", v) : v \in {0, 1}}
ConSet == {A("sethx", 27), A("sethx", 0), A("sethv", 1), A("setrx", 27), A("setrx", 0), A("setwx", 1), A("setwx", 0), D("input", <<97, 200>>, <<>>), D("input", <<>>, <<>>), A("keep", 0), A("keep", 2),
           O("has"), O("read"), A("write", 98), A("write", 255), O("kept"), O("uninit")}
Ops == IF Part = "line" THEN LineSet ELSE ConSet
Do(t, o) == IF Part = "line" THEN DoLine(t, o) ELSE DoCon(t, o)
Possible(t, o) == IF Part = "line" THEN LinePossible(t, o) ELSE ConPossible(t, o)
Init == s = (IF Part = "line" THEN LineStart ELSE ConStart) /\ hist = <<>> /\ res = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : /\ Possible(s, o)
                          /\ LET x == Do(s, o) IN s' = x.s /\ hist' = Append(hist, o) /\ res' = Append(res, [c |-> x.c, v |-> x.v, d |-> x.d])
        /\ (Emitting /\ Len(hist') = Depth => PrintT("TEST " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
N == Len(hist)
LastOf(ks, n) == LET t == {i \in 1..n : hist[i].k \in ks} IN IF t = {} THEN 0 ELSE CHOOSE i \in t : \A j \in t : j <= i
Count(k, from) == Cardinality({i \in (from + 1)..N : hist[i].k = k})
Inits == {"init", "initsum"}
\* What a script plays: the checksum is the sum of what stands between '$' and '#'.
Play(d, sum) == IF ~sum THEN d
   ELSE LET upTo(i) == LET from == {j \in 1..i : d[j] = 36} b == IF from = {} THEN 0 ELSE CHOOSE j \in from : \A x \in from : x <= j
                       IN FoldLeft(LAMBDA acc, j : IF d[j] = 35 THEN acc ELSE acc + d[j], 0, [j \in 1..(i - b) |-> b + j]) % 256
            text(i) == IF d[i] = 35 THEN <<35, HexDigit(upTo(i - 1) \div 16), HexDigit(upTo(i - 1) % 16)>> ELSE <<d[i]>>
        IN FoldLeft(LAMBDA acc, i : acc \o text(i), <<>>, [i \in 1..Len(d) |-> i])
ScriptOf(i) == [b1 |-> Play(hist[i].d, hist[i].k = "initsum"), b2 |-> IF hist[i].a = 1 THEN NoPacket ELSE Play(hist[i].e, hist[i].k = "initsum")]
LineRight ==
   LET o == hist[N]
       x == res[N]
       i == LastOf(Inits, N)
       gone == LastOf({"uninit"}, N)
       recvs == {j \in (i + 1)..N : hist[j].k = "recv"}
       all == ScriptOf(i).b1 \o ScriptOf(i).b2
       k == LastOf({"keep"}, N)
       sends == {j \in (k + 1)..N : hist[j].k = "send"}
   IN CASE o.k = "recv" -> i > gone /\ x.v = all[Cardinality(recvs)]
        [] o.k = "has" -> /\ x.v = 1 => i > gone /\ Cardinality(recvs) < Len(all)
                          \* never denied without a reason: a wanted delay, or the end of a text not asked about before
                          /\ (x.v = 0 /\ i > gone /\ Cardinality(recvs) < Len(all)) =>
                                \/ LET q == LastOf({"delay"}, N) IN q > i /\ hist[q].a > Count("has", q) - 1 /\ Count("recv", q) = 0
                                \/ Cardinality(recvs) = Len(ScriptOf(i).b1)
        [] o.k = "sent" -> k > gone /\ x.d = Cut(FoldLeft(LAMBDA acc, j : IF j \in sends THEN acc \o hist[j].d ELSE acc, <<>>, [j \in 1..N |-> j]), hist[k].a)
        [] o.k = "sum" -> x.d = Play(o.d, TRUE)
        [] o.k = "stop" -> x.v = hist[LastOf({"setstop"}, N)].a
        [] o.k = "conn" -> LET q == LastOf({"setconn", "uninit"}, N) IN x.v = (IF q = 0 \/ hist[q].k = "uninit" THEN 1 ELSE hist[q].a)
        [] OTHER -> TRUE
SetTo(k) == LET q == LastOf({k, "uninit"}, N) IN IF q = 0 \/ hist[q].k = "uninit" THEN 0 ELSE hist[q].a
Threw(j) == res[j].c # 0
ConRight ==
   LET o == hist[N]
       x == res[N]
       i == LastOf({"input", "uninit"}, N)
       k == LastOf({"keep"}, N)
       reads == {j \in (i + 1)..N : hist[j].k = "read" /\ ~Threw(j)}
       data == IF i = 0 \/ hist[i].k = "uninit" THEN <<>> ELSE hist[i].d
       writes == {j \in (k + 1)..N : hist[j].k = "write" /\ ~Threw(j)}
   IN CASE o.k = "has" -> x.c = SetTo("sethx") /\ (x.c = 0 => x.v = SetTo("sethv"))
        [] o.k = "read" -> x.c = SetTo("setrx") /\ (x.c = 0 => x.v = IF Cardinality(reads) <= Len(data) THEN data[Cardinality(reads)] ELSE 0)
        [] o.k = "write" -> x.c = SetTo("setwx")
        [] o.k = "kept" -> x.d = Cut(FoldLeft(LAMBDA acc, j : IF j \in writes THEN Append(acc, hist[j].a) ELSE acc, <<>>, [j \in 1..N |-> j]), hist[k].a)
        [] OTHER -> x.c = 0
Inv == N > 0 => IF Part = "line" THEN LineRight ELSE ConRight
=============================================================================
