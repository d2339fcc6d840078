------------------------------- MODULE MocksMC -------------------------------
(***************************************************************************)
(* Short histories of the stand-ins, each with the history kept beside it: *)
(* PART = heap (C28), file (C29), spy (C30) or size (C31).                  *)
(***************************************************************************)
EXTENDS Mocks, FiniteSets, Json, IOUtils, TLC

VARIABLES s, hist, res
\* hist: the operations done; res: [v, d, b]: their results and the state before.
vars == <<s, hist, res>>
Part == IOEnv.PART
Big == IOEnv.BIG = "1"
Emitting == IOEnv.EMIT = "1"
Depth == IF Emitting THEN (CASE Part = "heap" -> 5 [] Part = "file" -> 3 [] Part = "spy" -> 4 [] Part = "size" -> 4)
         ELSE (CASE Part = "heap" -> 6 [] Part = "file" -> 4 [] Part = "spy" -> 5 [] Part = "size" -> 4) + (IF Big THEN 1 ELSE 0)
Do(t, e) == CASE Part = "heap" -> DoHeap(t, e) [] Part = "spy" -> DoSpy(t, e)
              [] OTHER -> IF e.k = "size" THEN LET x == GetSize(t) IN R(x.s, IF x.c = 0 THEN x.v ELSE -x.c, <<>>) ELSE DoFile(t, e)
Possible(t, e) == CASE Part = "heap" -> HeapPossible(t, e) [] Part = "spy" -> SpyPossible(t, e) [] OTHER -> FilePossible(t, e)
A(k, a) == [E0(k) EXCEPT !.a = a]
M(k, a, m) == [A(k, a) EXCEPT !.m = m]
HeapSet == {A("fail", n) : n \in 0..3} \cup {E0("restore")} \cup {[A(k, 8) EXCEPT !.b = b] : k \in {"malloc", "realloc"}, b \in 1..2} \cup {[E0("free") EXCEPT !.b = b] : b \in 1..2} \cup {[E0("realloc") EXCEPT !.b = 1]}
Ab == <<97, 98, 10, 99>>
Lines == {<<>>, <<<<97, 98, 99>>>>, <<<<97, 98, 99>>, <<120, 10>>>>}
FileSet == {M("ifopen", 0, m) : m \in {"null", "given"}} \cup {E0(k) : k \in {"rfopen", "ifclose", "rfclose", "rfseek", "rftell", "rfwrite", "rfread", "rfgets", "ftell", "fclose"}}
           \cup {A("ifseek", v) : v \in {-1, 0}} \cup {A("pfseek", n) : n \in 1..2} \cup {A("iftell", -1), A("ifwrite", 0), A("ifwrite", 3), A("ifread", 1), A("nfread", 1), A("nfread", 2)}
           \cup {[E0("ifgets") EXCEPT !.l = l] : l \in Lines} \cup {M("fopen", 0, m) : m \in {"exists", "missing"}}
           \cup {M("fseek", 1, "set"), M("fseek", -1, "cur"), M("fseek", 0, "end")} \cup {[A("fwrite", 2) EXCEPT !.d = Ab]}
           \cup {[A("fread", 2) EXCEPT !.b = 2], A("fgets", 3), A("fgets", 40)}
SizeSet == {A("ifseek", -1), A("pfseek", 1), A("pfseek", 2), A("iftell", -1), A("iftell", -2000000000), E0("rfseek"), E0("rftell"), E0("size"), A("fgets", 40),
            M("fseek", 1, "set"), M("fseek", 9, "set"), M("fseek", 0, "end"), [A("fwrite", 2) EXCEPT !.d = Ab], [A("fread", 1) EXCEPT !.b = 3], E0("ftell")}
SpySet == {A("hook", 0), A("hook", 3), E0("unhook"), E0("count")} \cup {[E0(k) EXCEPT !.d = d] : k \in {"out", "err"}, d \in {<<>>, <<97, 98, 99>>, <<120, 121, 122, 123, 10>>}}
          \cup {A(k, n) : k \in {"qout", "qerr"}, n \in 1..4}
Ops == CASE Part = "heap" -> HeapSet [] Part = "file" -> FileSet [] Part = "spy" -> SpySet [] Part = "size" -> SizeSet
Start == CASE Part = "heap" -> HeapStart [] Part = "spy" -> SpyStart [] OTHER -> FileStart
Init == hist = <<>> /\ res = <<>> /\ \/ s = Start
                                     \/ Part \in {"file", "size"} /\ ~Emitting /\ s = [Start EXCEPT !.data = Ab \o Ab, !.pos = 3]
Next == /\ Len(hist) < Depth
        /\ \E e \in Ops : /\ Possible(s, e)
                          /\ LET x == Do(s, e) IN s' = x.s /\ hist' = Append(hist, e) /\ res' = Append(res, [v |-> x.v, d |-> x.d, b |-> s])
        /\ (Emitting /\ Len(hist') = Depth => PrintT("TEST " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
N == Len(hist)
\* Positions of the operations of some kinds, and the last of them (0: none).
At(ks) == {i \in 1..N : hist[i].k \in ks}
LastOf(set) == IF set = {} THEN 0 ELSE CHOOSE i \in set : \A j \in set : j <= i
\* C28: an allocation fails exactly when it is the requested one since the last request; a failing one and every free leave the rest alone.
Allocs == {"malloc", "realloc"}
HeapRight ==
   LET e == hist[N]
       req == LastOf(At({"fail", "restore"}))
       nth == Cardinality({i \in At(Allocs) : i > req})
       due == req > 0 /\ hist[req].k = "fail" /\ hist[req].a > 0 /\ nth = hist[req].a
       b == res[N].b
   IN /\ e.k \in Allocs => (res[N].v = 0) = due
      /\ (e.k \in Allocs /\ due) => s.live = b.live
      /\ \A p \in 1..Places : (e.k \in {"fail", "restore"} \/ e.b # p) => s.live[p] = b.live[p]
      /\ (e.k \in Allocs /\ ~due) => s.live[e.b] = e.a
\* C29: which call is affected follows from the requests since its own last restore alone.
Inj(k) == LastOf(At({"i" \o k, "r" \o k}))
InjectingAt(k, n) == LET i == LastOf({j \in At({"i" \o k, "r" \o k}) : j < n}) IN i > 0 /\ hist[i].k = "i" \o k
\* The n-th read, once failed, is the last one affected.
ReadDue(i) == LET w == LastOf({j \in At({"nfread"}) : j < i})
                  q == LastOf({j \in At({"ifread", "rfread"}) : j < i})
              IN w > q /\ InjectingAt("fread", i) /\ Cardinality({j \in At({"fread"}) : j > w /\ j <= i}) = hist[w].a
On(k) == Inj(k) > 0 /\ hist[Inj(k)].k = "i" \o k /\ (k = "fread" => \A i \in At({"fread"}) : (i > Inj(k) /\ i < N) => ~ReadDue(i))
FileRight ==
   LET e == hist[N]
       b == res[N].b
       p == Plain(b, e)
       v == res[N].v
       \* effects on the file itself
       same == s.data = b.data /\ s.pos = b.pos
       asPlain == v = p.v /\ res[N].d = p.d /\ s.data = p.s.data /\ s.pos = p.s.pos
       given == v = hist[Inj(e.k)].a /\ same
       rest == LastOf(At({"rfseek"}))
       pass == LastOf({i \in At({"pfseek"}) : i > rest})
       done == Cardinality({i \in At({"fseek"}) : i < N /\ i > pass /\ i > rest /\ InjectingAt("fseek", i)})
       which == LastOf({i \in At({"nfread"}) : i > Inj("fread")})
       reads == Cardinality({i \in At({"fread"}) : i < N /\ i > which})
       turns == Cardinality({i \in At({"fgets"}) : i < N /\ i > Inj("fgets")})
   IN CASE e.k \in FileInject -> same
        [] ~On(e.k) -> asPlain
        [] e.k = "fopen" -> v = (IF hist[Inj(e.k)].m = "given" THEN 2 ELSE 0) /\ same
        [] e.k = "fclose" -> v = 0 /\ res[N].d = <<0>> /\ same
        [] e.k \in {"ftell", "fwrite"} -> given
        [] e.k = "fseek" -> IF pass > 0 /\ done < hist[pass].a THEN asPlain ELSE given
        [] e.k = "fread" -> IF which = 0 THEN given
                            ELSE IF reads + 1 = hist[which].a THEN given ELSE asPlain
        [] e.k = "fgets" -> LET l == hist[Inj(e.k)].l
                                i == turns % (Len(l) + 1)
                            IN same /\ IF i = Len(l) THEN v = 0 ELSE v = 1 /\ res[N].d = SubSeq(l[i + 1], 1, Least(e.a - 1, Len(l[i + 1])))
\* C30: the outputs since the last hook, all of them.
SpyRight ==
   LET e == hist[N]
       hook == LastOf(At({"hook"}))
       on == hook > LastOf(At({"unhook"}))
       outs == {i \in At({"out", "err"}) : i > hook /\ i < N /\ \A u \in At({"unhook"}) : u < hook \/ u > i}
       nth == {i \in outs : Cardinality({j \in outs : j >= i}) = e.a}
   IN CASE e.k \in {"out", "err"} -> res[N].v = Len(e.d) /\ res[N].d = (IF on THEN <<>> ELSE e.d)
        [] e.k = "count" -> res[N].v = Cardinality(IF hook = 0 THEN {} ELSE outs)
        [] e.k \in {"qout", "qerr"} -> IF ~on \/ nth = {} THEN res[N].v = 0
                                       ELSE \E i \in nth : e.k = "q" \o hist[i].k /\ res[N].v = 1 /\ res[N].d = SubSeq(hist[i].d, 1, Least(hist[hook].a, Len(hist[i].d)))
        [] OTHER -> TRUE
\* C31
SizeRight ==
   LET e == hist[N]
       b == res[N].b
       bad == (b.seek.on /\ b.seek.pass < 2) \/ b.tell.on
   IN e.k = "size" => /\ s.data = b.data
                      /\ IF bad THEN res[N].v = -FileError ELSE res[N].v = Len(b.data) /\ s.pos = 0
Inv == N > 0 => CASE Part = "heap" -> HeapRight [] Part = "file" -> FileRight [] Part = "spy" -> SpyRight [] Part = "size" -> SizeRight
=============================================================================
