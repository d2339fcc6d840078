------------------------------ MODULE LogTrace ------------------------------
(* Conformance of recorded GDB log reads (harness/image.c, command "log"). *)
EXTENDS GdbLog, Json, IOUtils, SequencesExt

VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Before == <<42405, 42405>>               \* what the registers held before (0xA5A5A5A5)
Ctx0 == [flags |-> Before, R |-> [i \in 1..19 |-> Before], ePSR |-> Before, FPR |-> [i \in 1..33 |-> Before]]

ByteMatches(m, a, v, w) ==
   LET t == Resolve(m, a, 1) IN
   IF t.i = 0 THEN v = -1 /\ w = 0 ELSE v = At(m.r[t.i].data, t.o) /\ (w = 1) = ~m.r[t.i].ro
ProbesOK(m, ps) == \A i \in 1..Len(ps) : \A k \in 1..Len(ps[i].v) :
                      ByteMatches(m, WWrap(WAddN(ps[i].a, k - 1)), ps[i].v[k], ps[i].w[k])
WordOK(seen, want) == want = DontCare \/ seen = want
WordsOK(seen, want) == Len(seen) = Len(want) /\ \A i \in 1..Len(want) : WordOK(seen[i], want[i])

LogOK(e) ==
   LET x == LogDecode(EmptyMem, Ctx0, e.d) IN
   /\ e.c = x.c /\ e.open = 0
   /\ e.flags = x.ctx.flags /\ WordsOK(e.R, x.ctx.R) /\ e.ePSR = x.ctx.ePSR /\ WordsOK(e.FPR, x.ctx.FPR)
   /\ e.xml = Xml(x.m) /\ ProbesOK(x.m, e.p)
OK(e) == CASE e.ev = "log" -> LogOK(e) [] e.ev = "crash" -> FALSE [] OTHER -> TRUE
Expect(e) == IF e.ev = "log" THEN LET x == LogDecode(EmptyMem, Ctx0, e.d) IN ToString([c |-> x.c, xml |-> Xml(x.m), ctx |-> x.ctx]) ELSE "no crash"
Seen(e) == IF e.ev = "crash" THEN e.why ELSE ToString([c |-> e.c, msg |-> e.msg, open |-> e.open, xml |-> e.xml, flags |-> e.flags, R |-> e.R, FPR |-> e.FPR])
Hist(i) == Trace[CHOOSE j \in 1..i : Trace[j].ev = "H" /\ \A k \in (j+1)..i : Trace[k].ev # "H"].h

Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF OK(e) THEN TRUE
           ELSE PrintT("MISMATCH " \o ToString(Hist(l)) \o " line " \o ToString(l) \o " observed " \o Seen(e) \o " expected " \o Expect(e))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
