----------------------------- MODULE ImageTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded image loads and dump reads (harness/image.c):   *)
(* each event is one call on a fresh memory with its complete observable   *)
(* outcome: exception, message, registers, memory map, and the bytes and   *)
(* permissions at probed addresses.                                        *)
(***************************************************************************)
EXTENDS Elf, Dump, Json, IOUtils, SequencesExt

VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Fill == <<42405, 42405>>                 \* what the registers held before (0xA5A5A5A5)
Ctx0 == [flags |-> Fill, R |-> [i \in 1..19 |-> Fill], ePSR |-> Fill, FPR |-> [i \in 1..33 |-> Fill]]

\* Probes: [a, v (byte values, -1 unmapped), w (1 = writable)].
ByteMatches(m, a, v, w) ==
   LET t == Resolve(m, a, 1) IN
   IF t.i = 0 THEN v = -1 /\ w = 0
   ELSE v = At(m.r[t.i].data, t.o) /\ (w = 1) = ~m.r[t.i].ro
ProbesOK(m, ps) == \A i \in 1..Len(ps) : \A k \in 1..Len(ps[i].v) :
                      ByteMatches(m, WWrap(WAddN(ps[i].a, k - 1)), ps[i].v[k], ps[i].w[k])
MsgOK(x, msg) == IF x.pre THEN StartsWith(msg, x.msg) ELSE msg = x.msg
\* Memory that must be intact even when the dump was refused: the regions of m.
KeptOK(m, ps) == \A i \in 1..Len(ps) : \A k \in 1..Len(ps[i].v) :
                    LET a == WWrap(WAddN(ps[i].a, k - 1)) IN
                    Resolve(m, a, 1).i # 0 => ByteMatches(m, a, ps[i].v[k], ps[i].w[k])

ElfOK(e) == LET x == ElfLoad(EmptyMem, e.d) IN
   /\ e.c = x.c
   /\ x.c # 0 => MsgOK(x, e.msg)
   /\ x.c = 0 => e.xml = Xml(x.m) /\ ProbesOK(x.m, e.p)
DumpOK(e) ==
   LET x == Decode(EmptyMem, Ctx0, IF e.kind = "hex" THEN HexStream(e.d) ELSE BinStream(e.d)) IN
   /\ e.c = x.c \/ (x.c = OutOfMemory /\ e.c = FormatError)
   /\ e.open = 0
   /\ x.c # 0 => MsgOK(x, e.msg)
   /\ IF x.any THEN KeptOK(x.m, e.p)
      ELSE /\ e.flags = x.ctx.flags /\ e.R = x.ctx.R /\ e.ePSR = x.ctx.ePSR
           /\ e.FPR = x.ctx.FPR
           /\ e.xml = Xml(x.m) /\ ProbesOK(x.m, e.p)
OK(e) == CASE e.ev = "elf" -> ElfOK(e) [] e.ev = "dump" -> DumpOK(e) [] e.ev = "crash" -> FALSE [] OTHER -> TRUE

Expect(e) == IF e.ev = "elf" THEN LET x == ElfLoad(EmptyMem, e.d) IN ToString([c |-> x.c, msg |-> x.msg, xml |-> Xml(x.m)])
             ELSE IF e.ev = "dump" THEN LET x == Decode(EmptyMem, Ctx0, IF e.kind = "hex" THEN HexStream(e.d) ELSE BinStream(e.d))
                                        IN ToString([c |-> x.c, msg |-> x.msg, any |-> x.any, xml |-> Xml(x.m), ctx |-> x.ctx])
             ELSE "no crash"
Seen(e) == IF e.ev = "crash" THEN e.why ELSE IF e.ev = "elf" THEN ToString([c |-> e.c, msg |-> e.msg, xml |-> e.xml])
           ELSE ToString([c |-> e.c, msg |-> e.msg, open |-> e.open, xml |-> e.xml, flags |-> e.flags, R |-> e.R, ePSR |-> e.ePSR])
Hist(i) == Trace[CHOOSE j \in 1..i : Trace[j].ev = "H" /\ \A k \in (j+1)..i : Trace[k].ev # "H"].h

Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF OK(e) THEN TRUE
           ELSE PrintT("MISMATCH " \o ToString(Hist(l)) \o " line " \o ToString(l) \o " observed " \o Seen(e) \o " expected " \o Expect(e))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
