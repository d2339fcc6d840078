----------------------------- MODULE MocksTrace -----------------------------
(* Conformance of recorded histories of the stand-ins (harness/mocks.c). *)
EXTENDS Mocks, Json, IOUtils, TLC

VARIABLES a, f, p, l, skip, h
vars == <<a, f, p, l, skip, h>>
\* a: the heap; f: the file; p: the spy
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* What is right for an event, and the state after it.
HeapOk(e) == LET x == DoHeap(a, e) IN (e.k \in {"malloc", "realloc", "many"} => e.v = x.v) /\ e.kept = 1
FileOk(e) == LET x == DoFile(f, e) IN /\ (e.k \in FileCalls \union {"mfseek", "mfread", "eofseek"} => e.v = x.v /\ e.r = x.d) /\ e.over = 0
                                      /\ e.data = x.s.data /\ e.pos = x.s.pos
SizeOk(e) == LET x == GetSize(f) IN e.c = x.c /\ e.data = x.s.data /\ (x.c = 0 => e.v = x.v /\ e.pos = x.s.pos)
SpyOk(e) == LET x == DoSpy(p, e) IN CASE e.k \in {"hook", "unhook"} -> TRUE [] OTHER -> e.v = x.v /\ e.r = x.d
\* A real file of any length (numbers as text): its exact size is told, it is at its start, and nothing in it changed.
RealOk(e) == IF e.seekable = 0 THEN e.c = FileError ELSE e.c = 0 /\ e.size = e.len /\ e.at = "0" /\ e.same = 1
Right(e) == CASE e.ev = "heap" -> HeapOk(e)
              [] e.ev = "file" -> IF e.k = "size" THEN SizeOk(e) ELSE FileOk(e)
              [] e.ev = "spy" -> SpyOk(e)
              [] e.ev = "real" -> RealOk(e)
              [] OTHER -> FALSE
Expected(e) == CASE e.ev = "heap" -> DoHeap(a, e) [] e.ev = "file" /\ e.k # "size" -> DoFile(f, e) [] e.ev = "file" -> GetSize(f) [] e.ev = "spy" -> DoSpy(p, e) [] OTHER -> "that it goes on"
Init == a = HeapStart /\ f = FileStart /\ p = SpyStart /\ l = 1 /\ skip = FALSE /\ h = -1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.ev = "H" THEN a' = HeapStart /\ f' = FileStart /\ p' = SpyStart /\ skip' = FALSE /\ h' = e.h
           ELSE /\ h' = h
                /\ IF skip THEN UNCHANGED <<a, f, p, skip>>
                   ELSE IF Right(e) THEN
                      /\ a' = (IF e.ev = "heap" THEN DoHeap(a, e).s ELSE a)
                      /\ f' = (IF e.ev # "file" THEN f ELSE IF e.k = "size" THEN [GetSize(f).s EXCEPT !.pos = e.pos] ELSE DoFile(f, e).s)
                      /\ p' = (IF e.ev = "spy" THEN DoSpy(p, e).s ELSE p)
                      /\ skip' = FALSE
                   ELSE /\ PrintT("MISMATCH " \o ToString(h) \o " line " \o ToString(l) \o " observed " \o ToString(e) \o " expected " \o ToString(Expected(e)))
                        /\ skip' = TRUE /\ UNCHANGED <<a, f, p>>
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
