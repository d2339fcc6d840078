------------------------------ MODULE CommTrace ------------------------------
(* Conformance of recorded histories of the line to GDB (harness/comm.c). *)
EXTENDS Comm, Json, IOUtils, TLC

VARIABLES s, l, skip, h
vars == <<s, l, skip, h>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* An event holds what was done (k, d, m, b), the exception code c, the result v and, for "drain", the bytes d that came out.
Right(e) ==
   IF e.k = "drain" THEN e.d = s.o
   ELSE IF e.k \in {"wait"} THEN Waits(s)                      \* the harness did not ask: nothing to read, the call would wait
   ELSE LET x == Do(s, e) IN e.c = x.c /\ (x.c = 0 /\ e.k \in {"has", "connected", "stop", "recv", "chas", "crecv", "phas", "pwaiting", "pother", "precv", "polls", "recvs", "sends"} => e.v = x.v) /\ e.left = 0
                             /\ (e.k \in {"recvs", "sends"} => e.odd = 0)
After(e) == IF e.k = "wait" THEN s ELSE Do(s, e).s
Init == s = Start /\ l = 1 /\ skip = FALSE /\ h = -1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.ev = "H" THEN s' = Start /\ skip' = FALSE /\ h' = e.h
           ELSE /\ h' = h
                /\ IF skip THEN UNCHANGED <<s, skip>>
                   ELSE IF e.ev = "comm" /\ Right(e) THEN s' = After(e) /\ skip' = FALSE
                   ELSE /\ PrintT("MISMATCH " \o ToString(h) \o " line " \o ToString(l) \o " observed " \o ToString(e) \o " expected "
                                  \o (IF e.ev = "comm" /\ e.k # "wait" THEN ToString(Do(s, e)) ELSE "no crash") \o " in " \o ToString(s))
                        /\ skip' = TRUE /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
