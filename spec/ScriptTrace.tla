----------------------------- MODULE ScriptTrace -----------------------------
(* Conformance of recorded histories of the scripted stand-ins (harness/script.cpp). *)
EXTENDS Script, Json, IOUtils, TLC

VARIABLES a, b, l, skip, h
vars == <<a, b, l, skip, h>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Want(e) == IF e.ev = "line" THEN DoLine(a, e) ELSE DoCon(b, e)
Right(e) == e.ev \in {"line", "con"} /\ LET x == Want(e) IN /\ e.c = x.c /\ e.left = 0
                                                           /\ (e.k \in {"has", "recv", "stop", "conn", "read"} /\ x.c = 0 => e.v = x.v)
                                                           /\ (e.k \in {"recvs", "sent", "sum", "reads", "kept"} => e.r = x.d)
Init == a = LineStart /\ b = ConStart /\ l = 1 /\ skip = FALSE /\ h = -1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.ev = "H" THEN a' = LineStart /\ b' = ConStart /\ skip' = FALSE /\ h' = e.h
           ELSE /\ h' = h
                /\ IF skip THEN UNCHANGED <<a, b, skip>>
                   ELSE IF Right(e) THEN
                      /\ a' = (IF e.ev = "line" THEN Want(e).s ELSE a)
                      /\ b' = (IF e.ev = "con" THEN Want(e).s ELSE b)
                      /\ skip' = FALSE
                   ELSE /\ PrintT("MISMATCH " \o ToString(h) \o " line " \o ToString(l) \o " observed " \o ToString(e) \o " expected "
                                  \o (IF e.ev \in {"line", "con"} THEN ToString([Want(e) EXCEPT !.s = "state"]) ELSE "no crash"))
                        /\ skip' = TRUE /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
