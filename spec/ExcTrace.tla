------------------------------ MODULE ExcTrace ------------------------------
(* Conformance of recorded programs of exceptions (harness/exc.c): what was seen is what the machine shows. *)
EXTENDS Exceptions, Json, IOUtils, TLC

VARIABLES l, h
vars == <<l, h>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ h = -1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.ev = "H" THEN h' = e.h
           ELSE /\ h' = h
                /\ IF e.ev = "prog" /\ e.out = Run(e.p) THEN TRUE
                   ELSE PrintT("MISMATCH " \o ToString(h) \o " line " \o ToString(l) \o " observed " \o ToString(IF e.ev = "prog" THEN e.out ELSE e)
                               \o (IF e.ev = "prog" THEN " expected " \o ToString(Run(e.p)) ELSE ""))
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
