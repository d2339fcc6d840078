---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Conformance of recorded sessions of the real program: started with real *)
(* files, driven through its standard input and output.                    *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

VARIABLES p, l, skip, h
vars == <<p, l, skip, h>>
Trace == ndJsonDeserialize(IOEnv.TRACE)

\* A log may show a value that is not a number; what the register then holds is not specified.
Known(x) == \A i \in 1..19 : x.ctx.R[i] # C!L!DontCare
Same(e, x) == (e.r = x.r \/ (x.r = <<Offered>> /\ Len(e.r) = 1 /\ StartsWith(e.r[1], Offered))) /\ e.con = x.con
Answered(e, x) == Same(e, x) /\ e.acks = 1 /\ e.naks = 0 /\ e.noise = 0 /\ e.late = 0 /\ e.badsum = 0 /\ e.gone = 0
Right(e) ==
   CASE e.k = "launch" -> p.phase = "off"
     [] p.phase = "over" -> IF e.k = "leave" THEN e.ended = 1 /\ e.left = 0 /\ e.rc # 0 /\ e.errors = 1 /\ e.seen = 0 ELSE e.r = <<>> /\ e.con = ""
     [] e.k = "connect" -> e.gone = 0 /\ e.early = 0
     \* gone: the program ended (never by a fault of its own), having sent nothing but what was due
     [] e.k = "leave" -> e.ended = 1 /\ (e.left = 0 \/ e.how \in {"unacked", "both"}) /\ e.errors = 0
     [] OTHER -> Answered(e, Step(p, e))
Init == p = Off /\ l = 1 /\ skip = FALSE /\ h = -1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.ev = "H" THEN p' = Off /\ skip' = FALSE /\ h' = e.h
           ELSE /\ h' = h
                /\ IF skip THEN UNCHANGED <<p, skip>>
                   ELSE IF e.ev = "session" /\ Right(e)
                   THEN LET x == IF p.phase = "over" THEN p ELSE Step(p, e).p IN
                        p' = x /\ skip' = (e.k = "launch" /\ x.phase = "waiting" /\ ~Known(x.s))
                   ELSE /\ PrintT("MISMATCH " \o ToString(h) \o " line " \o ToString(l) \o " observed " \o ToString(e) \o " expected "
                                  \o (IF e.ev # "session" THEN "no crash" ELSE IF p.phase = "over" \/ e.k \in {"launch", "connect", "leave"} THEN "phase " \o p.phase
                                      ELSE LET x == Step(p, e) IN ToString(<<x.r, x.con>>)))
                        /\ skip' = TRUE /\ UNCHANGED p
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
