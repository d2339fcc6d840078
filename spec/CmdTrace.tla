------------------------------ MODULE CmdTrace ------------------------------
(* Conformance of recorded start-ups: in the process (harness/cmdline.c, ev "start") and as a program (ev "prog"). *)
EXTENDS CmdLine, Json, IOUtils

VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)

ByteMatches(m, a, v, w) ==
   LET t == Resolve(m, a, 1) IN
   IF t.i = 0 THEN v = -1 /\ w = 0 ELSE v = At(m.r[t.i].data, t.o) /\ (w = 1) = ~m.r[t.i].ro
ProbesOK(m, ps) == \A i \in 1..Len(ps) : \A k \in 1..Len(ps[i].v) :
                      ByteMatches(m, WWrap(WAddN(ps[i].a, k - 1)), ps[i].v[k], ps[i].w[k])
WordOK(seen, want) == want = L!DontCare \/ seen = want
WordsOK(seen, want) == Len(seen) = Len(want) /\ \A i \in 1..Len(want) : WordOK(seen[i], want[i])

\* An exception message keeps its first 1023 characters.
Prefix(x) == "ERROR: " \o (IF Len(x) > 1023 THEN SubSeq(x, 1, 1023) ELSE x)
Says(x, line) == IF x.pre THEN StartsWith(line, Prefix(x.msg)) /\ Len(line) > Len("ERROR: ") ELSE line = Prefix(x.msg)
\* What is printed for a refused start.
Explained(e) == /\ e.out = 0 /\ e.errors = 1 /\ StartsWith(e.err1, "ERROR: ") /\ Len(e.err1) > Len("ERROR: ")
                /\ ~HasSub(e.err1, "(null)") /\ Len(e.err1) < e.copyright /\ e.copyright < e.usage /\ e.opts = 1
Refused(e, x) == /\ e.c # 0
                 /\ x.c = e.c \/ x.c = -1 \/ {x.c, e.c} \subseteq {OutOfMemory, BusError, D!FormatError}    \* a region may fail for several reasons at once
                 /\ Explained(e) /\ Says(x, e.err1)
                 /\ e.fds = 0 /\ e.live = 0 /\ e.badfree = 0 /\ e.nomem = 1
Started(e, x) == /\ e.c = 0 /\ e.out = 0 /\ e.err = 0 /\ e.fds = 0 /\ e.live = 0 /\ e.badfree = 0
                 /\ e.flags = x.ctx.flags /\ WordsOK(e.R, x.ctx.R) /\ e.ePSR = x.ctx.ePSR /\ WordsOK(e.FPR, x.ctx.FPR)
                 /\ e.xml = Xml(x.m) /\ ProbesOK(x.m, e.p)
\* An injected fault was met: the start is refused with an explanation, or nothing at all was lost by it.
Faulted(e) == /\ e.c # 0 /\ Explained(e) /\ e.fds = 0 /\ e.live = 0 /\ e.badfree = 0 /\ e.nomem = 1
              /\ CASE e.fault = "malloc" -> e.c = OutOfMemory /\ \E t \in {"memory", "allocat", "alias"} : HasSub(e.err1, t)   \* what could not be had
                   [] e.fault = "fopen" -> e.c = FileError /\ StartsWith(e.err1, "ERROR: Failed to open ")
                   [] e.fault \in {"fseek", "ftell"} -> e.c = FileError /\ StartsWith(e.err1, "ERROR: Failed to ")
                   [] OTHER -> e.c \in {FileError, D!FormatError, D!StackOverflow}
StartOK(e) == LET x == Start(e.args, e.files) IN
              IF e.fault = "" THEN (IF x.c = 0 THEN Started(e, x) ELSE Refused(e, x))
              ELSE Faulted(e) \/ (IF x.c = 0 THEN Started(e, x) ELSE Refused(e, x))

\* The program itself: exit status and output (it is given no input, so it ends when it wants to read).
ProgOK(e) == LET x == Start(e.args, e.files) IN
             IF x.c = 0 THEN e.errors = 0 ELSE e.rc # 0 /\ Explained(e) /\ Says(x, e.err1)

OK(e) == CASE e.ev = "start" -> StartOK(e) [] e.ev = "prog" -> ProgOK(e) [] e.ev = "crash" -> FALSE [] OTHER -> TRUE
Expect(e) == IF e.ev \in {"start", "prog"} THEN LET x == Start(e.args, e.files) IN ToString([c |-> x.c, msg |-> x.msg, xml |-> Xml(x.m), ctx |-> x.ctx]) ELSE "no crash"
Seen(e) == CASE e.ev = "crash" -> e.why
             [] e.ev = "prog" -> ToString([rc |-> e.rc, err1 |-> e.err1, out |-> e.out, errors |-> e.errors, copyright |-> e.copyright, usage |-> e.usage])
             [] OTHER -> ToString([c |-> e.c, err1 |-> e.err1, fault |-> e.fault, out |-> e.out, errors |-> e.errors, fds |-> e.fds, live |-> e.live,
                              badfree |-> e.badfree, nomem |-> e.nomem, xml |-> e.xml])
Hist(i) == Trace[CHOOSE j \in 1..i : Trace[j].ev = "H" /\ \A k \in (j+1)..i : Trace[k].ev # "H"].h

Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF OK(e) THEN TRUE
           ELSE PrintT("MISMATCH " \o ToString(Hist(l)) \o " line " \o ToString(l) \o " observed " \o Seen(e) \o " expected " \o Expect(e))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
