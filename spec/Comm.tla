-------------------------------- MODULE Comm --------------------------------
(***************************************************************************)
(* The line to GDB (libCrashDebug/src/StandardIComm.c over the console     *)
(* functions of main/MockDefaults.c): standard input and output with the   *)
(* ways they can fail, and whether GDB counts as connected.                *)
(*   s: [flag, in, q, out, o]: flag - a character has been received since  *)
(*   initialisation; in - "open", "end" (other side closed), "nowait"      *)
(*   (reading nothing is an error instead of waiting), "closed" or "dir"   *)
(*   (cannot be read); q - bytes waiting; out - "open", "closed", "gone"   *)
(*   (nobody reads) or "full"; o - bytes that came out.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

FileError == 27
Start == [flag |-> FALSE, in |-> "open", q |-> <<>>, out |-> "open", o |-> <<>>]
Broken(s) == s.in \in {"closed", "dir"}
\* Whether a read would return at once; a failing poll counts as no.
Ready(s) == CASE s.in = "closed" -> FALSE [] s.in = "dir" -> TRUE [] OTHER -> s.q # <<>> \/ s.in = "end"
Connected(s) == s.flag \/ Ready(s)
Waits(s) == s.in = "open" /\ s.q = <<>>
R(s, c, v) == [s |-> s, c |-> c, v |-> v]
B(x) == IF x THEN 1 ELSE 0
Do(s, e) ==
   \* what the debug monitor asks of its platform (mriPlatform.c, while it is run on the line) is what the line says
   CASE e.k = "pwaiting" -> R(s, 0, B(~Connected(s)))
     [] e.k = "pother" -> R(s, 0, 0)                             \* never an interrupt, never shared
     [] e.k = "init" -> R([s EXCEPT !.flag = FALSE], 0, 0)
     [] e.k = "put" -> R([s EXCEPT !.q = @ \o e.d], 0, 0)
     [] e.k = "file" -> R([s EXCEPT !.q = e.d, !.in = "end"], 0, 0)
     [] e.k = "eof" -> R([s EXCEPT !.in = "end"], 0, 0)
     [] e.k = "in" -> R([s EXCEPT !.in = e.m, !.q = <<>>], 0, 0)
     [] e.k = "out" -> R([s EXCEPT !.out = e.m, !.o = <<>>], 0, 0)
     [] e.k \in {"has", "phas"} -> R(s, 0, B(Ready(s)))
     [] e.k = "connected" -> R(s, 0, B(Connected(s)))
     [] e.k = "stop" -> R(s, 0, 0)
     [] e.k \in {"recv", "precv"} -> IF Broken(s) \/ s.q = <<>> THEN R(s, FileError, -1)
                        ELSE R([s EXCEPT !.q = Tail(@), !.flag = TRUE], 0, s.q[1])
     [] e.k \in {"send", "psend"} -> IF s.out = "open" THEN R([s EXCEPT !.o = Append(@, e.b)], 0, 0) ELSE R(s, FileError, 0)
     [] e.k = "drain" -> R([s EXCEPT !.o = <<>>], 0, 0)
     \* the same again e.times times: asking; e.len bytes through the line one way or the other (the value: how many bytes came through)
     [] e.k = "polls" -> R(s, 0, e.times * B(CASE e.what = "has" -> Ready(s) [] e.what = "stop" -> FALSE [] OTHER -> Connected(s)))
     [] e.k = "recvs" -> R([s EXCEPT !.flag = @ \/ e.times * e.len > 0], 0, e.times * e.len)
     [] e.k = "sends" -> R(s, 0, e.times * e.len)
     \* the console functions themselves
     [] e.k = "chas" -> IF s.in = "closed" THEN R(s, FileError, 0) ELSE R(s, 0, B(Ready(s)))
     [] e.k = "crecv" -> IF Broken(s) \/ s.q = <<>> THEN R(s, FileError, -1) ELSE R([s EXCEPT !.q = Tail(@)], 0, s.q[1])
     [] e.k = "csend" -> IF s.out = "open" THEN R([s EXCEPT !.o = Append(@, e.b)], 0, 0) ELSE R(s, FileError, 0)
\* What can be asked in a state (reading an open line with nothing on it would wait).
Possible(s, e) == CASE e.k \in {"recv", "crecv", "precv"} -> ~Waits(s) [] e.k = "put" -> s.in \in {"open", "nowait"} [] e.k = "eof" -> s.in \in {"open", "nowait"}
                    [] e.k = "drain" -> s.out = "open" [] e.k = "recvs" -> s.in = "open" /\ s.q = <<>> [] e.k = "sends" -> s.out = "open" /\ s.o = <<>>
                    [] OTHER -> TRUE
=============================================================================
