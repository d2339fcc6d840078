------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* The life of the program: started on a command line, waiting for GDB on  *)
(* standard input, answering it on standard output, and ending when GDB is *)
(* gone.  Composition of CmdLine.tla (what is debugged) and Platform.tla   *)
(* (what is answered).                                                     *)
(*   p: [phase, s]; phase - "off", "waiting", "talking" or "over".         *)
(***************************************************************************)
EXTENDS Platform
C == INSTANCE CmdLine

Off == [phase |-> "off", s |-> S(EmptyMem, C!Ctx0)]
\* Step(p, e): [p, r, con, code]; code: "" or whether the exit status says failure.
To(p, r, con, code) == [p |-> p, r |-> r, con |-> con, code |-> code]
Step(p, e) ==
   CASE e.k = "launch" -> LET x == C!Start(e.args, e.files)
                          IN IF x.c # 0 THEN To([Off EXCEPT !.phase = "over"], <<>>, "", "failed") ELSE To([phase |-> "waiting", s |-> S(x.m, x.ctx)], <<>>, "", "")
     \* anything GDB sends before its '+' is passed over
     [] e.k = "connect" -> To([p EXCEPT !.phase = "talking"], <<>>, "", "")
     [] e.k = "leave" -> To([Off EXCEPT !.phase = "over"], <<>>, "", "any")
     [] OTHER -> LET x == Do(p.s, e) IN To([p EXCEPT !.s = x.s], x.r, x.con, "")
Possible(p, e) == CASE e.k = "launch" -> p.phase = "off" [] e.k = "connect" -> p.phase = "waiting" [] e.k = "leave" -> p.phase \in {"waiting", "talking"}
                    [] OTHER -> p.phase = "talking"
=============================================================================
