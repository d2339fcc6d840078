------------------------------- MODULE Script -------------------------------
(***************************************************************************)
(* The scripted stand-ins for the line to GDB (libCrashDebug/mocks):       *)
(* mockIComm, which plays up to two texts to whoever receives and keeps    *)
(* what is sent, and mockConsole, which does so a layer below.             *)
(*   An operation is [k, a, d, e]: a number, and bytes.                    *)
(*   Do(s, o) = [s, c, v, d]: state, exception code, result, bytes.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

O(k) == [k |-> k, a |-> 0, d |-> <<>>, e |-> <<>>]
R(s, c, v, d) == [s |-> s, c |-> c, v |-> v, d |-> d]
Cut(d, n) == SubSeq(d, 1, IF n < Len(d) THEN n ELSE Len(d))

\* ---- the line ------------------------------------------------------------------
\* b: what is left of the two texts; i: the text being received (3: none any more); delay: questions still to be denied;
\* stop, conn: the answers to be given (-1: not known); tx: [on, size, d] what was sent.
LineStart == [b |-> <<<<>>, <<>>>>, i |-> 1, delay |-> 0, stop |-> -1, conn |-> 1, tx |-> [on |-> FALSE, size |-> 0, d |-> <<>>]]
NoPacket == <<36, 35, 48, 48>>                   \* $#00
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
\* A text with the checksum of each packet put after its '#'.
Summed(d) ==
   LET one(acc, c) == CASE c = 36 -> [d |-> Append(acc.d, c), n |-> 0]
                        [] c = 35 -> [acc EXCEPT !.d = @ \o <<c, HexDigit(acc.n \div 16), HexDigit(acc.n % 16)>>]
                        [] OTHER -> [d |-> Append(acc.d, c), n |-> (acc.n + c) % 256]
   IN FoldLeft(one, [d |-> <<>>, n |-> 0], d).d
Script(s, d, e) == [s EXCEPT !.b = <<d, e>>, !.i = 1, !.delay = 0]
\* Asked whether there is something: denied as often as wanted, and once at the end of each text.
Has(s) == IF s.delay > 0 THEN R([s EXCEPT !.delay = @ - 1], 0, 0, <<>>)
          ELSE IF s.i > 2 THEN R(s, 0, 0, <<>>)
          ELSE IF s.b[s.i] = <<>> THEN R([s EXCEPT !.i = @ + 1], 0, 0, <<>>)
          ELSE R(s, 0, 1, <<>>)
Next2(s) == IF s.i > 2 THEN 3 ELSE IF s.b[s.i] # <<>> THEN s.i ELSE IF s.i = 1 /\ s.b[2] # <<>> THEN 2 ELSE 3
DoLine(s, o) ==
   CASE o.k = "init" -> R(Script(s, o.d, IF o.a = 1 THEN NoPacket ELSE o.e), 0, 0, <<>>)
     [] o.k = "initsum" -> R(Script(s, Summed(o.d), IF o.a = 1 THEN NoPacket ELSE Summed(o.e)), 0, 0, <<>>)
     [] o.k = "delay" -> R([s EXCEPT !.delay = o.a], 0, 0, <<>>)
     [] o.k = "has" -> Has(s)
     \* receiving waits as long as is needed
     [] o.k = "recv" -> LET j == Next2(s) IN R([s EXCEPT !.delay = 0, !.i = j, !.b[j] = Tail(@)], 0, s.b[j][1], <<>>)
     [] o.k = "recvs" -> LET j == Next2(s) IN R([s EXCEPT !.delay = 0, !.i = j, !.b[j] = SubSeq(@, o.a + 1, Len(@))], 0, 0, SubSeq(s.b[j], 1, o.a))
     [] o.k = "keep" -> R([s EXCEPT !.tx = [on |-> TRUE, size |-> o.a, d |-> <<>>]], 0, 0, <<>>)
     [] o.k = "send" -> R([s EXCEPT !.tx.d = IF s.tx.on THEN Cut(@ \o o.d, s.tx.size) ELSE @], 0, 0, <<>>)
     [] o.k = "sent" -> R(s, 0, 0, s.tx.d)
     [] o.k = "sum" -> R(s, 0, 0, Summed(o.d))
     [] o.k = "setstop" -> R([s EXCEPT !.stop = o.a], 0, 0, <<>>)
     [] o.k = "stop" -> R(s, 0, s.stop, <<>>)
     [] o.k = "setconn" -> R([s EXCEPT !.conn = o.a], 0, 0, <<>>)
     [] o.k = "conn" -> R(s, 0, s.conn, <<>>)
     [] o.k = "uninit" -> R([s EXCEPT !.b = <<<<>>, <<>>>>, !.stop = -1, !.conn = 1, !.tx = LineStart.tx], 0, 0, <<>>)
LinePossible(s, o) == CASE o.k = "recv" -> Next2(s) < 3
                        [] o.k = "recvs" -> IF Next2(s) < 3 THEN o.a > 0 /\ o.a <= Len(s.b[Next2(s)]) ELSE FALSE
                        [] o.k = "sent" -> s.tx.on
                        [] o.k = "stop" -> s.stop # -1
                        [] OTHER -> TRUE

\* ---- the console ---------------------------------------------------------------
\* hx, rx, wx: the exceptions to throw (0 none); hv: the answer whether there is input; q: the input; cap: [on, size, d] the output kept.
ConStart == [hx |-> 0, hv |-> 0, rx |-> 0, q |-> <<>>, wx |-> 0, cap |-> [on |-> FALSE, size |-> 0, d |-> <<>>]]
DoCon(s, o) ==
   CASE o.k = "sethx" -> R([s EXCEPT !.hx = o.a], 0, 0, <<>>)
     [] o.k = "sethv" -> R([s EXCEPT !.hv = o.a], 0, 0, <<>>)
     [] o.k = "setrx" -> R([s EXCEPT !.rx = o.a], 0, 0, <<>>)
     [] o.k = "input" -> R([s EXCEPT !.q = o.d], 0, 0, <<>>)
     [] o.k = "setwx" -> R([s EXCEPT !.wx = o.a], 0, 0, <<>>)
     [] o.k = "keep" -> R([s EXCEPT !.cap = [on |-> TRUE, size |-> o.a, d |-> <<>>]], 0, 0, <<>>)
     [] o.k = "has" -> IF s.hx # 0 THEN R(s, s.hx, 0, <<>>) ELSE R(s, 0, s.hv, <<>>)
     [] o.k = "read" -> IF s.rx # 0 THEN R(s, s.rx, 0, <<>>) ELSE IF s.q = <<>> THEN R(s, 0, 0, <<>>) ELSE R([s EXCEPT !.q = Tail(@)], 0, s.q[1], <<>>)
     [] o.k = "reads" -> R([s EXCEPT !.q = SubSeq(@, o.a + 1, Len(@))], 0, 0, SubSeq(s.q, 1, o.a))
     [] o.k = "write" -> IF s.wx # 0 THEN R(s, s.wx, 0, <<>>) ELSE R([s EXCEPT !.cap.d = IF s.cap.on THEN Cut(Append(@, o.a), s.cap.size) ELSE @], 0, 0, <<>>)
     [] o.k = "writes" -> R([s EXCEPT !.cap.d = IF s.cap.on THEN Cut(@ \o o.d, s.cap.size) ELSE @], 0, 0, <<>>)
     [] o.k = "kept" -> R(s, 0, 0, s.cap.d)
     [] o.k = "uninit" -> R(ConStart, 0, 0, <<>>)
ConPossible(s, o) == CASE o.k = "kept" -> s.cap.on [] o.k = "reads" -> s.rx = 0 /\ o.a > 0 /\ o.a <= Len(s.q) [] o.k = "writes" -> s.wx = 0 [] OTHER -> TRUE
=============================================================================
