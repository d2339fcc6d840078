---------------------------- MODULE PlatformTrace ----------------------------
(***************************************************************************)
(* Conformance of recorded debugging sessions (harness/platform.c): every  *)
(* answer must be the one Platform.tla gives in the state reached so far.  *)
(***************************************************************************)
EXTENDS Platform, Json, IOUtils

VARIABLES s, l, skip, h
vars == <<s, l, skip, h>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ctx0 == [flags |-> W0, R |-> [i \in 1..19 |-> W0], ePSR |-> W0, FPR |-> [i \in 1..33 |-> W0]]

\* The layer below the packets: [s, res, fault].
WordOf(v, n) == WOfBytes(v \o [i \in 1..(4 - n) |-> 0])
Width(k) == IF k \in {"rd8", "wr8"} THEN 1 ELSE IF k \in {"rd16", "wr16"} THEN 2 ELSE 4
Called(e) ==
   CASE e.k \in {"rd8", "rd16", "rd32"} ->
           LET x == Read(s.m, e.a, Width(e.k)) IN IF x.c # 0 THEN [s |-> s, res |-> W0, fault |-> 1] ELSE [s |-> S(x.m, s.ctx), res |-> WordOf(x.v, Width(e.k)), fault |-> 0]
     [] e.k \in {"wr8", "wr16", "wr32"} ->
           LET x == Write(s.m, e.a, SubSeq(WBytes(e.v), 1, Width(e.k))) IN IF x.c # 0 THEN [s |-> s, res |-> W0, fault |-> 1] ELSE [s |-> S(x.m, s.ctx), res |-> W0, fault |-> 0]
     [] e.k = "cause" -> [s |-> s, res |-> <<0, SignalOf(Exception(s.ctx))>>, fault |-> 0]
     [] OTHER -> [s |-> s, res |-> W0, fault |-> 0]

ByteMatches(a, v, w) ==
   LET t == Resolve(s.m, a, 1) IN
   IF t.i = 0 THEN v = -1 /\ w = 0 ELSE v = At(s.m.r[t.i].data, t.o) /\ (w = 1) = ~s.m.r[t.i].ro
ProbesOK(ps) == \A i \in 1..Len(ps) : \A k \in 1..Len(ps[i].v) : ByteMatches(WWrap(WAddN(ps[i].a, k - 1)), ps[i].v[k], ps[i].w[k])
StateOK(e) == /\ e.flags = s.ctx.flags /\ e.R = s.ctx.R /\ e.ePSR = s.ctx.ePSR /\ e.FPR = s.ctx.FPR
              /\ e.map = Xml(s.m) /\ ProbesOK(e.p)
Clean(e) == e.naks = 0 /\ e.noise = 0 /\ e.late = 0 /\ e.badsum = 0

\* [ok, s, want] for one event.
Verdict(e) ==
   CASE e.ev = "H" -> [ok |-> TRUE, s |-> S(EmptyMem, Ctx0), want |-> ""]
     [] e.ev = "ctx" -> [ok |-> TRUE, s |-> S(s.m, [flags |-> e.flags, R |-> e.R, ePSR |-> e.ePSR, FPR |-> e.FPR]), want |-> ""]
     [] e.ev = "region" -> [ok |-> TRUE, s |-> S(CreateRegion(s.m, e.a, e.n).m, s.ctx), want |-> ""]
     [] e.ev = "ro" -> [ok |-> TRUE, s |-> S(MakeReadOnly(s.m, e.a).m, s.ctx), want |-> ""]
     [] e.ev = "load" -> [ok |-> TRUE, s |-> S(Load(s.m, e.a, e.d).m, s.ctx), want |-> ""]
     [] e.ev = "alias" -> [ok |-> TRUE, s |-> S(CreateAlias(s.m, e.a, e.b, e.n).m, s.ctx), want |-> ""]
     [] e.ev = "start" -> LET x == Stopped(s) IN
           IF e.wait = 1 THEN [ok |-> e.r = <<>> /\ e.con = "" /\ e.acks = 0 /\ Clean(e), s |-> s, want |-> "nothing"]
           ELSE [ok |-> e.r = x.r /\ e.con = x.con /\ e.acks = 0 /\ Clean(e), s |-> s, want |-> ToString(<<x.r, x.con>>)]
     [] e.ev = "cmd" -> LET x == Do(s, e) IN
           [ok |-> (e.r = x.r \/ (x.r = <<Offered>> /\ Len(e.r) = 1 /\ StartsWith(e.r[1], Offered))) /\ e.con = x.con /\ e.acks = 1 /\ Clean(e), s |-> x.s, want |-> ToString(<<x.r, x.con>>)]
     [] e.ev = "call" -> LET x == Called(e) IN
           [ok |-> (e.k \in {"rd8", "rd16", "rd32", "cause"} /\ x.fault = 0 => e.res = x.res) /\ e.fault = x.fault /\ e.again = 0, s |-> x.s, want |-> ToString([res |-> x.res, fault |-> x.fault])]
     [] e.ev = "state" -> [ok |-> StateOK(e), s |-> s, want |-> ToString([ctx |-> s.ctx, map |-> Xml(s.m)])]
     [] e.ev = "end" -> [ok |-> e.left = 0 /\ e.c # 0, s |-> s, want |-> "end of input only after the last command"]
     [] OTHER -> [ok |-> FALSE, s |-> s, want |-> "no crash"]

Init == s = S(EmptyMem, Ctx0) /\ l = 1 /\ skip = FALSE /\ h = -1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ h' = IF e.ev = "H" THEN e.h ELSE h
           /\ IF skip /\ e.ev # "H" THEN UNCHANGED <<s, skip>>
              ELSE LET v == Verdict(e) IN
                   IF v.ok THEN s' = v.s /\ skip' = FALSE
                   ELSE /\ PrintT("MISMATCH " \o ToString(h) \o " line " \o ToString(l) \o " observed " \o ToString(e) \o " expected " \o v.want)
                        /\ skip' = TRUE /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
