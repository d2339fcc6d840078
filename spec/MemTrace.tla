------------------------------ MODULE MemTrace ------------------------------
(***************************************************************************)
(* Conformance: histories of real MemorySim calls, one JSON line per call, *)
(* recorded by harness/memsim.c at the public call's return.  Each must be *)
(* a step of MemorySim.tla with the logged result.  "H" starts a history.  *)
(***************************************************************************)
EXTENDS MemorySim, Json, IOUtils

VARIABLES l, skip, h
tvars == <<mem, last, l, skip, h>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(e) == PrintT("MISMATCH " \o ToString(h) \o " line " \o ToString(l) \o " observed " \o ToString(e)
                    \o " expected " \o ToString([c |-> Outcome(mem, e).c, v |-> Outcome(mem, e).v]))

\* Does the logged result of the call agree with what the specification's step yields?
ValueOK(e, v) ==
   CASE e.ev \in {"rd", "rdn", "mapr"} -> e.d = v
     [] e.ev = "cnt" -> e.k = v
     [] e.ev = "wpe" -> e.k \in v
     [] e.ev = "xml" -> e.x = v
     [] e.ev = "uninit" -> e.live = 0 /\ e.bad = 0
     [] OTHER -> TRUE
\* The machine of the harness gives out blocks of up to 64 MB: what a call needs above that it may be refused.
Plenty == <<256, 0>>
Large(e) == LET x == Outcome(mem, e) IN
   CASE e.ev \in {"create", "alias"} -> WLe(Plenty, e.s)
     [] e.ev = "flash" -> x.c = 0 /\ WLe(Plenty, x.m.r[Len(x.m.r)].size)
     [] e.ev = "ro" -> x.c = 0 /\ WLt(Plenty, mem.r[Resolve(mem, e.a, 1).i].size)
     [] OTHER -> FALSE
Permitted(e) ==
   IF e.ev = "crash" THEN FALSE
   ELSE IF e.inj THEN e.c = OutOfMemory /\ e.ev \in Allocates /\ (e.big => Large(e))
   ELSE LET x == Outcome(mem, e) IN e.c = x.c /\ (x.c = 0 => ValueOK(e, x.v))

TraceInit == Init /\ l = 1 /\ skip = TRUE /\ h = -1
TraceNext ==
   /\ l <= Len(Trace)
   /\ l' = l + 1
   /\ LET e == Trace[l] IN
      IF e.ev = "H" THEN mem' = EmptyMem /\ last' = last /\ skip' = FALSE /\ h' = e.h
      ELSE /\ h' = h
           /\ IF skip THEN UNCHANGED <<mem, last, skip>>
              ELSE IF e.ev = "crash" THEN /\ PrintT("MISMATCH " \o ToString(h) \o " line " \o ToString(l) \o " crash: " \o e.why)
                                          /\ skip' = TRUE /\ UNCHANGED <<mem, last>>
              ELSE IF Permitted(e) THEN (IF e.inj THEN OOM(e) ELSE Do(e)) /\ skip' = FALSE
              ELSE Report(e) /\ skip' = TRUE /\ UNCHANGED <<mem, last>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
