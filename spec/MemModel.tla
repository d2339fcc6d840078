------------------------------ MODULE MemModel ------------------------------
(***************************************************************************)
(* The simulated target memory (libCrashDebug/src/MemorySim.c) as a pure   *)
(* transition function: every public call is an operator taking the        *)
(* current memory state and the arguments and yielding                     *)
(*     [m |-> next state, c |-> exception code (0 = none), v |-> result].  *)
(* MemorySim.tla turns these into TLA+ actions over a VARIABLE; the other  *)
(* specifications (images, dumps, logs, sessions) use them as functions.   *)
(***************************************************************************)
EXTENDS Word32, FiniteSets, TLC

BusError == 19
OutOfMemory == 18
BufferOverrun == 1
BreakpointHit == 24

(* A region. `alias` regions carry no data: they redirect to offset `off`  *)
(* of region number `tgt`.  `data` and `counts` are sparse: offsets absent *)
(* from their domain hold 0.  `wps` is the set of break/watchpoints        *)
(* [t |-> 0 (breakpoint), 1 (read), 2 (write) or 3 (either), s, e].         *)
NewRegion(b, s) == [base |-> b, size |-> s, alias |-> FALSE, tgt |-> 0, off |-> 0,
                    ro |-> FALSE, data |-> <<>>, counts |-> <<>>, wps |-> {}]
NewAlias(b, s, t, o) == [NewRegion(b, s) EXCEPT !.alias = TRUE, !.tgt = t, !.off = o]

\* lo/hi bound the number of watchpoint encounters not yet reported.
EmptyMem == [r |-> <<>>, lo |-> 0, hi |-> 0]

Bound(g) == WAdd(g.base, g.size)
\* Bytes a..a+n-1 lie inside region (or alias) g.
Inside(g, a, n) == WLe(g.base, a) /\ WLe(WAddN(a, n), Bound(g))
\* The first-created region containing the range decides (0 = unmapped).
Find(m, a, n) == LET S == {i \in 1..Len(m.r) : Inside(m.r[i], a, n)} IN
                 IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
\* Where the access really goes: the aliased region and the offset in it.
Resolve(m, a, n) ==
   LET i == Find(m, a, n) IN
   IF i = 0 THEN [i |-> 0, o |-> 0]
   ELSE LET g == m.r[i]
            o == WNat(WSub(a, g.base))
        IN IF g.alias THEN [i |-> g.tgt, o |-> g.off + o] ELSE [i |-> i, o |-> o]

At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
GetBytes(g, o, n) == [k \in 1..n |-> At(g.data, o + k - 1)]
PutBytes(d, o, bs) == LET x == [k \in o..(o + Len(bs) - 1) |-> bs[k - o + 1]] IN IF DOMAIN d = {} THEN x ELSE x @@ d
Ok(m, v)  == [m |-> m, c |-> 0, v |-> v]
Exc(m, c) == [m |-> m, c |-> c, v |-> <<>>]

\* ---- mapping memory ------------------------------------------------------
CreateRegion(m, b, s) == Ok([m EXCEPT !.r = Append(@, NewRegion(b, s))], <<>>)

CreateAlias(m, b, red, s) ==
   LET t == Resolve(m, red, 1) IN
   IF t.i = 0 THEN Exc(m, BusError)
   ELSE LET room == WSub(m.r[t.i].size, WOfNat(t.o))
        IN Ok([m EXCEPT !.r = Append(@, NewAlias(b, WMin(s, room), t.i, t.o))], <<>>)

MakeReadOnly(m, a) ==
   LET t == Resolve(m, a, 1) IN
   IF t.i = 0 THEN Exc(m, BusError)
   ELSE Ok([m EXCEPT !.r[t.i].ro = TRUE, !.r[t.i].counts = <<>>], <<>>)

\* Is what region i shows read-only?
ShownRO(m, i) == IF m.r[i].alias THEN m.r[m.r[i].tgt].ro ELSE m.r[i].ro

\* ---- break and watchpoints -----------------------------------------------
WpAt(m, a, n, t) ==
   LET x == Resolve(m, a, n) IN [i |-> x.i, w |-> [t |-> t, s |-> WOfNat(x.o), e |-> WOfNat(x.o + n)]]
SetWp(m, a, n, t) ==
   LET x == WpAt(m, a, n, t) IN
   IF x.i = 0 THEN Exc(m, BusError) ELSE Ok([m EXCEPT !.r[x.i].wps = @ \union {x.w}], <<>>)
ClearWp(m, a, n, t) ==
   LET x == WpAt(m, a, n, t) IN
   IF x.i = 0 THEN Exc(m, BusError) ELSE Ok([m EXCEPT !.r[x.i].wps = @ \ {x.w}], <<>>)
\* The report: given once, then reset.
WpReports(m) == (IF m.hi > 0 THEN {TRUE} ELSE {}) \union (IF m.lo = 0 THEN {FALSE} ELSE {})
WpReset(m) == [m EXCEPT !.lo = 0, !.hi = 0]

Within(w, o, n) == WLe(w.s, WOfNat(o)) /\ WLe(WOfNat(o + n), w.e)
BpHit(g, o, n, k) == k = "r" /\ n = 2 /\ \E w \in g.wps : w.t = 0 /\ Within(w, o, n)
Kinds(k) == IF k = "r" THEN {1, 3} ELSE {2, 3}
WpHits(g, o, n, k) == Cardinality({w \in g.wps : w.t \in Kinds(k) /\ Within(w, o, n)})

\* ---- accesses ------------------------------------------------------------
CountedBy(m, t, n, k) == IF n = 2 /\ m.r[t.i].ro
                         THEN [m EXCEPT !.r[t.i].counts = (t.o \div 2 :> At(@, t.o \div 2) + k) @@ @]
                         ELSE m
Counted(m, t, n) == CountedBy(m, t, n, 1)
\* The same read made k >= 1 times in a row; what the last one gives. ReadManyIsReads (MemMC) checks it against single reads.
ReadMany(m, a, n, k) ==
   LET t == Resolve(m, a, n) IN
   IF t.i = 0 THEN Exc(m, BusError)
   ELSE LET g == m.r[t.i]
            h == k * WpHits(g, t.o, n, "r")
            m1 == CountedBy(m, t, n, k)
        IN IF BpHit(g, t.o, n, "r") THEN Exc([m1 EXCEPT !.hi = @ + h], BreakpointHit)
           ELSE Ok([m1 EXCEPT !.hi = @ + h, !.lo = @ + h], GetBytes(g, t.o, n))
Read(m, a, n) == ReadMany(m, a, n, 1)
\* The same store made k >= 1 times in a row.
WriteMany(m, a, bs, k) ==
   LET n == Len(bs)
       t == Resolve(m, a, n) IN
   IF t.i = 0 THEN Exc(m, BusError)
   ELSE LET g == m.r[t.i]
            h == k * WpHits(g, t.o, n, "w")
        IN IF g.ro THEN Exc(m, BusError)
           ELSE Ok([m EXCEPT !.r[t.i].data = PutBytes(@, t.o, bs), !.hi = @ + h, !.lo = @ + h], <<>>)
Write(m, a, bs) == WriteMany(m, a, bs, 1)
\* Host mappings ignore break and watchpoints.
MapRead(m, a, n) ==
   LET t == Resolve(m, a, n) IN
   IF t.i = 0 THEN Exc(m, BusError) ELSE Ok(Counted(m, t, n), GetBytes(m.r[t.i], t.o, n))
\* The bytes are then stored through the mapping handed out.
MapWrite(m, a, bs) ==
   LET t == Resolve(m, a, Len(bs)) IN
   IF t.i = 0 \/ (t.i # 0 /\ m.r[t.i].ro) THEN Exc(m, BusError)
   ELSE Ok([m EXCEPT !.r[t.i].data = PutBytes(@, t.o, bs)], <<>>)
\* Loading an image ignores read-only, counts and watchpoints.
Load(m, a, bs) ==
   IF bs = <<>> THEN Ok(m, <<>>)
   ELSE LET t == Resolve(m, a, Len(bs)) IN
        IF t.i = 0 THEN Exc(m, BusError)
        ELSE Ok([m EXCEPT !.r[t.i].data = PutBytes(@, t.o, bs)], <<>>)
\* Up to n bytes, one by one (used by the debugger side).
ByteAt(m, a) == LET t == Resolve(m, a, 1) IN IF t.i = 0 THEN -1 ELSE At(m.r[t.i].data, t.o)

ReadCount(m, a) ==
   LET t == Resolve(m, a, 2) IN
   IF t.i = 0 \/ (t.i # 0 /\ ~m.r[t.i].ro) THEN Exc(m, BusError)
   ELSE Ok(m, At(m.r[t.i].counts, t.o \div 2))

\* ---- a raw flash image ---------------------------------------------------
FlashImage(m, bs) ==
   IF Len(bs) < 4 THEN Exc(m, BufferOverrun)
   ELSE LET sp == WOfSeq(bs, 1)
            ramBase == <<(sp[1] \div 4096) * 4096, 0>>
            n == Len(m.r) + 1
            m1 == CreateRegion(m, W0, WOfNat(Len(bs))).m
            m2 == [m1 EXCEPT !.r[n].data = PutBytes(@, 0, bs), !.r[n].ro = TRUE]
        IN CreateRegion(m2, ramBase, WSub(sp, ramBase))

\* ---- the memory map document ---------------------------------------------
XmlHeader == "<?xml version=\"1.0\"?><!DOCTYPE memory-map PUBLIC \"+//IDN gnu.org//DTD GDB Memory Map V1.0//EN\" \"http://sourceware.org/gdb/gdb-memory-map.dtd\"><memory-map>"
XmlEntry(m, i) ==
   "<memory type=\"" \o (IF ShownRO(m, i) THEN "flash" ELSE "ram") \o "\" start=\"0x" \o HexStr(m.r[i].base)
   \o "\" length=\"0x" \o HexStr(m.r[i].size) \o "\">"
   \o (IF ShownRO(m, i) THEN " <property name=\"blocksize\">1</property>" ELSE "") \o "</memory>"
RECURSIVE XmlEntries(_, _, _)
XmlEntries(m, i, j) == IF i > j THEN "" ELSE IF i = j THEN XmlEntry(m, i)
                       ELSE LET k == (i + j) \div 2 IN XmlEntries(m, i, k) \o XmlEntries(m, k + 1, j)
Xml(m) == XmlHeader \o XmlEntries(m, 1, Len(m.r)) \o "</memory-map>"

\* ---- well-formedness of a memory state (checked as an invariant) ---------
MemOK(m) ==
   /\ m.lo \in Nat /\ m.hi \in Nat /\ m.lo <= m.hi
   /\ \A i \in 1..Len(m.r) :
        LET g == m.r[i] IN
        /\ g.base \in Word /\ g.size \in Word
        /\ g.alias =>
             /\ g.tgt \in 1..(i - 1) /\ ~m.r[g.tgt].alias
             /\ WLe(WAddN(g.size, g.off), m.r[g.tgt].size)
             /\ DOMAIN g.data = {} /\ g.wps = {} /\ ~g.ro
        /\ ~g.alias =>
             /\ \A o \in DOMAIN g.data : WLt(WOfNat(o), g.size) /\ g.data[o] \in 0..255
             /\ \A h \in DOMAIN g.counts : WLe(WOfNat(2 * h + 2), g.size)
             /\ DOMAIN g.counts # {} => g.ro
             /\ \A w \in g.wps : WLe(w.e, g.size)
=============================================================================
