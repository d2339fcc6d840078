----------------------------- MODULE MemorySim -----------------------------
(***************************************************************************)
(* State machine of the memory simulator: one action per public call of    *)
(* MemorySim.h.  An operation is a record op with field ev (its name) and  *)
(* its arguments; mem is the simulated memory and last what the call gave  *)
(* back.  Calls that allocate may instead run out of memory (OOM action).  *)
(***************************************************************************)
EXTENDS MemModel

VARIABLES mem, last
vars == <<mem, last>>

\* What the call `op` does in memory state m when no allocation fails.
Outcome(m, op) ==
   CASE op.ev = "create" -> CreateRegion(m, op.a, op.s)
     [] op.ev = "alias"  -> CreateAlias(m, op.a, op.r, op.s)
     [] op.ev = "ro"     -> MakeReadOnly(m, op.a)
     [] op.ev = "load"   -> Load(m, op.a, op.d)
     [] op.ev = "flash"  -> FlashImage(m, op.d)
     [] op.ev = "rd"     -> Read(m, op.a, op.n)
     [] op.ev = "wr"     -> Write(m, op.a, op.d)
     [] op.ev = "rdn"    -> ReadMany(m, op.a, op.n, op.k)      \* the same access k times
     [] op.ev = "wrn"    -> WriteMany(m, op.a, op.d, op.k)
     [] op.ev = "mapr"   -> MapRead(m, op.a, op.n)
     [] op.ev = "mapw"   -> MapWrite(m, op.a, op.d)
     [] op.ev = "cnt"    -> ReadCount(m, op.a)
     [] op.ev = "sbp"    -> SetWp(m, op.a, op.n, 0)
     [] op.ev = "cbp"    -> ClearWp(m, op.a, op.n, 0)
     [] op.ev = "swp"    -> SetWp(m, op.a, op.n, op.t)
     [] op.ev = "cwp"    -> ClearWp(m, op.a, op.n, op.t)
     [] op.ev = "wpe"    -> Ok(WpReset(m), WpReports(m))     \* v: the reports allowed
     [] op.ev = "xml"    -> Ok(m, Xml(m))
     [] op.ev = "uninit" -> Ok(EmptyMem, <<>>)

Allocates == {"create", "alias", "ro", "flash", "sbp", "swp", "xml"}

Init == mem = EmptyMem /\ last = [op |-> [ev |-> "init"], c |-> 0, v |-> <<>>]
Do(op) == LET x == Outcome(mem, op) IN mem' = x.m /\ last' = [op |-> op, c |-> x.c, v |-> x.v]
\* An allocation failed inside the call: out of memory is reported and nothing has changed.
OOM(op) == op.ev \in Allocates /\ mem' = mem /\ last' = [op |-> op, c |-> OutOfMemory, v |-> <<>>]

----------------------------------------------------------------------------
(* The properties, stated on the state machine.                            *)
TypeOK == MemOK(mem)

Accesses == {"rd", "wr", "mapr", "mapw"}
Width(op) == IF op.ev \in {"rd", "mapr"} THEN op.n ELSE Len(op.d)
\* Every byte of the access is in region g, byte by byte (independent of Inside's arithmetic).
ByteIn(g, a) == WLe(g.base, a) /\ WLt(a, Bound(g))
AllBytesIn(g, a, n) == \A k \in 0..(n-1) : ByteIn(g, WAddN(a, k))
Mapped(m, a, n) == \E i \in 1..Len(m.r) : AllBytesIn(m.r[i], a, n)

\* C01: an unmapped access is a bus error that changes nothing; a mapped one fails only for
\* read-only memory or a breakpoint.
AccessValidity ==
   [][last'.op.ev \in Accesses =>
        LET op == last'.op IN
        /\ ~Mapped(mem, op.a, Width(op)) => last'.c = BusError /\ mem' = mem
        /\ Mapped(mem, op.a, Width(op)) =>
             \/ last'.c = 0
             \/ last'.c = BusError /\ op.ev \in {"wr", "mapw"} /\ mem.r[Resolve(mem, op.a, Width(op)).i].ro
             \/ last'.c = BreakpointHit /\ op.ev = "rd" /\ op.n = 2]_vars

\* C02: after a store every byte of it reads back, every other byte is unchanged.
ProbeBytes(m) == UNION {{[i |-> i, o |-> o] : o \in DOMAIN m.r[i].data} : i \in 1..Len(m.r)}
StoreExact ==
   [][last'.op.ev \in {"wr", "mapw", "load"} /\ last'.c = 0 /\ last'.op.d # <<>> =>
        LET op == last'.op
            t == Resolve(mem, op.a, Len(op.d))
        IN /\ \A k \in 1..Len(op.d) : At(mem'.r[t.i].data, t.o + k - 1) = op.d[k]
           /\ \A p \in ProbeBytes(mem) \union ProbeBytes(mem') :
                ~(p.i = t.i /\ p.o >= t.o /\ p.o < t.o + Len(op.d)) =>
                   At(mem.r[p.i].data, p.o) = At(mem'.r[p.i].data, p.o)]_vars
OnlyStoresStore ==
   [][last'.op.ev \notin {"wr", "mapw", "load", "flash", "uninit"} =>
        \A i \in 1..Len(mem.r) : mem'.r[i].data = mem.r[i].data]_vars

\* C03: only loading an image changes read-only memory; nothing ever makes it writable again.
ReadOnlyForever ==
   [][last'.op.ev # "uninit" =>
        \A i \in 1..Len(mem.r) : mem.r[i].ro =>
           mem'.r[i].ro /\ (last'.op.ev # "load" => mem'.r[i].data = mem.r[i].data)]_vars

\* C04: an access through an alias is the access to what it redirects to.
AliasSame(m, i, k, n) ==
   LET g == m.r[i]
       a == WAddN(g.base, k)
       b == WAddN(m.r[g.tgt].base, g.off + k)
   IN (Find(m, a, n) = i /\ Find(m, b, n) = g.tgt) =>
        /\ Read(m, a, n) = Read(m, b, n)
        /\ Write(m, a, [j \in 1..n |-> 7]) = Write(m, b, [j \in 1..n |-> 7])
AliasTransparent ==
   \A i \in 1..Len(mem.r) : mem.r[i].alias =>
     \A k \in 0..3 : \A n \in {1, 2} : AliasSame(mem, i, k, n)

\* C05: a repeated set changes nothing and clearing removes exactly one.
WatchpointsAreASet ==
   [][/\ last'.op.ev \in {"sbp", "swp"} /\ last'.c = 0 =>
           \A i \in 1..Len(mem.r) : mem.r[i].wps \subseteq mem'.r[i].wps
      /\ last'.op.ev \in {"cbp", "cwp"} =>
           \A i \in 1..Len(mem.r) : Cardinality(mem.r[i].wps \ mem'.r[i].wps) <= 1
      /\ last'.op.ev = "wpe" => mem'.hi = 0]_vars

\* C07: only 16-bit reads count, each exactly once.
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumF(f, S \ {x})
Total(g) == SumF(g.counts, DOMAIN g.counts)
CountsExact ==
   [][\A i \in 1..Len(mem.r) :
        LET d == IF i <= Len(mem'.r) THEN Total(mem'.r[i]) - Total(mem.r[i]) ELSE 0
            op == last'.op
        IN op.ev \notin {"ro", "uninit"} =>
             d = (IF op.ev \in {"rd", "mapr"} /\ op.n = 2 /\ Resolve(mem, op.a, 2).i = i /\ mem.r[i].ro THEN 1 ELSE 0)]_vars

\* C08: out of memory changes nothing.
OOMAtomic == [][last'.c = OutOfMemory => mem' = mem]_vars
\* C06: asking for the map changes nothing.
XmlPure == [][last'.op.ev = "xml" => mem' = mem]_vars
=============================================================================
