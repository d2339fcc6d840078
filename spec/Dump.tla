-------------------------------- MODULE Dump --------------------------------
(***************************************************************************)
(* Reading a CrashCatcher dump (libCrashDebug/src/CrashCatcherDump.c).     *)
(* A dump is read as a stream [b |-> bytes, bad |-> TRUE iff the character *)
(* after those bytes is not a hexadecimal digit (hex dumps only)].         *)
(* Decode(m, ctx, s) yields [m, ctx, c, msg, pre, any]: the memory, the    *)
(* registers, the exception code and message; when any is TRUE memory      *)
(* beyond m and the registers are unspecified (the dump is refused).       *)
(***************************************************************************)
EXTENDS MemModel, Text, SequencesExt

FormatError == 30
StackOverflow == 31
Unknown == <<47789, 47789>>              \* 0xBAADBAAD
Sentinel == <<44238, 21997>>             \* 0xACCE55ED
Cap == <<1024, 0>>                       \* regions above 64 MB may also run out of memory

BinStream(f) == [b |-> f, bad |-> FALSE]

NL == {10, 13}
HexVal(ch) == IF ch \in 48..57 THEN ch - 48 ELSE IF ch \in 97..102 THEN ch - 87 ELSE IF ch \in 65..70 THEN ch - 55 ELSE -1
Strip(f) == SelectSeq(f, LAMBDA ch : ch \notin NL)
\* Number of leading pairs that are both digits; an unpaired final character is not part of the data.
HexStream(f) ==
   LET t == Strip(f)
       n == Len(t) \div 2
       good(i) == HexVal(t[2*i - 1]) >= 0 /\ HexVal(t[2*i]) >= 0
       badAt == SelectSeq([i \in 1..n |-> i], LAMBDA i : ~good(i))
       k == IF badAt = <<>> THEN n ELSE Head(badAt) - 1
   IN [b |-> [i \in 1..k |-> 16 * HexVal(t[2*i - 1]) + HexVal(t[2*i])], bad |-> k < n]

Avail(s, p) == Len(s.b) - p              \* p = bytes already consumed
Words(s, p, n) == [i \in 1..n |-> WOfSeq(s.b, p + 4*(i - 1) + 1)]

Res(m, ctx, c, msg, pre, any) == [m |-> m, ctx |-> ctx, c |-> c, msg |-> msg, pre |-> pre, any |-> any]
\* A read that could not get all its bytes: either a bad character or the end of the file.
Refuse(s, m, ctx, msg) == IF s.bad THEN Res(m, ctx, FormatError, "", TRUE, TRUE) ELSE Res(m, ctx, FormatError, msg, FALSE, TRUE)

\* Store bytes one by one, as writes (so a read-only region refuses them): the memory and whether all were stored.
RECURSIVE StoreAll(_, _, _, _)
StoreAll(m, a, bs, i) ==
   IF i > Len(bs) THEN [m |-> m, ok |-> TRUE]
   ELSE LET x == Write(m, WWrap(WAddN(a, i - 1)), <<bs[i]>>)
        IN IF x.c # 0 THEN [m |-> m, ok |-> FALSE] ELSE StoreAll(x.m, a, bs, i + 1)
Store(m, a, bs) ==
   LET x == IF bs = <<>> THEN Ok(m, <<>>) ELSE Write(m, a, bs)
       t == IF bs = <<>> THEN [i |-> 0, o |-> 0] ELSE Resolve(m, a, 1)
   IN \* whole-range write when one region takes all of it, else byte by byte
      IF x.c = 0 /\ (bs = <<>> \/ \A k \in 0..(Len(bs)-1) : Resolve(m, WAddN(a, k), 1) = [i |-> t.i, o |-> t.o + k])
      THEN [m |-> x.m, ok |-> TRUE] ELSE StoreAll(m, a, bs, 1)

RegionMsg(a, e) == "The dump file failed to load RAM memory region at 0x" \o Hex8(a) \o " - 0x" \o Hex8(e) \o "."

\* One step of reading regions from position st.p of the stream; st.res holds the result, once there is one.
RegionStep(ctx, s, st) ==
   LET m == st.m p == st.p done(x) == [st EXCEPT !.res = <<x>>] IN
   IF st.res # <<>> THEN st
   ELSE IF Avail(s, p) < 8
   THEN done(IF s.bad THEN Refuse(s, m, ctx, "")
             ELSE IF Avail(s, p) = 0 THEN Res(m, ctx, 0, "", FALSE, FALSE)
             ELSE IF Avail(s, p) = 4 /\ Words(s, p, 1)[1] = Sentinel
             THEN Res(m, ctx, StackOverflow, "The dump file ended with an indication that CrashCatcher detected a stack overflow.", FALSE, FALSE)
             ELSE Refuse(s, m, ctx, "The dump file contained a truncated memory region header."))
   ELSE LET a == Words(s, p, 2)[1]
            e == Words(s, p, 2)[2]
            size == WSubWrap(e, a)
        IN IF WLt(WOfNat(Avail(s, p) - 8), size)
           THEN done(Res(m, ctx, IF WLt(Cap, size) THEN OutOfMemory ELSE FormatError, RegionMsg(a, e), FALSE, TRUE))
           ELSE LET n == WNat(size)
                    x == Store(CreateRegion(m, a, size).m, a, SubSeq(s.b, p + 9, p + 8 + n))
                IN IF ~x.ok THEN done(Res(m, ctx, BusError, RegionMsg(a, e), FALSE, TRUE))
                   ELSE [st EXCEPT !.m = x.m, !.p = p + 8 + n]
\* Every step takes at least the 8 bytes of a header, so there is a result after this many.
Regions(m, ctx, s, p) ==
   FoldLeft(LAMBDA st, i : RegionStep(ctx, s, st), [m |-> m, p |-> p, res |-> <<>>], [i \in 1..(Avail(s, p) \div 8 + 1) |-> i]).res[1]

\* ctx: [flags, R (19 words: R0-R12 SP LR PC XPSR MSP PSP), ePSR, FPR (33 words)]
Decode(m, ctx, s) ==
   LET v3 == SubSeq(s.b, 1, 4) = <<99, 67, 3, 0>>
       v2 == SubSeq(s.b, 1, 4) = <<99, 67, 2, 0>>
       nr == IF v3 THEN 19 ELSE 17
   IN
   IF Len(s.b) < 4 THEN Refuse(s, m, ctx, "The dump file was too short to contain the 4-byte signature.")
   ELSE IF ~v3 /\ ~v2 THEN Res(m, ctx, FormatError, "The dump file didn't start with the expected 4-byte signature.", FALSE, TRUE)
   ELSE IF Avail(s, 4) < 4 THEN Refuse(s, m, ctx, "The dump file was too short to contain the flags.")
   ELSE IF Avail(s, 8) < 4 * nr THEN Refuse(s, m, ctx, "The dump file was too short to contain the integer registers.")
   ELSE IF Avail(s, 8 + 4 * nr) < 4 THEN Refuse(s, m, ctx, "The dump file was too short to contain the exception PSR.")
   ELSE LET flags == Words(s, 4, 1)[1]
            fp == flags[2] % 2 = 1
            r == Words(s, 8, nr) \o (IF v2 THEN <<Unknown, Unknown>> ELSE <<>>)
            q == 12 + 4 * nr
            c1 == [ctx EXCEPT !.flags = flags, !.R = r, !.ePSR = Words(s, 8 + 4 * nr, 1)[1]]
        IN IF ~fp THEN Regions(m, c1, s, q)
           ELSE IF Avail(s, q) < 132 THEN Refuse(s, m, ctx, "The dump file was too short to contain the floating point registers.")
           ELSE Regions(m, [c1 EXCEPT !.FPR = Words(s, q, 33)], s, q + 132)
=============================================================================
