-------------------------------- MODULE GdbLog --------------------------------
(***************************************************************************)
(* Reading a GDB log (libCrashDebug/src/GdbLogParser.c): the text of a GDB *)
(* session in which memory ("x/4wx") and registers ("info registers") were *)
(* shown.  A file is a sequence of characters; LogDecode(m, ctx, f) yields *)
(* [m, ctx, c].  In ctx a word DontCare is not determined by the log.      *)
(***************************************************************************)
EXTENDS MemModel, Text, SequencesExt

DontCare == <<-1, -1>>
Placeholder == <<47789, 47789>>                  \* 0xBAADBAAD
MaxLine == 1023

\* ---- lines ---------------------------------------------------------------
\* Split into lines (newline kept), a line longer than MaxLine into pieces.
Pieces(s, e) == [k \in 1..((e - s) \div MaxLine + 1) |-> [s |-> s + (k - 1) * MaxLine, e |-> IF s + k * MaxLine - 1 < e THEN s + k * MaxLine - 1 ELSE e]]
\* Only the characters before a NUL count.
UpToNul(s) == LET N == {i \in 1..Len(s) : s[i] = 0} IN
              IF N = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in N : \A j \in N : i <= j) - 1)
Lines(f) ==
   LET ends == SelectSeq([i \in 1..Len(f) |-> i], LAMBDA p : f[p] = 10)
       all == IF Len(f) = 0 \/ (IF Len(f) > 0 THEN f[Len(f)] = 10 ELSE FALSE) THEN ends ELSE Append(ends, Len(f))
       cuts == FoldLeft(LAMBDA acc, k : acc \o Pieces(IF k = 1 THEN 1 ELSE all[k - 1] + 1, all[k]), <<>>, [k \in 1..Len(all) |-> k])
   IN [i \in 1..Len(cuts) |-> UpToNul(SubSeq(f, cuts[i].s, cuts[i].e))]

\* Characters i..j, or <<>> when there are not that many.
Part(s, i, j) == IF j <= Len(s) THEN SubSeq(s, i, j) ELSE <<>>
Ch(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
Space == {9, 10, 11, 12, 13, 32}
HexVal(ch) == IF ch \in 48..57 THEN ch - 48 ELSE IF ch \in 97..102 THEN ch - 87 ELSE IF ch \in 65..70 THEN ch - 55 ELSE -1
IsDigit(ch, base) == HexVal(ch) >= 0 /\ HexVal(ch) < base

\* ---- numbers: optional blanks and sign, then 0x.. hexadecimal, 0.. octal or decimal -----------------------------
RECURSIVE SkipSpace(_, _)
SkipSpace(s, i) == IF Ch(s, i) \in Space THEN SkipSpace(s, i + 1) ELSE i
RECURSIVE Digits(_, _, _, _)
Digits(s, i, base, v) ==
   IF ~IsDigit(Ch(s, i), base) THEN [v |-> v, i |-> i]
   ELSE LET lo == v[2] * base + HexVal(s[i])
        IN Digits(s, i + 1, base, <<((v[1] * base) + (lo \div 65536)) % 65536, lo % 65536>>)
\* [ok, v, i, fits]: i is the first character not used; whether 64 bits certainly hold the number.
RECURSIVE SkipZeros(_, _)
SkipZeros(s, i) == IF Ch(s, i) = 48 THEN SkipZeros(s, i + 1) ELSE i
Num(s, p) ==
   LET a == SkipSpace(s, p)
       neg == Ch(s, a) = 45
       b == IF Ch(s, a) \in {43, 45} THEN a + 1 ELSE a
       hex == Ch(s, b) = 48 /\ Ch(s, b + 1) \in {120, 88} /\ IsDigit(Ch(s, b + 2), 16)
       d == IF hex THEN Digits(s, b + 2, 16, W0)
            ELSE IF Ch(s, b) = 48 THEN Digits(s, b, 8, W0) ELSE Digits(s, b, 10, W0)
       digits == d.i - SkipZeros(s, IF hex THEN b + 2 ELSE b)
   IN IF ~IsDigit(Ch(s, b), 10) THEN [ok |-> FALSE, v |-> W0, i |-> p, fits |-> FALSE]
      ELSE [ok |-> TRUE, v |-> IF neg THEN WSubWrap(W0, d.v) ELSE d.v, i |-> d.i,
            fits |-> digits <= (IF hex THEN 16 ELSE 19)]

\* ---- memory lines --------------------------------------------------------
IsMem(s) == /\ Len(s) > 11 /\ s[1] = 48 /\ s[2] = 120
            /\ \A i \in 3..10 : IsDigit(s[i], 16)
\* <symbol>, which may contain blanks only inside < >.
RECURSIVE SymEnd(_, _, _)
SymEnd(s, i, depth) ==
   IF i > Len(s) THEN i
   ELSE IF s[i] = 60 THEN SymEnd(s, i + 1, depth + 1)
   ELSE IF s[i] = 62 THEN SymEnd(s, i + 1, depth - 1)
   ELSE IF s[i] \in Space /\ depth = 0 THEN i
   ELSE SymEnd(s, i + 1, depth)
SkipSymbol(s, i) == LET p == SkipSpace(s, i) IN IF Ch(s, p) = 60 THEN SkipSpace(s, SymEnd(s, p, 0)) ELSE p
RECURSIVE ValuesFrom(_, _, _)
ValuesFrom(s, i, left) ==
   IF left = 0 \/ i > Len(s) THEN <<>>
   ELSE LET n == Num(s, SkipSymbol(s, i))
        IN IF n.ok THEN <<n.v>> \o ValuesFrom(s, n.i, left - 1) ELSE <<>>
MemLine(s) == [a |-> Digits(s, 3, 16, W0).v, vs |-> ValuesFrom(s, 12, 4)]

\* ---- register lines: the name padded to 15 characters, then the value -----------------------------------------
DecCodes(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + n \div 10, 48 + (n % 10)>>
Pad15(n) == n \o [i \in 1..(15 - Len(n)) |-> 32]
IntNames == [i \in 1..19 |-> Pad15(IF i <= 13 THEN <<114>> \o DecCodes(i - 1)
               ELSE <<<<115, 112>>, <<108, 114>>, <<112, 99>>, <<120, 112, 115, 114>>, <<109, 115, 112>>, <<112, 115, 112>>>>[i - 13])]
FloatNames == [i \in 1..33 |-> Pad15(IF i <= 32 THEN <<115>> \o DecCodes(i - 1) ELSE <<102, 112, 115, 99, 114>>)]
Index(names, s) == LET name == Part(s, 1, 15)
                      hit == {i \in 1..Len(names) : name = names[i]} IN
                   IF hit = {} THEN 0 ELSE CHOOSE i \in hit : TRUE
RECURSIVE SkipWord(_, _)
SkipWord(s, i) == IF i <= Len(s) /\ s[i] \notin Space THEN SkipWord(s, i + 1) ELSE i
Raw == <<40, 114, 97, 119, 32>>                 \* "(raw "
IntValue(s) == LET n == Num(s, 16) IN IF n.ok /\ n.fits THEN n.v ELSE DontCare
FloatValue(s) == LET p == SkipSpace(s, SkipWord(s, 16))
                     n == Num(s, p + 5)
                 IN IF Part(s, p, p + 4) # Raw THEN <<65535, 65535>> ELSE IF n.ok /\ n.fits THEN n.v ELSE DontCare

RegLine(ctx, s) ==
   LET i == Index(IntNames, s)
       f == Index(FloatNames, s)
   IN IF Len(s) < 15 THEN ctx
      ELSE IF i > 0 THEN [ctx EXCEPT !.R[i] = IntValue(s)]
      ELSE IF f = 33 THEN [ctx EXCEPT !.FPR[33] = IntValue(s)]
      ELSE IF f > 0 THEN [ctx EXCEPT !.FPR[f] = FloatValue(s),
                                     !.flags = <<@[1], @[2] + (1 - (@[2] % 2))>>]
      ELSE ctx

\* ---- the whole log -------------------------------------------------------
Shown(ls) == SelectSeq([i \in 1..Len(ls) |-> IF IsMem(ls[i]) THEN MemLine(ls[i]) ELSE [a |-> W0, vs |-> <<>>]],
                       LAMBDA x : x.vs # <<>>)
\* Runs of lines each continuing the one before (their ends are not wrapped).
\* i..j: the lines of it.
Runs(xs) ==
   FoldLeft(LAMBDA rs, l : LET k == Len(rs) x == xs[l] IN
                           IF IF k = 0 THEN FALSE ELSE x.a = WAdd(rs[k].a, rs[k].n)
                           THEN [rs EXCEPT ![k].n = WAddN(@, 4 * Len(x.vs)), ![k].j = l]
                           ELSE Append(rs, [a |-> x.a, n |-> WOfNat(4 * Len(x.vs)), i |-> l, j |-> l]), <<>>, [l \in 1..Len(xs) |-> l])
Create(m, rs) == FoldLeft(LAMBDA x, r : CreateRegion(x, r.a, r.n).m, m, rs)
\* The words stored one after the other; the first refusal ends it.
Words4(x) == [k \in 1..Len(x.vs) |-> [a |-> WWrap(WAddN(x.a, 4 * (k - 1))), d |-> WBytes(x.vs[k])]]
FillWords(m, xs) ==
   FoldLeft(LAMBDA r, x : FoldLeft(LAMBDA q, w : IF q.c # 0 THEN q ELSE Write(q.m, w.a, w.d), r, Words4(x)), Ok(m, <<>>), xs)
\* The same when no two runs touch each other, or anything that was there before, and none wraps: each is its region.
Apart(a, n, b, k) == WLe(WAdd(a, n), b) \/ WLe(WAdd(b, k), a)
Simple(m, rs) ==
   /\ \A k \in 1..Len(rs) : WLe(WAdd(rs[k].a, rs[k].n), <<65536, 0>>)
                            /\ \A g \in 1..Len(m.r) : Apart(rs[k].a, rs[k].n, m.r[g].base, m.r[g].size)
   /\ \A k, h \in 1..Len(rs) : k < h => Apart(rs[k].a, rs[k].n, rs[h].a, rs[h].n)
FillRuns(m, xs, rs) ==
   [m EXCEPT !.r = @ \o [k \in 1..Len(rs) |->
       LET ws == FlattenSeq([l \in 1..(rs[k].j - rs[k].i + 1) |-> xs[rs[k].i + l - 1].vs])
           bs == FlattenSeq([q \in 1..Len(ws) |-> WBytes(ws[q])])
       IN [NewRegion(rs[k].a, rs[k].n) EXCEPT !.data = PutBytes(@, 0, bs)]]]
Fill(m, xs) == LET rs == Runs(xs) IN IF Simple(m, rs) THEN Ok(FillRuns(m, xs, rs), <<>>) ELSE FillWords(Create(m, rs), xs)
Regs(ctx, ls) == FoldLeft(LAMBDA c, s : IF IsMem(s) THEN c ELSE RegLine(c, s), ctx, ls)

LogDecode(m, ctx, f) ==
   LET ls == Lines(f)
       xs == Shown(ls)
       w == Fill(m, xs)
       c0 == [ctx EXCEPT !.R[18] = Placeholder, !.R[19] = Placeholder]
   IN [m |-> w.m, ctx |-> Regs(c0, ls), c |-> w.c]
=============================================================================
