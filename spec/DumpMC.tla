------------------------------- MODULE DumpMC -------------------------------
(***************************************************************************)
(* CrashCatcher writes a crash as a dump; the dump may be transcribed to   *)
(* hex, interspersed with new lines, cut, corrupted; CrashDebug reads it.  *)
(* Exhaustive over a family of crashes and all cuts; C12-C14 are the       *)
(* invariants.  Every reached file is emitted as a conformance test.       *)
(***************************************************************************)
EXTENDS Dump, Json, IOUtils, SequencesExt

VARIABLES crash, file, kind, cut, noisy
vars == <<crash, file, kind, cut, noisy>>

Big == IOEnv.BIG = "1"
Emitting == IOEnv.EMIT = "1"
R0(i) == <<(i * 4099) % 65536, (65535 - i * 257) % 65536>>
Reg(a, d) == [a |-> a, d |-> d]
RegionSets == {<<>>, <<Reg(<<8192, 0>>, <<170>>)>>, <<Reg(<<8192, 0>>, <<1, 2, 255>>), Reg(<<8192, 3>>, <<>>)>>,
               <<Reg(<<65535, 65532>>, <<9, 8, 7>>), Reg(<<0, 1>>, <<99, 67, 3, 0, 5>>)>>}
Crashes == [ver : {2, 3}, fp : BOOLEAN, regs : RegionSets, sent : BOOLEAN]

Ctx0 == [flags |-> W0, R |-> [i \in 1..19 |-> W0], ePSR |-> W0, FPR |-> [i \in 1..33 |-> <<1, 1>>]]
Flags(c) == IF c.fp THEN <<0, 1>> ELSE <<32768, 0>>
RegsOf(c) == [i \in 1..(IF c.ver = 3 THEN 19 ELSE 17) |-> R0(i)]
FprOf == [i \in 1..33 |-> R0(40 + i)]
Flat(ws) == FoldLeft(LAMBDA acc, w : acc \o WBytes(w), <<>>, ws)
RegBytes(g) == WBytes(g.a) \o WBytes(WWrap(WAddN(g.a, Len(g.d)))) \o g.d
Header(c) == <<99, 67, c.ver, 0>> \o WBytes(Flags(c)) \o Flat(RegsOf(c)) \o WBytes(R0(30))
             \o (IF c.fp THEN Flat(FprOf) ELSE <<>>)
RegionPart(gs) == FoldLeft(LAMBDA acc, g : acc \o RegBytes(g), <<>>, gs)
Encode(c) == Header(c) \o RegionPart(c.regs) \o (IF c.sent THEN WBytes(Sentinel) ELSE <<>>)

Ctx(c) == [flags |-> Flags(c), R |-> RegsOf(c) \o (IF c.ver = 2 THEN <<Unknown, Unknown>> ELSE <<>>), ePSR |-> R0(30),
           FPR |-> IF c.fp THEN FprOf ELSE Ctx0.FPR]
MemOf(gs) == FoldLeft(LAMBDA m, g : [m EXCEPT !.r = Append(@, [NewRegion(g.a, WOfNat(Len(g.d))) EXCEPT
                                        !.data = [k \in 0..(Len(g.d)-1) |-> g.d[k+1]]])], EmptyMem, gs)

HexL(b) == <<HexCharL(b \div 16), HexCharL(b % 16)>>
HexU(b) == <<HexChar(b \div 16), HexChar(b % 16)>>
Hexify(bs, style) == FoldLeft(LAMBDA acc, b : acc \o (IF style = 0 \/ (style = 2 /\ Len(acc) % 4 = 0) THEN HexL(b) ELSE HexU(b)), <<>>, bs)
\* A new line after every k characters (k odd splits byte pairs), CRLF when crlf.
Lines(t, k, crlf) == FoldLeft(LAMBDA acc, i : acc \o (IF i % k = 0 THEN (IF crlf THEN <<13, 10>> ELSE <<10>>) ELSE <<>>) \o <<t[i]>>,
                              <<>>, [i \in 1..Len(t) |-> i])

Stream == IF kind = "hex" THEN HexStream(file) ELSE BinStream(file)
Out == Decode(EmptyMem, Ctx0, Stream)

Init == crash \in Crashes /\ file = Encode(crash) /\ kind = "bin" /\ cut = -1 /\ noisy = 0
Fresh == cut = -1 /\ kind = "bin" /\ noisy = 0
Cut == /\ Fresh
       /\ \E n \in 0..(Len(file) - 1) :
             /\ Big \/ n % 4 \in {0, 1} \/ n >= Len(Header(crash)) - 1
             /\ file' = SubSeq(file, 1, n) /\ cut' = n /\ UNCHANGED <<crash, kind, noisy>>
Transcribe == /\ kind = "bin" /\ (Big \/ cut = -1 \/ cut % 8 = 0) /\ noisy = 0
              /\ \E st \in 0..2 : file' = Hexify(file, st)
              /\ kind' = "hex" /\ UNCHANGED <<crash, cut, noisy>>
Fold == /\ kind = "hex" /\ noisy = 0
        /\ \E k \in {1, 3, 16} : \E crlf \in BOOLEAN : file' = Lines(file, k, crlf)
        /\ noisy' = 1 /\ UNCHANGED <<crash, kind, cut>>
\* A single foreign character somewhere in a hex dump.
Spoil == /\ kind = "hex" /\ noisy = 0 /\ cut = -1
         /\ \E i \in {1, 2, 8, 9, 17, 100, Len(file) - 2, Len(file) - 1} : \E ch \in {0, 32, 9, 47, 58, 64, 71, 96, 103, 255} :
               i <= Len(file) /\ file' = [file EXCEPT ![i] = ch]
         /\ noisy' = 2 /\ UNCHANGED <<crash, kind, cut>>
\* A wrong signature or version.
Forge == /\ Fresh
         /\ \E i \in 1..4 : \E v \in {0, 1, 2, 3, 4, 67, 99, 255} : v # file[i] /\ file' = [file EXCEPT ![i] = v]
         /\ noisy' = 3 /\ UNCHANGED <<crash, kind, cut>>
Next == Cut \/ Transcribe \/ Fold \/ Spoil \/ Forge
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Intact == cut = -1 /\ noisy \in {0, 1}
\* C12 (bin) and C13 (hex): an intact dump is reconstructed exactly.
Exact == Intact =>
   IF crash.sent THEN Out.c = StackOverflow /\ Out.m = MemOf(crash.regs)
   ELSE Out.c = 0 /\ Out.ctx = Ctx(crash) /\ Out.m = MemOf(crash.regs)
\* C13: transcription changes nothing, whatever is left of the dump.
HexSame == kind = "hex" /\ noisy \in {0, 1} =>
   LET b == IF cut = -1 THEN Encode(crash) ELSE SubSeq(Encode(crash), 1, cut) IN
   HexStream(file) = BinStream(b)
SpoiltRefused == noisy = 2 => Out.c # 0
\* C14: a cut dump is refused unless the cut is exactly between regions (or leaves only the sentinel).
Boundaries == {Len(Header(crash)) + Len(RegionPart(SubSeq(crash.regs, 1, k))) : k \in 0..Len(crash.regs)}
CutReported == cut >= 0 =>
   IF cut \in Boundaries THEN Out.c = 0 /\ Out.ctx = Ctx(crash) ELSE Out.c = FormatError /\ Out.msg # ""
ForgedRefused == noisy = 3 => (Out.c = FormatError \/ (SubSeq(file, 1, 4) \in {<<99, 67, 2, 0>>, <<99, 67, 3, 0>>}))
\* Whatever happens, the regions wholly read before the damage are there.
Prefix == \E k \in 0..Len(crash.regs) : noisy = 0 /\ Out.m = MemOf(SubSeq(crash.regs, 1, k))
Kept == (cut >= 0 /\ noisy = 0) => Prefix

Test == [kind |-> kind, d |-> file, regs |-> [i \in 1..Len(crash.regs) |-> [a |-> crash.regs[i].a, n |-> Len(crash.regs[i].d)]]]
Emit == Emitting => PrintT("TEST " \o ToJson(Test))
=============================================================================
