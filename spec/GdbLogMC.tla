------------------------------ MODULE GdbLogMC ------------------------------
(***************************************************************************)
(* GDB writes a session to a log line by line: memory, registers and other *)
(* text in any order.  Exhaustive over short logs; C15 and C16 are the     *)
(* invariants, stated over what was shown and not over how it is parsed.   *)
(* Every reached log is emitted as a conformance test.                     *)
(***************************************************************************)
EXTENDS GdbLog, Json, IOUtils, SequencesExt

VARIABLES file, shown, regs, runs, next, n
\* shown: <<address, word>> pairs in order; regs: register number (1-19, 101-133) -> last value;
\* runs: [a, n (words)] of the memory lines in order; next: where a continuing line would be.
vars == <<file, shown, regs, runs, next, n>>

Big == IOEnv.BIG = "1"
Emitting == IOEnv.EMIT = "1"
Depth == IF Big THEN 4 ELSE 3

Hex0x(w) == LET q == Nibbles(w) IN <<48, 120>> \o [i \in 1..8 |-> HexCharL(q[i])]
Dec(n0) == IF n0 < 10 THEN <<48 + n0>> ELSE <<48 + n0 \div 10, 48 + (n0 % 10)>>
Vals == <<<<0, 7>>, <<57005, 48879>>, <<65535, 65535>>, <<0, 0>>>>
Sym == <<60, 109, 97, 105, 110, 43, 52, 62>>                            \* <main+4>
SymT == <<60, 115, 60, 105, 110, 116, 44, 32, 98, 62, 58, 58, 102, 40, 105, 110, 116, 41, 43, 56, 62>>  \* <s<int, b>::f(int)+8>
\* A memory line in one of several shapes.
MemText(a, k, style) ==
   LET vs == [i \in 1..k |-> Vals[((a[2] + i) % 4) + 1]]
       one(v) == IF style = 3 THEN Dec(7) ELSE Hex0x(v)
       body == FoldLeft(LAMBDA acc, v : acc \o <<9>> \o one(v), <<>>, vs)
   IN Hex0x(a) \o (CASE style = 0 -> <<58>> [] style = 1 -> <<32>> \o Sym \o <<58>> [] style = 2 -> <<32>> \o SymT \o <<58>> [] OTHER -> <<58, 32>>)
      \o body \o (IF style = 2 THEN <<32, 13, 10>> ELSE <<10>>)
ValsOf(a, k, style) == [i \in 1..k |-> IF style = 3 THEN <<0, 7>> ELSE Vals[((a[2] + i) % 4) + 1]]
Bases == {<<8192, 0>>, <<8192, 16>>, <<0, 0>>, <<65535, 65528>>}
Noise == <<
   <<10>>,
   <<48, 120, 48, 56, 48, 48, 48, 49, 50, 51, 32, 105, 110, 32, 102, 10>>,                    \* 0x08000123 in f
   <<48, 120, 50, 48, 48, 48, 48, 48, 48, 58, 9, 48, 120, 49, 10>>,                           \* 0x2000000:\t0x1 (7 digits)
   <<48, 120, 50, 48, 48, 48, 48, 48, 48, 48, 58, 10>>,                                       \* 0x20000000: and nothing more
   <<114, 49, 51, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 48, 120, 49, 10>>,          \* r13            0x1
   <<114, 49, 32, 32, 32, 48, 120, 49, 10>>,                                                  \* r1   0x1
   <<48, 120, 50, 48, 48, 48, 48, 48, 48, 48, 58, 32, 67, 97, 110, 110, 111, 116, 10>>,       \* 0x20000000: Cannot
   <<67, 97, 110, 110, 111, 116, 32, 97, 99, 99, 101, 115, 115, 32, 48, 120, 50, 48, 48, 48, 48, 48, 48, 48, 10>> >>
RegNames(r) == IF r < 100 THEN IntNames[r] ELSE FloatNames[r - 100]
RegText(r, v, style) ==
   IF r \in 101..132 THEN RegNames(r) \o (IF style = 0 THEN <<49>> ELSE <<45, 110, 97, 110>>) \o <<9>> \o Raw \o Hex0x(v) \o <<41, 10>>
   ELSE RegNames(r) \o (IF style = 0 THEN Hex0x(v) \o <<9, 45, 49>> ELSE Dec(v[2])) \o <<10>>
RegSet == IF Big THEN (1..19) \cup (101..133) ELSE {1, 2, 11, 14, 15, 17, 18, 19, 101, 102, 111, 132, 133}

Init == file = <<>> /\ shown = <<>> /\ regs = <<>> /\ runs = <<>> /\ next = <<-1, -1>> /\ n = 0
ShowMem(a, k, style) ==
   LET vs == ValsOf(a, k, style) IN
   /\ file' = file \o MemText(a, k, style)
   /\ shown' = shown \o [i \in 1..k |-> <<WAddN(a, 4 * (i - 1)), vs[i]>>]
   /\ runs' = IF a = next THEN [runs EXCEPT ![Len(runs)].n = @ + k] ELSE Append(runs, [a |-> a, n |-> k])
   /\ next' = WAddN(a, 4 * k)
   /\ UNCHANGED regs
Mem == \E a \in Bases \cup (IF next = <<-1, -1>> \/ next[1] >= 65536 THEN {} ELSE {next}) : \E k \in 1..4 : \E style \in 0..3 :
          /\ WLe(WAddN(a, 4 * k), <<65536, 0>>)
          /\ (n > 0 /\ ~Big) => (style = k % 4 /\ k \in {1, 4} /\ a[1] # 0)
          /\ ShowMem(a, k, style)
Reg == \E r \in RegSet : \E style \in 0..1 :
          LET v == IF style = 1 /\ r \notin 101..132 THEN <<0, 42>> ELSE <<(r * 911) % 65536, 40000 + n>> IN
          /\ (n > 0 /\ ~Big) => r \in {15, 19, 102, 133}
          /\ file' = file \o RegText(r, v, style)
          /\ regs' = (r :> v) @@ regs /\ UNCHANGED <<shown, runs, next>>
Other == \E k \in 1..Len(Noise) : file' = file \o Noise[k] /\ UNCHANGED <<shown, regs, runs, next>>
Next == n < Depth /\ n' = n + 1 /\ (Mem \/ Reg \/ Other)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Prior == <<17, 17>>
Ctx0 == [flags |-> W0, R |-> [i \in 1..19 |-> Prior], ePSR |-> Prior, FPR |-> [i \in 1..33 |-> Prior]]
Out == LogDecode(EmptyMem, Ctx0, file)
LastShown(a) == LET is == {i \in 1..Len(shown) : shown[i][1] = a} IN shown[CHOOSE i \in is : \A j \in is : j <= i][2]
\* C15
WordsShown(o) == \A i \in 1..Len(shown) : LET a == shown[i][1] IN Read(o.m, a, 4) = Ok(o.m, WBytes(LastShown(a)))
RegionsShown(o) == [i \in 1..Len(o.m.r) |-> [a |-> o.m.r[i].base, n |-> o.m.r[i].size]] = [i \in 1..Len(runs) |-> [a |-> runs[i].a, n |-> WOfNat(4 * runs[i].n)]]
\* C16
RegsShown(o) ==
             /\ \A i \in 1..19 : o.ctx.R[i] = IF i \in DOMAIN regs THEN regs[i] ELSE IF i >= 18 THEN Placeholder ELSE Prior
             /\ \A i \in 1..33 : o.ctx.FPR[i] = IF 100 + i \in DOMAIN regs THEN regs[100 + i] ELSE Prior
             /\ o.ctx.flags = <<0, IF DOMAIN regs \cap (101..132) # {} THEN 1 ELSE 0>>
             /\ o.ctx.ePSR = Prior
Reproduced == LET o == Out IN o.c = 0 /\ WordsShown(o) /\ RegionsShown(o) /\ RegsShown(o)
Test == [d |-> file, regs |-> [i \in 1..Len(runs) |-> [a |-> runs[i].a, n |-> 4 * runs[i].n]]]
Emit == Emitting => PrintT("TEST " \o ToJson(Test))
=============================================================================
