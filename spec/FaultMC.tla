------------------------------- MODULE FaultMC -------------------------------
(***************************************************************************)
(* Every crash as far as its explanation goes: exception number, which     *)
(* fault status registers were captured, and their bits.  C21 and C22 are  *)
(* the invariants, over the lines shown.  Every crash is emitted as a test.*)
(***************************************************************************)
EXTENDS Platform, Json, IOUtils

VARIABLES exc, hi, cap, hfsr, cfsr, step
\* cap: which of CFSR, HFSR, MMFAR, BFAR the dump captured (a set of 1..4); hi: the other bits of the exception PSR.
vars == <<exc, hi, cap, hfsr, cfsr, step>>
Big == IOEnv.BIG = "1"
Emitting == IOEnv.EMIT = "1"

All == {1, 2, 3, 4}
Hs == {<<0, 0>>, <<0, 2>>, <<16384, 0>>, <<32768, 0>>, <<49152, 2>>, <<16383, 65533>>, <<65535, 65535>>}
UBits == {0, 1, 2, 3, 8, 9, 4, 15}
RECURSIVE Sum(_)
Sum(b) == IF b = {} THEN 0 ELSE LET x == CHOOSE x \in b : TRUE IN Pow2(x) + Sum(b \ {x})
Us == {Sum(b) : b \in SUBSET UBits}
Few == {0, 1, 2, 8, 16, 32, 128, 130, 255}
FewU == {0, 1, 8, 512, 256, 65535, 4}
Faults == {3, 4, 5, 6}
\* Each byte of the status register in full while the rest takes a few values; then every kind of omission.
\* Chosen in two steps (so that TLC's workers share the second): the family, exception, captures and upper half; then the rest.
Rest(f, u) == CASE f = 1 -> {<<u, b * 256 + mm>> : b \in {0, 144}, mm \in 0..255}
                [] f = 2 -> {<<u, b * 256 + mm>> : b \in 0..255, mm \in {0, 131}}
                [] f = 3 -> {<<u, b * 256 + mm>> : b \in (IF Big THEN Few ELSE {0, 162}), mm \in (IF Big THEN Few ELSE {0, 131})}
                [] OTHER -> {<<u, 0>>}
Init == step = 0 /\ hi = 0 /\ exc = 0 /\ cap = {} /\ hfsr = W0 /\ cfsr = W0
First == /\ step = 0 /\ UNCHANGED hi
         /\ \/ exc' \in Faults /\ cap' = All /\ hfsr' = <<16384, 0>> /\ cfsr' \in {<<0, 0>>, <<5, 0>>} /\ step' \in {1, 2}
            \/ exc' \in Faults /\ cap' \in SUBSET All /\ hfsr' \in Hs /\ cfsr' \in {<<u, 0>> : u \in (IF Big THEN FewU ELSE {0, 513})} /\ step' = 3
            \/ exc' \in {3, 6} /\ cap' = All /\ hfsr' = <<49152, 2>> /\ cfsr' \in {<<u, 0>> : u \in Us} /\ step' = 4
            \/ exc' \in 0..255 /\ cap' = All /\ hfsr' = <<49152, 2>> /\ cfsr' = <<771, 33410>> /\ step' = 5
Second == step \in 1..3 /\ cfsr' \in Rest(step, cfsr[1]) /\ step' = 4 /\ UNCHANGED <<exc, hi, cap, hfsr>>
\* Only the low 8 bits of the PSR matter: set any other.
Psrs == step = 5 /\ hi' \in {256, 512, 16777216, 65280, 1073741824} /\ step' = 4 /\ UNCHANGED <<exc, cap, hfsr, cfsr>>
Next == First \/ Second \/ Psrs
Spec == Init /\ [][Next]_vars

Mmfar == <<8192, 255>>
Bfar == <<0, 7>>
Put(m, a, w) == LET x == CreateRegion(m, a, <<0, 4>>).m IN Load(x, a, WBytes(w)).m
Mem == LET c(m) == IF 1 \in cap THEN Put(m, CFSR, cfsr) ELSE m
           g(m) == IF 2 \in cap THEN Put(m, HFSR, hfsr) ELSE m
           k(m) == IF 3 \in cap THEN Put(m, MMFAR, Mmfar) ELSE m
           b(m) == IF 4 \in cap THEN Put(m, BFAR, Bfar) ELSE m
       IN b(k(g(c(EmptyMem))))
Psr == <<hi \div 65536, (hi % 65536) + exc>>
Ctx == [flags |-> W0, R |-> [i \in 1..19 |-> W0], ePSR |-> Psr, FPR |-> [i \in 1..33 |-> W0]]

\* C21
SignalRight == SignalOf(Exception(Ctx)) = IF exc = 2 THEN 2 ELSE IF exc \in {3, 4} THEN 11 ELSE IF exc = 5 THEN 7 ELSE IF exc = 6 THEN 4 ELSE IF exc = 12 THEN 5 ELSE 19

\* C22: lines of the explanation (it starts and ends with a new line).
RECURSIVE Lines(_, _, _)
Lines(t, i, cur) == IF i > Len(t) THEN <<cur>>
                    ELSE LET ch == SubSeq(t, i, i) IN IF ch = "\n" THEN <<cur>> \o Lines(t, i + 1, "") ELSE Lines(t, i + 1, cur \o ch)
B(x) == IF x THEN 1 ELSE 0
Forced == exc = 3 /\ 2 \in cap /\ Bit(hfsr, 30)
MM == 1 \in cap /\ cfsr[2] % 256 # 0 /\ (exc = 4 \/ Forced)
BF == 1 \in cap /\ cfsr[2] \div 256 # 0 /\ (exc = 5 \/ Forced)
UF == 1 \in cap /\ cfsr[1] # 0 /\ (exc = 6 \/ Forced)
HF == exc = 3
HS == HF /\ 2 \in cap
C(i) == Bit(cfsr, i)
\* How often each line must appear.
Wanted == <<
   <<"**Hard Fault**", B(HF)>>, <<"**MPU Fault**", B(MM)>>, <<"**Bus Fault**", B(BF)>>, <<"**Usage Fault**", B(UF)>>,
   <<"    Debug Event", B(HS /\ Bit(hfsr, 31))>>, <<"    Vector Table Read", B(HS /\ Bit(hfsr, 1))>>, <<"    Forced", B(HS /\ Bit(hfsr, 30))>>,
   <<"    FP Lazy Preservation", B(MM /\ C(5)) + B(BF /\ C(13))>>, <<"    Stacking Error", B(MM /\ C(4)) + B(BF /\ C(12))>>,
   <<"    Unstacking Error", B(MM /\ C(3)) + B(BF /\ C(11))>>, <<"    Data Access", B(MM /\ C(1))>>, <<"    Instruction Fetch", B(MM /\ C(0))>>,
   <<"    Imprecise Data Access", B(BF /\ C(10))>>, <<"    Precise Data Access", B(BF /\ C(9))>>, <<"    Instruction Prefetch", B(BF /\ C(8))>>,
   <<"    Divide by Zero", B(UF /\ C(25))>>, <<"    Unaligned Access", B(UF /\ C(24))>>, <<"    Coprocessor Access", B(UF /\ C(19))>>,
   <<"    Invalid Exception Return State", B(UF /\ C(18))>>, <<"    Invalid State", B(UF /\ C(17))>>, <<"    Undefined Instruction", B(UF /\ C(16))>>,
   <<"    Fault Address: 0x200000ff", B(MM /\ C(7) /\ 3 \in cap)>>, <<"    Fault Address: 0x07", B(BF /\ C(15) /\ 4 \in cap)>> >>
StatusLines == {IF HS THEN "  Status Register: " \o ShortHex(hfsr) ELSE "", IF MM THEN "  Status Register: " \o ShortHex(<<0, cfsr[2] % 256>>) ELSE "",
                IF BF THEN "  Status Register: " \o ShortHex(<<0, cfsr[2] \div 256>>) ELSE "", IF UF THEN "  Status Register: " \o ShortHex(<<0, cfsr[1]>>) ELSE ""} \ {""}
Times(ls, x) == Cardinality({i \in 1..Len(ls) : ls[i] = x})
Explained ==
   LET t == FaultText(Mem, Ctx) IN
   IF exc \notin Faults THEN t = ""
   ELSE LET ls == Lines(t, 1, "")
            total == FoldLeft(LAMBDA acc, x : acc + x[2], 0, Wanted)
        IN /\ ls[Len(ls)] = ""                                                       \* ends the line
           /\ \A i \in 1..Len(Wanted) : Times(ls, Wanted[i][1]) = Wanted[i][2]
           /\ \A x \in StatusLines : Times(ls, x) > 0
           /\ Len(ls) = 1 + 1 + total + B(HS) + B(MM) + B(BF) + B(UF)
Emit == (Emitting /\ step >= 4) => PrintT("TEST " \o ToJson([psr |-> Psr, cap |-> [i \in 1..4 |-> i \in cap], hfsr |-> hfsr, cfsr |-> cfsr, mmfar |-> Mmfar, bfar |-> Bfar]))
=============================================================================
