------------------------------ MODULE Platform ------------------------------
(***************************************************************************)
(* The crashed machine as GDB sees it (libCrashDebug/src/mriPlatform.c):   *)
(* memory m and registers ctx, the stop signal, the explanation of the     *)
(* fault, and the answer to every debugger command.                        *)
(*   Do(s, e): s = [m, ctx], e a command; yields [s, r, con]: the next     *)
(*   state, the reply packets and the console text sent before them.       *)
(***************************************************************************)
EXTENDS MemModel, Text, SequencesExt

FpuBit(ctx) == ctx.flags[2] % 2 = 1
\* R: 19 words R0-R12 SP LR PC xPSR MSP PSP; FPR: 33 words S0-S31 FPSCR.

\* ---- the stop signal -------------------------------------------------------
Exception(ctx) == ctx.ePSR[2] % 256
SignalOf(n) == CASE n = 2 -> 2        \* NMI: SIGINT
                 [] n = 3 -> 11       \* HardFault: SIGSEGV
                 [] n = 4 -> 11       \* MemManage: SIGSEGV
                 [] n = 5 -> 7        \* BusFault: SIGBUS
                 [] n = 6 -> 4        \* UsageFault: SIGILL
                 [] n = 12 -> 5       \* Debug Monitor: SIGTRAP
                 [] OTHER -> 19       \* SIGSTOP
WordStr(w) == HexBytesStr(WBytes(w))                 \* little-endian hex
StopReply(ctx) == "T" \o HexByteStr(SignalOf(Exception(ctx))) \o "0c:" \o WordStr(ctx.R[13]) \o ";0d:" \o WordStr(ctx.R[14])
                  \o ";0e:" \o WordStr(ctx.R[15]) \o ";0f:" \o WordStr(ctx.R[16]) \o ";"

\* ---- what caused the fault ---------------------------------------------------
HFSR == <<57344, 60716>>     \* 0xE000ED2C
CFSR == <<57344, 60712>>     \* 0xE000ED28
MMFAR == <<57344, 60724>>    \* 0xE000ED34
BFAR == <<57344, 60728>>     \* 0xE000ED38
\* "0x" and as many whole bytes as the value needs.
ShortHex(w) == LET b == WBytes(w) IN
   "0x" \o (IF w[1] > 255 THEN HexByteStr(b[4]) ELSE "") \o (IF w[1] > 0 THEN HexByteStr(b[3]) ELSE "")
   \o (IF w[1] > 0 \/ w[2] > 255 THEN HexByteStr(b[2]) ELSE "") \o HexByteStr(b[1])
Captured(m, a) == Read(m, a, 4).c = 0
Held(m, a) == WOfSeq(Read(m, a, 4).v, 1)
Causes(w, cs) == FoldLeft(LAMBDA acc, c : IF Bit(w, c[1]) THEN acc \o "\n    " \o c[2] ELSE acc, "", cs)
Status(w) == "\n  Status Register: " \o ShortHex(w)
Address(m, valid, a) == IF valid /\ Captured(m, a) THEN "\n    Fault Address: " \o ShortHex(Held(m, a)) ELSE ""
MemFault(m) ==
   IF ~Captured(m, CFSR) THEN ""
   ELSE LET w == <<0, Held(m, CFSR)[2] % 256>> IN
        IF w = W0 THEN ""
        ELSE "\n**MPU Fault**" \o Status(w) \o Address(m, Bit(w, 7), MMFAR)
             \o Causes(w, <<<<5, "FP Lazy Preservation">>, <<4, "Stacking Error">>, <<3, "Unstacking Error">>, <<1, "Data Access">>, <<0, "Instruction Fetch">>>>)
BusFault(m) ==
   IF ~Captured(m, CFSR) THEN ""
   ELSE LET w == <<0, Held(m, CFSR)[2] \div 256>> IN
        IF w = W0 THEN ""
        ELSE "\n**Bus Fault**" \o Status(w) \o Address(m, Bit(w, 7), BFAR)
             \o Causes(w, <<<<5, "FP Lazy Preservation">>, <<4, "Stacking Error">>, <<3, "Unstacking Error">>, <<2, "Imprecise Data Access">>,
                            <<1, "Precise Data Access">>, <<0, "Instruction Prefetch">>>>)
UsageFault(m) ==
   IF ~Captured(m, CFSR) THEN ""
   ELSE LET w == <<0, Held(m, CFSR)[1]>> IN
        IF w = W0 THEN ""
        ELSE "\n**Usage Fault**" \o Status(w)
             \o Causes(w, <<<<9, "Divide by Zero">>, <<8, "Unaligned Access">>, <<3, "Coprocessor Access">>, <<2, "Invalid Exception Return State">>,
                            <<1, "Invalid State">>, <<0, "Undefined Instruction">>>>)
HardFault(m) ==
   "\n**Hard Fault**" \o
   (IF ~Captured(m, HFSR) THEN ""
    ELSE LET w == Held(m, HFSR) IN
         Status(w) \o Causes(w, <<<<31, "Debug Event">>, <<1, "Vector Table Read">>, <<30, "Forced">>>>)
         \o (IF Bit(w, 30) THEN MemFault(m) \o BusFault(m) \o UsageFault(m) ELSE ""))
FaultText(m, ctx) ==
   LET n == Exception(ctx) IN
   CASE n = 3 -> HardFault(m) \o "\n" [] n = 4 -> MemFault(m) \o "\n" [] n = 5 -> BusFault(m) \o "\n" [] n = 6 -> UsageFault(m) \o "\n" [] OTHER -> ""

\* ---- registers -----------------------------------------------------------------
WordsStr(ws) == FoldLeft(LAMBDA acc, w : acc \o WordStr(w), "", ws)
AllRegs(ctx) == WordsStr(ctx.R) \o (IF FpuBit(ctx) THEN WordsStr(ctx.FPR) ELSE "")
RegBytes(ctx) == IF FpuBit(ctx) THEN 208 ELSE 76
TakeWords(d, o, n) == [i \in 1..n |-> WOfSeq(d, o + 4 * (i - 1) + 1)]
SetRegs(ctx, d) == IF FpuBit(ctx) THEN [ctx EXCEPT !.R = TakeWords(d, 0, 19), !.FPR = TakeWords(d, 76, 33)]
                   ELSE [ctx EXCEPT !.R = TakeWords(d, 0, 19)]

\* ---- memory -------------------------------------------------------------------
\* Bytes read one by one up to the first that is not there.
Leading(m, a, n) ==
   LET one(acc, i) == IF acc.end THEN acc
                      ELSE LET x == Read(acc.m, WWrap(WAddN(a, i - 1)), 1)
                           IN IF x.c # 0 THEN [acc EXCEPT !.end = TRUE] ELSE [acc EXCEPT !.m = x.m, !.v = Append(@, x.v[1])]
   IN FoldLeft(one, [m |-> m, v |-> <<>>, end |-> FALSE], [i \in 1..n |-> i])
Whole(a, n) == (n = 2 /\ a[2] % 2 = 0) \/ (n = 4 /\ a[2] % 4 = 0)
ReadMem(m, a, n) ==
   IF Whole(a, n) THEN LET x == Read(m, a, n) IN IF x.c # 0 THEN [m |-> m, r |-> "E03"] ELSE [m |-> x.m, r |-> HexBytesStr(x.v)]
   ELSE LET x == Leading(m, a, n) IN [m |-> x.m, r |-> IF x.v = <<>> THEN "E03" ELSE HexBytesStr(x.v)]
\* d: the bytes supplied (d may be shorter than n).
WriteMem(m, a, n, d) ==
   IF Whole(a, n)
   THEN IF Len(d) < n THEN [m |-> m, r |-> "E04"]
        ELSE LET x == Write(m, a, SubSeq(d, 1, n)) IN IF x.c # 0 THEN [m |-> m, r |-> "E03"] ELSE [m |-> x.m, r |-> "OK"]
   ELSE LET one(acc, i) == IF acc.r # "OK" THEN acc
                           ELSE IF i > Len(d) THEN [acc EXCEPT !.r = "E04"]
                           ELSE LET x == Write(acc.m, WWrap(WAddN(a, i - 1)), <<d[i]>>)
                                IN IF x.c # 0 THEN [acc EXCEPT !.r = "E03"] ELSE [acc EXCEPT !.m = x.m]
        IN FoldLeft(one, [m |-> m, r |-> "OK"], [i \in 1..n |-> i])

\* ---- documents ------------------------------------------------------------------
Reg(n, rest) == "<reg name=\"" \o n \o "\" bitsize=\"" \o rest \o "/>\n"
RRegs == FoldLeft(LAMBDA acc, i : acc \o Reg("r" \o NatStr(i), "32\""), "", [i \in 1..13 |-> i - 1])
DRegs == FoldLeft(LAMBDA acc, i : acc \o Reg("d" \o NatStr(i), "64\" type=\"ieee_double\""), "", [i \in 1..16 |-> i - 1])
TargetXml(fpu) ==
   "<?xml version=\"1.0\"?>\n<!DOCTYPE feature SYSTEM \"gdb-target.dtd\">\n<target>\n<feature name=\"org.gnu.gdb.arm.m-profile\">\n" \o RRegs
   \o Reg("sp", "32\" type=\"data_ptr\"") \o Reg("lr", "32\"") \o Reg("pc", "32\" type=\"code_ptr\"") \o Reg("xpsr", "32\" regnum=\"25\"")
   \o "</feature>\n<feature name=\"org.gnu.gdb.arm.m-system\">\n" \o Reg("msp", "32\" regnum=\"26\"") \o Reg("psp", "32\" regnum=\"27\"") \o "</feature>\n"
   \o (IF fpu THEN "<feature name=\"org.gnu.gdb.arm.vfp\">\n" \o DRegs \o Reg("fpscr", "32\" type=\"int\" group=\"float\"") \o "</feature>\n" ELSE "")
   \o "</target>\n"
Part(x, o, n) == LET valid == IF Len(x) > o THEN Len(x) - o ELSE 0 IN
                 IF valid = 0 THEN "l" ELSE IF n > valid THEN "l" \o SubSeq(x, o + 1, Len(x)) ELSE "m" \o SubSeq(x, o + 1, o + n)

\* ---- commands ---------------------------------------------------------------------
S(m, ctx) == [m |-> m, ctx |-> ctx]
Ans(s, r, con) == [s |-> s, r |-> r, con |-> con]
\* What is offered to GDB (followed by a packet size of the program's choice).
Offered == "qXfer:memory-map:read+;qXfer:features:read+;PacketSize="
\* (Re)entering the debugger: the explanation, then the stop reply.
Stopped(s) == Ans(s, <<StopReply(s.ctx)>>, FaultText(s.m, s.ctx))
Do(s, e) ==
   CASE e.k = "?" -> Ans(s, <<StopReply(s.ctx)>>, "")
     [] e.k = "g" -> Ans(s, <<AllRegs(s.ctx)>>, "")
     [] e.k = "G" -> Ans(S(s.m, SetRegs(s.ctx, e.d)), <<"OK">>, "")
     [] e.k = "m" -> LET x == ReadMem(s.m, e.a, e.n) IN Ans(S(x.m, s.ctx), <<x.r>>, "")
     [] e.k \in {"M", "X"} -> LET x == WriteMem(s.m, e.a, e.n, e.d) IN Ans(S(x.m, s.ctx), <<x.r>>, "")
     [] e.k = "map" -> Ans(s, <<Part(Xml(s.m), e.o, e.n)>>, "")
     [] e.k = "xml" -> Ans(s, <<Part(TargetXml(FpuBit(s.ctx)), e.o, e.n)>>, "")
     [] e.k \in {"Z", "z"} -> Ans(s, <<IF e.t \in 1..4 THEN "OK" ELSE "">>, "")
     [] e.k \in {"c", "s", "C", "S"} -> Stopped(s)
     [] e.k = "raw" /\ HasSub(e.x, "qSupported") -> Ans(s, <<Offered>>, "")
     [] OTHER -> Ans(s, <<"">>, "")
=============================================================================
