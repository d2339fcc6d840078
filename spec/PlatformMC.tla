----------------------------- MODULE PlatformMC -----------------------------
(***************************************************************************)
(* GDB debugging one of a few crashes with every short sequence of         *)
(* commands.  C20, C23 and C24 are the invariants, over what has been      *)
(* written by explicit commands so far.  Every sequence is a test.         *)
(***************************************************************************)
EXTENDS Platform, Json, IOUtils

VARIABLES fpu, exc, s, regs, wrote, cmds, last
\* regs: the register bytes GDB should read; wrote: address -> byte, what should be in the writable memory.
\* last: [e, r, con, before]: the command just answered and the state before it.
vars == <<fpu, exc, s, regs, wrote, cmds, last>>
Big == IOEnv.BIG = "1"
Emitting == IOEnv.EMIT = "1"
\* Large configuration: all crashes to depth 2, and one of them to depth 3 with the first two commands taken from Early.
Depth == IF Big /\ fpu /\ exc = 3 THEN 3 ELSE 2

\* ---- the crash -------------------------------------------------------------
Ram == <<8192, 0>>
Flash == <<0, 0>>
AliasAt == <<24576, 0>>
Top == <<65535, 65532>>
Op(k, a, b, n, d) == [k |-> k, a |-> a, b |-> b, n |-> n, d |-> d]
Setup == << Op("region", Flash, W0, <<0, 8>>, <<>>), Op("load", Flash, W0, W0, <<171, 190, 0, 190, 5, 6, 7, 8>>), Op("ro", Flash, W0, W0, <<>>),
            Op("region", Ram, W0, <<0, 6>>, <<>>), Op("load", Ram, W0, W0, <<17, 18, 19, 20, 21, 22>>), Op("region", WAddN(Ram, 6), W0, <<0, 2>>, <<>>),
            Op("alias", AliasAt, <<8192, 2>>, <<0, 64>>, <<>>), Op("region", Top, W0, <<0, 4>>, <<>>),
            Op("region", CFSR, W0, <<0, 4>>, <<>>), Op("load", CFSR, W0, W0, <<130, 0, 0, 1>>), Op("region", MMFAR, W0, <<0, 4>>, <<>>) >>
Apply(m, o) == CASE o.k = "region" -> CreateRegion(m, o.a, o.n).m [] o.k = "load" -> Load(m, o.a, o.d).m
                 [] o.k = "ro" -> MakeReadOnly(m, o.a).m [] OTHER -> CreateAlias(m, o.a, o.b, o.n).m
Mem0 == FoldLeft(Apply, EmptyMem, Setup)
Ctx(f, x) == [flags |-> <<0, IF f THEN 1 ELSE 0>>, R |-> [i \in 1..19 |-> IF i = 16 THEN W0 ELSE <<i * 3, 65280 + i>>], ePSR |-> <<256, x>>, FPR |-> [i \in 1..33 |-> <<4096 + i, i>>]]

\* ---- where a byte lives, told directly from the setup: flash, RAM (also seen through the alias), top, status registers --------
Cell(a) == CASE WLe(Flash, a) /\ WLt(a, <<0, 8>>) -> a
             [] WLe(Ram, a) /\ WLt(a, <<8192, 8>>) -> a
             [] WLe(AliasAt, a) /\ WLt(a, <<24576, 4>>) -> WAddN(Ram, 2 + a[2])
             [] WLe(Top, a) -> a
             [] WLe(CFSR, a) /\ WLt(a, WAddN(CFSR, 4)) -> a
             [] WLe(MMFAR, a) /\ WLt(a, WAddN(MMFAR, 4)) -> a
             [] OTHER -> <<-1, -1>>
Nowhere == <<-1, -1>>
InFlash(a) == a[1] = 0 /\ a[2] < 8
First(a) == CASE InFlash(a) -> (<<171, 190, 0, 190, 5, 6, 7, 8>>)[a[2] + 1]
              [] WLe(Ram, a) /\ WLt(a, <<8192, 6>>) -> 17 + a[2]
              [] a = CFSR -> 130 [] a = WAddN(CFSR, 3) -> 1 [] OTHER -> 0
Byte(a) == IF Cell(a) \in DOMAIN wrote THEN wrote[Cell(a)] ELSE First(Cell(a))

\* ---- commands ----------------------------------------------------------------
Cmd(k, a, n, d, o, t, x) == [k |-> k, a |-> a, n |-> n, d |-> d, o |-> o, t |-> t, x |-> x]
K(k) == Cmd(k, W0, 0, <<>>, 0, 0, "")
NewRegs(f, i) == [j \in 1..(IF f THEN 208 ELSE 76) |-> (j * 5 + i) % 256]
Spots == {Flash, <<0, 6>>, Ram, <<8192, 1>>, <<8192, 4>>, <<8192, 5>>, <<8192, 6>>, AliasAt, <<24576, 2>>, <<65535, 65534>>, <<4096, 0>>, CFSR}
Commands(f) ==
   {K("?"), K("g")} \cup {Cmd("G", W0, 0, NewRegs(f, i), 0, 0, "") : i \in 1..2} \cup {Cmd("G", W0, 0, NewRegs(TRUE, 3), 0, 0, "")}
   \cup {Cmd("m", a, n, <<>>, 0, 0, "") : a \in Spots, n \in {1, 2, 3, 4, 8}}
   \cup {Cmd("M", a, n, [i \in 1..n |-> 64 + 16 * n + i], 0, 0, "") : a \in Spots, n \in {1, 2, 3, 4}}
   \cup {Cmd("X", a, n, [i \in 1..n |-> (<<36, 35, 125, 42>>)[i]], 0, 0, "") : a \in {Ram, <<24576, 2>>, <<0, 6>>}, n \in {0, 1, 4}}
   \cup {Cmd("M", Ram, 3, <<1, 2>>, 0, 0, ""), Cmd("M", Ram, 4, <<1, 2>>, 0, 0, "")}
   \cup {Cmd("map", W0, 40, <<>>, 0, 0, ""), Cmd("map", W0, 4000, <<>>, 100, 0, ""), Cmd("xml", W0, 4000, <<>>, 0, 0, ""), Cmd("xml", W0, 16, <<>>, 700, 0, ""),
         Cmd("xml", W0, 16, <<>>, 5000, 0, "")}
   \cup {Cmd(k, a, 2, <<>>, 0, t, "") : k \in {"Z", "z"}, a \in {Flash, Ram}, t \in {1, 2, 3, 4}} \cup {Cmd("Z", Flash, 2, <<>>, 0, 0, "")}
   \cup {Cmd(k, W0, 0, <<>>, 0, 0, x) : k \in {"c", "s"}, x \in {"", "20000000"}} \cup {Cmd("C", W0, 0, <<>>, 0, 0, "05"), Cmd("S", W0, 0, <<>>, 0, 0, "0b;20000000")}
   \cup {Cmd("raw", W0, 0, <<>>, 0, 0, x) : x \in {"H0", "vCont?", "!", "p0", "P0=01000000", "qC", "D"}}

Early(f) == {e \in Commands(f) : e.k \in {"G", "X", "?"} \/ (e.k = "M" /\ e.n \in {2, 3}) \/ (e.k = "c" /\ e.x # "")}

RegsOf(f, x) == LET c == Ctx(f, x)
                    all == c.R \o (IF f THEN c.FPR ELSE <<>>)
                IN [j \in 1..(4 * Len(all)) |-> WBytes(all[((j - 1) \div 4) + 1])[((j - 1) % 4) + 1]]
Init == /\ \E q \in (IF Big THEN BOOLEAN \X {3, 4, 12} ELSE {<<TRUE, 3>>, <<FALSE, 12>>}) : fpu = q[1] /\ exc = q[2] 
        /\ s = [m |-> Mem0, ctx |-> Ctx(fpu, exc)] /\ regs = RegsOf(fpu, exc) /\ wrote = <<>> /\ cmds = <<>>
        /\ last = [e |-> K("none"), r |-> <<>>, con |-> "", before |-> s]
Next ==
   /\ Len(cmds) < Depth
   /\ \E e \in (IF Len(cmds) < Depth - 1 /\ Depth = 3 THEN Early(fpu) ELSE Commands(fpu)) :
        LET x == Do(s, e)
            \* bytes of a write that ought to be stored: all, or those before the first one that cannot be
            sup == IF e.k \in {"M", "X"} THEN Len(e.d) ELSE 0
            can(i) == Cell(WWrap(WAddN(e.a, i - 1))) # Nowhere /\ ~InFlash(Cell(WWrap(WAddN(e.a, i - 1))))
            stored == {i \in 1..sup : x.r[1] = "OK" \/ (~Whole(e.a, e.n) /\ \A j \in 1..i : can(j))}
        IN /\ s' = x.s /\ cmds' = Append(cmds, e) /\ last' = [e |-> e, r |-> x.r, con |-> x.con, before |-> s]
           /\ regs' = IF e.k = "G" THEN SubSeq(e.d, 1, Len(regs)) ELSE regs
           /\ wrote' = FoldLeft(LAMBDA acc, i : IF i \in stored THEN (Cell(WWrap(WAddN(e.a, i - 1))) :> e.d[i]) @@ acc ELSE acc, wrote, [i \in 1..sup |-> i])
   /\ UNCHANGED <<fpu, exc>>
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
E == last.e
R == last.r[1]
\* C20: the registers read are those given or last written; the stop reply shows the current ones.
Hex(ds) == HexBytesStr(ds)
RegsRight == /\ AllRegs(s.ctx) = Hex(regs)
             /\ E.k = "g" => R = Hex(regs)
             /\ E.k \in {"?", "c", "s", "C", "S"} =>
                  R = "T" \o HexByteStr(SignalOf(exc)) \o "0c:" \o Hex(SubSeq(regs, 49, 52)) \o ";0d:" \o Hex(SubSeq(regs, 53, 56)) \o ";0e:" \o Hex(SubSeq(regs, 57, 60))
                      \o ";0f:" \o Hex(SubSeq(regs, 61, 64)) \o ";"
             /\ ~fpu => s.ctx.FPR = Ctx(fpu, exc).FPR
             /\ E.k = "xml" => (E.n = 4000 => HasSub(R, "arm.vfp") = fpu)
\* C23
Addr(i) == WWrap(WAddN(E.a, i - 1))
AllThere == \A i \in 1..E.n : Cell(Addr(i)) # Nowhere
ReadsRight == E.k = "m" =>
   \/ AllThere /\ R = Hex([i \in 1..E.n |-> Byte(Addr(i))])
   \/ R = "E03" /\ ~(AllThere /\ ~Whole(E.a, E.n))                                \* 16/32-bit access spanning two regions is refused
   \/ ~AllThere /\ \E k \in 1..(E.n - 1) : (\A i \in 1..k : Cell(Addr(i)) # Nowhere) /\ R = Hex([i \in 1..k |-> Byte(Addr(i))])
WritesRight == E.k \in {"M", "X"} =>
   \/ R = "OK" /\ \A i \in 1..E.n : Cell(Addr(i)) # Nowhere /\ ~InFlash(Cell(Addr(i)))
   \/ R \in {"E03", "E04"}
Places == Spots \cup {WAddN(Ram, i) : i \in 0..7} \cup {WAddN(Top, i) : i \in 0..3} \cup {<<0, i>> : i \in 0..7}
MemoryRight == \A a \in Places : ByteAt(s.m, a) = IF Cell(a) = Nowhere THEN -1 ELSE Byte(a)
\* C24: only writes change anything, and what is asked again is answered again.
Writes == {"G", "M", "X"}
Inert == /\ E.k \notin Writes => s.ctx = last.before.ctx /\ \A a \in Places : ByteAt(s.m, a) = ByteAt(last.before.m, a)
         /\ E.k \in {"Z", "z"} => R \in {"OK", ""}
         /\ s.ctx.ePSR = <<256, exc>> /\ Xml(s.m) = Xml(Mem0)
Inv == cmds # <<>> => RegsRight /\ ReadsRight /\ WritesRight /\ MemoryRight /\ Inert
EmitCrash == (Emitting /\ cmds = <<>>) => PrintT("TEST " \o ToJson([fpu |-> fpu, exc |-> exc, setup |-> Setup, ctx |-> s.ctx]))
Emit == (Emitting /\ Len(cmds) = Depth) => PrintT("TEST " \o ToJson([on |-> [fpu |-> fpu, exc |-> exc], cmds |-> cmds]))
=============================================================================
