-------------------------------- MODULE ElfMC -------------------------------
(***************************************************************************)
(* A family of ELF files (well formed, then with one field corrupted or    *)
(* the file cut), checked against an independent statement of what must be *)
(* loaded (C10) and refused (C11).  Every file is emitted as a test.       *)
(***************************************************************************)
EXTENDS Elf, Json, IOUtils, SequencesExt

VARIABLES shape, file, step
vars == <<shape, file, step>>
Big == IOEnv.BIG = "1"
Emitting == IOEnv.EMIT = "1"

H(n) == <<n % 256, n \div 256>>
\* Segment kinds: type, offset, address, file size, memory size.
Seg(t, o, a, fs, ms) == [t |-> t, o |-> o, a |-> a, fs |-> fs, ms |-> ms]
Pay(k) == WOfNat(52 + 108 + 4 * k)                    \* payload k is at this file offset
Segs == {Seg(<<0,1>>, Pay(0), <<0, 0>>, <<0, 4>>, <<0, 4>>),              \* loadable
         Seg(<<0,1>>, Pay(1), <<4096, 16>>, <<0, 5>>, <<1, 0>>),          \* loadable, memory larger
         Seg(<<0,1>>, W0, <<2048, 0>>, <<0, 52>>, <<0, 52>>),             \* the header itself
         Seg(<<0,1>>, Pay(3), <<65535, 65533>>, <<0, 3>>, <<0, 3>>),      \* up to the very top
         Seg(<<0,1>>, Pay(2), <<8192, 0>>, W0, <<0, 64>>),                \* .bss: nothing in the file
         Seg(<<0,1>>, Pay(2), <<8192, 0>>, <<0, 4>>, <<0, 3>>),           \* file size larger than memory size
         Seg(<<28673, 1>>, Pay(2), <<12288, 0>>, <<0, 4>>, <<0, 4>>),     \* ARM_EXIDX
         Seg(<<0,1>>, Pay(9), <<512, 0>>, <<0, 4>>, <<0, 4>>),            \* reaches outside the file
         Seg(<<0,1>>, <<65535, 65535>>, <<512, 0>>, <<0, 4>>, <<0, 4>>),  \* wraps around
         Seg(<<0,1>>, <<65535, 65528>>, <<512, 0>>, <<0, 16>>, <<0, 16>>),
         Seg(<<0,1>>, Pay(4), <<512, 0>>, <<65535, 65533>>, <<65535, 65535>>)}
SegBytes(s) == WBytes(s.t) \o WBytes(s.o) \o WBytes(<<s.a[1], (s.a[2] + 4) % 65536>>) \o WBytes(s.a)
               \o WBytes(s.fs) \o WBytes(s.ms) \o WBytes(<<0, 5>>) \o WBytes(<<0, 4>>)
Tables == {<<>>} \union {<<s>> : s \in Segs} \union {<<s, t>> : s, t \in Segs}
          \union (IF Big THEN {<<s, t, u>> : s, t, u \in Segs} ELSE {})
Shapes == {x \in [segs : Tables, ent : {32, 36}, off : {52}] : Big \/ x.ent = 32 \/ Len(x.segs) # 1}

Ehdr(x, phoff) == <<127, 69, 76, 70, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>> \o H(2) \o H(40) \o WBytes(<<0, 1>>) \o WBytes(<<0, 129>>)
           \o WBytes(phoff) \o WBytes(<<0, 9>>) \o WBytes(<<1280, 2>>) \o H(52) \o H(x.ent) \o H(Len(x.segs)) \o H(40) \o H(0) \o H(0)
Pad(s, n) == s \o [i \in 1..(n - Len(s)) |-> (i * 37) % 256]
Table(x) == FoldLeft(LAMBDA acc, s : acc \o SegBytes(s) \o [i \in 1..(x.ent - 32) |-> 238], <<>>, x.segs)
Build(x) == Pad(Ehdr(x, WOfNat(x.off)) \o Table(x), 52 + 108 + 16)

\* Field corruptions: position and new bytes.
Bad == {[p |-> 0, v |-> <<126>>], [p |-> 3, v |-> <<71>>], [p |-> 1, v |-> <<101>>], [p |-> 4, v |-> <<2>>], [p |-> 4, v |-> <<0>>],
        [p |-> 5, v |-> <<2>>], [p |-> 5, v |-> <<0>>], [p |-> 16, v |-> <<1, 0>>], [p |-> 16, v |-> <<3, 0>>], [p |-> 16, v |-> <<2, 1>>],
        [p |-> 16, v |-> <<0, 0>>], [p |-> 28, v |-> <<0, 0, 0, 0>>], [p |-> 28, v |-> <<255, 255, 255, 255>>], [p |-> 28, v |-> <<240, 255, 255, 255>>],
        [p |-> 28, v |-> <<1, 0, 0, 0>>], [p |-> 28, v |-> <<145, 0, 0, 0>>], [p |-> 28, v |-> <<144, 0, 0, 0>>], [p |-> 28, v |-> <<0, 1, 0, 0>>],
        [p |-> 42, v |-> <<31, 0>>], [p |-> 42, v |-> <<0, 0>>], [p |-> 42, v |-> <<0, 1>>], [p |-> 42, v |-> <<255, 255>>], [p |-> 42, v |-> <<33, 0>>],
        [p |-> 44, v |-> <<0, 0>>], [p |-> 44, v |-> <<4, 0>>], [p |-> 44, v |-> <<255, 255>>], [p |-> 44, v |-> <<0, 1>>],
        \* fields that do not matter
        [p |-> 6, v |-> <<0>>], [p |-> 7, v |-> <<9>>], [p |-> 18, v |-> <<255, 255>>], [p |-> 20, v |-> <<0, 0, 0, 0>>],
        [p |-> 32, v |-> <<255, 255, 255, 255>>], [p |-> 36, v |-> <<255, 255>>], [p |-> 40, v |-> <<0, 0>>], [p |-> 46, v |-> <<255, 255, 255, 255, 255, 255>>]}
Patch(f, b) == [i \in 1..Len(f) |-> IF i > b.p /\ i <= b.p + Len(b.v) THEN b.v[i - b.p] ELSE f[i]]

Init == shape \in Shapes /\ file = Build(shape) /\ step = 0
Corrupt == step = 0 /\ Len(shape.segs) <= 1 /\ step' = 1 /\ shape' = shape /\ \E b \in Bad : file' = Patch(file, b)
CutFile == /\ step = 0 /\ Len(shape.segs) <= (IF Big THEN 2 ELSE 1) /\ step' = 2 /\ shape' = shape
           /\ \E n \in {0, 1, 4, 16, 51, 52, 53, 83, 84, 85, 115, 116, 160, 163, 164, 165, 171, 175} : file' = SubSeq(file, 1, n)
Next == Corrupt \/ CutFile
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Out == ElfLoad(EmptyMem, file)
\* Independent statement: indices of the loadable headers, in order.
Hdr(i) == WNat(PhOff(file)) + (i - 1) * PhEntSize(file)
WellFormed == step = 0 /\ shape.segs # <<>> /\
   \A i \in 1..Len(shape.segs) : shape.segs[i].fs # W0 /\ WLe(shape.segs[i].fs, shape.segs[i].ms) /\ shape.segs[i].t = <<0, 1>> =>
       WLe(WAdd(shape.segs[i].o, shape.segs[i].fs), WOfNat(Len(file)))
LoadList == SelectSeq(shape.segs, LAMBDA s : s.t = <<0, 1>> /\ s.fs # W0 /\ WLe(s.fs, s.ms))
\* C10: exactly the loadable segments, each with exactly its bytes, read-only.
LoadsExactly == WellFormed =>
   IF LoadList = <<>> THEN Out.c = ElfError
   ELSE /\ Out.c = 0 /\ Len(Out.m.r) = Len(LoadList)
        /\ \A i \in 1..Len(LoadList) :
             LET g == Out.m.r[i]  s == LoadList[i] IN
             /\ g.base = s.a /\ g.size = s.fs /\ g.ro /\ ~g.alias
             /\ \A k \in 0..(WNat(s.fs) - 1) : At(g.data, k) = file[WNat(s.o) + k + 1]
\* C11: success is only possible when everything named lies inside the file.
RefusesMalformed == Out.c = 0 =>
   /\ Len(file) >= 52 /\ PhNum(file) >= 1 /\ PhEntSize(file) >= 32
   /\ \A i \in 1..PhNum(file) : WLe(WAddN(PhOff(file), i * PhEntSize(file) - (PhEntSize(file) - 32)), WOfNat(Len(file)))
RefusalExplained == Out.c # 0 => Out.c = ElfError /\ Out.msg # ""
MemWellFormed == MemOK(Out.m)

Test == [d |-> file, segs |-> [i \in 1..Len(shape.segs) |-> [a |-> shape.segs[i].a, n |-> IF WIsNat(shape.segs[i].fs) THEN WNat(shape.segs[i].fs) ELSE 8]]]
Emit == Emitting => PrintT("TEST " \o ToJson(Test))
=============================================================================
