-------------------------------- MODULE Elf ---------------------------------
(***************************************************************************)
(* Loading an ELF image (libCrashDebug/src/ElfLoad.c) into the simulated   *)
(* memory: ElfLoad(m, f) is the outcome for file bytes f (a sequence).     *)
(* Outcomes are [m, c, msg]; msg is the required text (or a prefix of it   *)
(* when msgPrefix is TRUE).                                                *)
(***************************************************************************)
EXTENDS MemModel, Text, SequencesExt

ElfError == 29
EhdrSize == 52
PhdrSize == 32
Byte(f, o) == f[o + 1]
Half(f, o) == HOfSeq(f, o + 1)
Wrd(f, o)  == WOfSeq(f, o + 1)

\* [o, o+n) lies inside the file; o and n words, no wrap-around.
InFile(f, o, n) == WLe(WAdd(o, n), WOfNat(Len(f)))

Fail(m, s)  == [m |-> m, c |-> ElfError, msg |-> s, pre |-> FALSE]
FailP(m, s) == [m |-> m, c |-> ElfError, msg |-> s, pre |-> TRUE]

PhOff(f) == Wrd(f, 28)
PhEntSize(f) == Half(f, 42)
PhNum(f) == Half(f, 44)

Loadable(f, o) == Wrd(f, o) = <<0, 1>>                              \* PT_LOAD
                  /\ Wrd(f, o + 16) # W0                            \* p_filesz
                  /\ WLe(Wrd(f, o + 16), Wrd(f, o + 20))            \* <= p_memsz
\* Add one segment: a read-only region holding the file's bytes.
AddSegment(m, paddr, bs) ==
   [m EXCEPT !.r = Append(@, [NewRegion(paddr, WOfNat(Len(bs))) EXCEPT
                                 !.ro = TRUE, !.data = [k \in 0..(Len(bs) - 1) |-> bs[k + 1]]])]

\* Entry i of the table, at offset st.off; st.res holds the refusal, once there is one.
Entry(f, st, i) ==
   LET done(x) == [st EXCEPT !.res = <<x>>] IN
   IF st.res # <<>> THEN st
   ELSE IF ~InFile(f, st.off, WOfNat(PhdrSize))
   THEN done(Fail(st.m, "ELF page header entry " \o NatStr(i) \o " is at an invalid file offset of " \o WStr(st.off) \o "."))
   ELSE LET o == WNat(st.off)
            next == WWrap(WAddN(st.off, PhEntSize(f)))
        IN IF ~Loadable(f, o) THEN [st EXCEPT !.off = next]
           ELSE IF ~InFile(f, Wrd(f, o + 4), Wrd(f, o + 16))
           THEN done(FailP(st.m, "ELF failed to load entry from file at offsets "))
           ELSE LET s == WNat(Wrd(f, o + 4))
                    n == WNat(Wrd(f, o + 16))
                IN [m |-> AddSegment(st.m, Wrd(f, o + 12), SubSeq(f, s + 1, s + n)), off |-> next, count |-> st.count + 1, res |-> <<>>]
Entries(m, f) ==
   LET x == FoldLeft(LAMBDA st, i : Entry(f, st, i), [m |-> m, off |-> PhOff(f), count |-> 0, res |-> <<>>], [i \in 1..PhNum(f) |-> i - 1])
   IN IF x.res # <<>> THEN x.res[1]
      ELSE IF x.count = 0 THEN Fail(x.m, "ELF contained no entries which were loadable and had a valid non-zero filesz <= to memsz.")
      ELSE [m |-> x.m, c |-> 0, msg |-> "", pre |-> FALSE]

ElfLoad(m, f) ==
   CASE Len(f) < EhdrSize -> Fail(m, "ELF was too short to contain valid header.")
     [] Len(f) >= EhdrSize /\ SubSeq(f, 1, 4) # <<127, 69, 76, 70>> -> Fail(m, "ELF header doesn't start with expected magic ELF identifier.")
     [] OTHER ->
        IF Byte(f, 4) # 1 THEN Fail(m, "ELF header doesn't contain 32-bit flag.")
        ELSE IF Byte(f, 5) # 1 THEN Fail(m, "ELF header doesn't contain little endian flag.")
        ELSE IF Half(f, 16) # 2 THEN Fail(m, "ELF header doesn't contain executable flag.")
        ELSE IF PhOff(f) = W0 THEN Fail(m, "ELF header contains an invalid offset of 0 for the page headers.")
        ELSE IF PhNum(f) = 0 THEN Fail(m, "ELF header contains an invalid page header entry count of 0.")
        ELSE IF PhEntSize(f) < PhdrSize
             THEN Fail(m, "ELF header contains a page header entry size of " \o NatStr(PhEntSize(f)) \o ", which is smaller than the expected size of 32.")
        ELSE Entries(m, f)
=============================================================================
