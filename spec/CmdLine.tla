------------------------------- MODULE CmdLine -------------------------------
(***************************************************************************)
(* Starting CrashDebug (libCrashDebug/src/CrashDebugCommandLine.c): from   *)
(* the command line and the files it names to the memory and registers     *)
(* that are debugged, or to the error that is reported.                    *)
(* args: sequence of arguments (character codes); files: sequence of       *)
(* [n |-> name, dir |-> is a directory, d |-> contents].                   *)
(* Start(args, files) = [c, msg, pre, any, m, ctx].                        *)
(***************************************************************************)
EXTENDS MemModel, Text, SequencesExt

E == INSTANCE Elf
D == INSTANCE Dump
L == INSTANCE GdbLog

InvalidArgument == 4
FileError == 27
Zeroes(n) == [i \in 1..n |-> W0]
Ctx0 == [flags |-> W0, R |-> Zeroes(19), ePSR |-> W0, FPR |-> Zeroes(33)]

Out(c, msg, m, ctx) == [c |-> c, msg |-> msg, pre |-> FALSE, any |-> FALSE, m |-> m, ctx |-> ctx]
Bad(c, msg) == Out(c, msg, EmptyMem, Ctx0)
BadP(c, msg) == [Bad(c, msg) EXCEPT !.pre = TRUE]
Wrong(msg) == Bad(InvalidArgument, msg)

\* ---- arguments -----------------------------------------------------------
Lower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
OptBin == <<45, 45, 98, 105, 110>>
OptElf == <<45, 45, 101, 108, 102>>
OptDump == <<45, 45, 100, 117, 109, 112>>
OptAlias == <<45, 45, 97, 108, 105, 97, 115>>
Number(s) == LET n == L!Num(s, 1) IN IF n.ok THEN n.v ELSE W0

\* <<>> or <<value>>: the last occurrence of each option; every alias in order.
NoOpts == [elf |-> <<>>, bin |-> <<>>, dump |-> <<>>, aliases |-> <<>>, err |-> ""]
RECURSIVE Scan(_, _, _)
Scan(args, i, o) ==
   IF i > Len(args) THEN o
   ELSE LET a == args[i]
            left == Len(args) - i
            opt == Lower(a)
        IN IF SubSeq(a, 1, IF Len(a) < 2 THEN Len(a) ELSE 2) # <<45, 45>> THEN [o EXCEPT !.err = "Command line options must start with \"--\"."]
           ELSE IF opt = OptBin
           THEN IF left < 2 THEN [o EXCEPT !.err = "The --bin command line option requires filename and base address."]
                ELSE Scan(args, i + 3, [o EXCEPT !.bin = <<[n |-> args[i + 1], a |-> Number(args[i + 2])]>>])
           ELSE IF opt = OptElf
           THEN IF left < 1 THEN [o EXCEPT !.err = "The --elf command line option requires filename."]
                ELSE Scan(args, i + 2, [o EXCEPT !.elf = <<args[i + 1]>>])
           ELSE IF opt = OptDump
           THEN IF left < 1 THEN [o EXCEPT !.err = "The --dump command line option requires filename."]
                ELSE Scan(args, i + 2, [o EXCEPT !.dump = <<args[i + 1]>>])
           ELSE IF opt = OptAlias
           THEN IF left < 3 THEN [o EXCEPT !.err = "The --alias command line option requires baseAddress, size, and redirectAddress."]
                ELSE Scan(args, i + 4, [o EXCEPT !.aliases = Append(@, [b |-> Number(args[i + 1]), s |-> Number(args[i + 2]), r |-> Number(args[i + 3])])])
           ELSE [o EXCEPT !.err = "\"" \o StrOf(a) \o "\" isn't a valid command line option."]

\* ---- files ---------------------------------------------------------------
Kind(files, n) == LET is == {i \in 1..Len(files) : files[i].n = n} IN
                  IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : j <= i
CantOpen(n) == Bad(FileError, "Failed to open \"" \o StrOf(n) \o "\".")

\* ---- the image -----------------------------------------------------------
CantLoad(a) == "Failed to load read-only code into memory region at address 0x" \o Hex8(a) \o "."
LoadBin(m, a, d) ==
   LET x == Load(CreateRegion(m, a, WOfNat(Len(d))).m, a, d)
       y == MakeReadOnly(x.m, a)
   IN IF x.c # 0 THEN Bad(x.c, CantLoad(a)) ELSE IF y.c # 0 THEN Bad(y.c, CantLoad(a)) ELSE Out(0, "", y.m, Ctx0)
Image(o, files) ==
   LET n == IF o.elf # <<>> THEN o.elf[1] ELSE o.bin[1].n
       f == Kind(files, n)
   IN IF f = 0 THEN CantOpen(n)
      ELSE IF files[f].dir THEN BadP(-1, "Failed to ")        \* what fails for a directory is up to the system
      ELSE IF o.elf # <<>> THEN LET x == E!ElfLoad(EmptyMem, files[f].d)
                                IN IF x.c # 0 THEN [Bad(x.c, x.msg) EXCEPT !.pre = x.pre] ELSE Out(0, "", x.m, Ctx0)
      ELSE LoadBin(EmptyMem, o.bin[1].a, files[f].d)

\* ---- the dump: recognised by how it starts --------------------------------
Starts(d, p) == Len(d) >= Len(p) /\ SubSeq(d, 1, Len(p)) = p
DumpType(d) == IF Starts(d, <<99, 67>>) THEN "bin" ELSE IF Starts(d, <<54, 51, 52, 51>>) THEN "hex" ELSE "log"
ReadDump(m, o, files) ==
   LET n == o.dump[1]
       f == Kind(files, n)
   IN IF f = 0 THEN CantOpen(n)
      ELSE IF files[f].dir THEN BadP(FileError, "Failed to read ")
      ELSE LET d == files[f].d
               t == DumpType(d)
           IN IF t = "log" THEN LET x == L!LogDecode(m, Ctx0, d)
                                IN IF x.c # 0 THEN BadP(x.c, "") ELSE Out(0, "", x.m, x.ctx)
              ELSE LET x == D!Decode(m, Ctx0, IF t = "hex" THEN D!HexStream(d) ELSE D!BinStream(d))
                   IN IF x.c # 0 THEN [Bad(x.c, x.msg) EXCEPT !.pre = x.pre] ELSE Out(0, "", x.m, x.ctx)

\* ---- aliases, in order ----------------------------------------------------
Aliases(x, as) ==
   FoldLeft(LAMBDA st, al :
      IF st.c # 0 THEN st
      ELSE LET y == CreateAlias(st.m, al.b, al.r, al.s)
           IN IF y.c # 0 THEN Bad(y.c, "Failed to create alias of 0x" \o Hex8(al.b) \o " to 0x" \o Hex8(al.r) \o " of size " \o SStr(al.s) \o ".")
              ELSE [st EXCEPT !.m = y.m], x, as)

StartWith(o, files) ==
   IF o.err # "" THEN Wrong(o.err)
   ELSE IF o.elf = <<>> /\ o.bin = <<>> THEN Wrong("Must provide --bin or --elf command line option.")
   ELSE IF o.dump = <<>> THEN Wrong("Must provide --dump command line option.")
   ELSE LET im == Image(o, files)
        IN IF im.c # 0 THEN im
           ELSE LET x == ReadDump(im.m, o, files)
                IN IF x.c # 0 THEN x ELSE Aliases(x, o.aliases)
Start(args, files) == StartWith(Scan(args, 1, NoOpts), files)
=============================================================================
