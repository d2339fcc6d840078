------------------------------- MODULE CmdMC -------------------------------
(***************************************************************************)
(* A user types a command line, option group by option group, in front of  *)
(* a fixed set of files.  Exhaustive over short command lines.  C17 and    *)
(* C18 are the invariants: they are stated over what was asked for (the    *)
(* last image, the last dump, the aliases in order) and over what the      *)
(* files hold, not over how the arguments are scanned.  Every command line *)
(* reached is emitted as a conformance test.                               *)
(***************************************************************************)
EXTENDS CmdLine, Samples, Json, IOUtils

VARIABLES args, last, n, broken
\* last: [img, dump, alias]: what is wanted so far; broken: the line ends in something invalid.
vars == <<args, last, n, broken>>
Big == IOEnv.BIG = "1"
Emitting == IOEnv.EMIT = "1"
Depth == IF Big THEN 4 ELSE 3

\* ---- option groups ---------------------------------------------------------
N1 == <<48, 120, 49, 48, 48, 48, 48, 48>>                                        \* 0x100000
N2 == <<49, 49, 52, 54, 56, 56>>                                                 \* 114688 = 0x1C000
Upper(s) == [i \in 1..Len(s) |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i]]
G(a, k, w) == [a |-> a, k |-> k, w |-> w]
None == <<>>
Groups == <<
   G(<<OptElf, <<101>>>>, "img", <<[elf |-> TRUE, n |-> <<101>>, a |-> W0]>>),
   G(<<Upper(OptElf), <<69>>>>, "img", <<[elf |-> TRUE, n |-> <<69>>, a |-> W0]>>),
   G(<<OptBin, <<105>>, N1>>, "bin", <<[elf |-> FALSE, n |-> <<105>>, a |-> <<16, 0>>]>>),
   G(<<Upper(OptBin), <<101>>, N2>>, "bin", <<[elf |-> FALSE, n |-> <<101>>, a |-> <<1, 49152>>]>>),
   G(<<OptDump, <<98>>>>, "dump", <<98>>), G(<<Upper(OptDump), <<104>>>>, "dump", <<104>>), G(<<OptDump, <<108>>>>, "dump", <<108>>),
   G(<<OptDump, <<116>>>>, "dump", <<116>>), G(<<OptDump, <<99>>>>, "dump", <<99>>), G(<<OptDump, <<99, 67>>>>, "dump", <<99, 67>>),
   G(<<OptDump, <<54>>>>, "dump", <<54>>), G(<<OptDump, <<122>>>>, "dump", <<122>>), G(<<OptDump, <<46, 98, 105, 110>>>>, "dump", <<46, 98, 105, 110>>),
   G(<<OptDump, OptElf>>, "dump", OptElf), G(<<OptDump, <<110, 111>>>>, "dump", <<110, 111>>),
   G(<<OptElf, <<110, 111>>>>, "img", <<[elf |-> TRUE, n |-> <<110, 111>>, a |-> W0]>>),
   G(<<OptAlias, <<48, 120, 51, 48, 48, 48, 48, 48, 48, 48>>, <<50>>, <<48, 120, 50, 48, 48, 48, 48, 48, 48, 49>>>>, "alias",
     <<[b |-> <<12288, 0>>, s |-> <<0, 2>>, r |-> <<8192, 1>>]>>),                \* 0x30000000 2 0x20000001
   G(<<Upper(OptAlias), <<48, 120, 51, 48, 48, 48, 48, 49, 48, 48>>, <<49, 54>>, <<48, 120, 51, 48, 48, 48, 48, 48, 48, 49>>>>, "alias",
     <<[b |-> <<12288, 256>>, s |-> <<0, 16>>, r |-> <<12288, 1>>]>>),            \* 0x30000100 16 0x30000001: of the other alias
   G(<<OptAlias, <<49>>, <<49>>, <<48, 120, 55, 48, 48, 48, 48, 48, 48, 48>>>>, "alias", <<[b |-> <<0, 1>>, s |-> <<0, 1>>, r |-> <<28672, 0>>]>>),
   G(<<OptElf>>, "broken", None), G(<<OptBin, <<105>>>>, "broken", None), G(<<OptDump>>, "broken", None), G(<<OptAlias, <<49>>, <<49>>>>, "broken", None),
   G(<<<<101>>>>, "broken", None), G(<<<<45, 45>>>>, "broken", None), G(<<<<45>>>>, "broken", None), G(<<<<45, 101, 108, 102>>, <<101>>>>, "broken", None),
   G(<<<<45, 45, 101, 108, 102, 120>>, <<101>>>>, "broken", None), G(<<<<45, 45, 101, 108>>, <<101>>>>, "broken", None), G(<<<<>>>>, "broken", None) >>

Init == args = <<>> /\ last = [elf |-> <<>>, bin |-> <<>>, dump |-> <<>>, alias |-> <<>>] /\ n = 0 /\ broken = FALSE
Next == /\ n < Depth /\ ~broken /\ n' = n + 1
        /\ \E k \in 1..Len(Groups) : LET g == Groups[k] IN
             /\ args' = args \o g.a
             /\ last' = CASE g.k = "img" -> [last EXCEPT !.elf = g.w] [] g.k = "bin" -> [last EXCEPT !.bin = g.w]
                          [] g.k = "dump" -> [last EXCEPT !.dump = <<g.w>>] [] g.k = "alias" -> [last EXCEPT !.alias = @ \o g.w] [] OTHER -> last
             /\ broken' = (g.k = "broken")
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Kept == <<8192, 0>>
ImgOf(x) == IF x.elf = <<>> THEN x.bin ELSE x.elf
Held(bs) == [k \in 0..(Len(bs) - 1) |-> bs[k + 1]]
ImageThere(o, g) == IF g.elf THEN LET d == FileD(g.n)
                                      a == IF g.n = <<101>> THEN <<1, 0>> ELSE <<2, 0>>
                                  IN o.m.r[1].base = a /\ o.m.r[1].data = Held(SubSeq(d, 85, Len(d))) /\ o.m.r[1].ro
                    ELSE o.m.r[1].base = g.a /\ o.m.r[1].data = Held(FileD(g.n)) /\ o.m.r[1].ro
\* C17: refused exactly when something asked for is missing, unreadable, damaged or unmapped; otherwise memory is image, dump, aliases.
Missing(x) == ImgOf(x) = <<>> \/ x.dump = <<>>
DumpBad(f) == ~Has(f) \/ f \in {<<116>>, <<99, 67>>}
DumpMaps(f) == f \notin {<<99>>, <<54>>, <<122>>}
AliasBad(x) == \E i \in 1..Len(x.alias) : LET r == x.alias[i].r IN
                  \/ r = <<28672, 0>>
                  \/ r = <<8192, 1>> /\ ~DumpMaps(x.dump[1])
                  \/ r = <<12288, 1>> /\ ~\E j \in 1..(i - 1) : x.alias[j].b = <<12288, 0>>
Asked(o) ==
   IF broken \/ Missing(last) THEN o.c = InvalidArgument
   ELSE IF ~Has(ImgOf(last)[1].n) \/ DumpBad(last.dump[1]) \/ AliasBad(last) THEN o.c # 0
   ELSE /\ o.c = 0 /\ ImageThere(o, ImgOf(last)[1])
        /\ Len(o.m.r) = 1 + (IF DumpMaps(last.dump[1]) THEN 1 ELSE 0) + Len(last.alias)
        /\ \A i \in 1..Len(last.alias) : LET r == last.alias[i].r
                                            want == IF r = <<8192, 1>> THEN r ELSE <<8192, 2>>
                                        IN \E v \in 0..255 : Read(o.m, last.alias[i].b, 1) = Ok(o.m, <<v>>) /\ Read(o.m, want, 1) = Ok(o.m, <<v>>)
\* The same request, typed in the plainest way: image, dump, aliases.
Hex(w) == <<48, 120>> \o [i \in 1..8 |-> HexChars[Nibbles(w)[i] + 1]]
Plain(x) == (IF x.elf # <<>> THEN <<OptElf, x.elf[1].n>> ELSE <<OptBin, x.bin[1].n, Hex(x.bin[1].a)>>) \o <<OptDump, x.dump[1]>>
            \o FoldLeft(LAMBDA acc, a : acc \o <<OptAlias, Hex(a.b), Hex(a.s), Hex(a.r)>>, <<>>, x.alias)
Restated(o) == (broken \/ Missing(last)) \/ o = Start(Plain(last), Fl)
\* C18: the contents decide, not the name: the two forms of one dump give the same machine.
ByContents(o) ==
   (o.c = 0) =>
      LET f == last.dump[1]
          words(t) == LET d == DumpFile(t) IN [i \in 1..19 |-> WOfBytes(SubSeq(d, 9 + 4 * (i - 1), 12 + 4 * (i - 1)))]
      IN CASE f \in {<<98>>, <<104>>} -> o.ctx.R[1] = words(1)[1] /\ Read(o.m, Kept, 4).v = <<1, 2, 3, 4>>
           [] f = OptElf -> o.ctx.R[1] = words(2)[1] /\ Read(o.m, Kept, 4).v = <<2, 2, 3, 4>>
           [] f \in {<<108>>, <<46, 98, 105, 110>>} -> Read(o.m, Kept, 4).v = <<7, 0, 0, 0>>
           [] OTHER -> \A i \in 2..Len(o.m.r) : o.m.r[i].base # Kept
Inv == LET o == Start(args, Fl) IN Asked(o) /\ Restated(o) /\ ByContents(o)
Emit == Emitting => PrintT("TEST " \o ToJson([args |-> args]))
FileList == (n = 0 /\ Emitting) => PrintT("TEST " \o ToJson([files |-> Fl]))
=============================================================================
