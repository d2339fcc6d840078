------------------------------ MODULE Samples ------------------------------
(* Small files of every kind, for the bounded models of the command line and of whole sessions. *)
EXTENDS Word32

\* ---- files ---------------------------------------------------------------
LE16(x) == <<x % 256, (x \div 256) % 256>>
LE32(w) == LE16(w[2]) \o LE16(w[1])
ElfFile(addr, data) ==
   <<127, 69, 76, 70, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>> \o LE16(2) \o LE16(40) \o LE32(<<0, 1>>) \o LE32(addr) \o LE32(<<0, 52>>) \o LE32(W0)
   \o LE32(W0) \o LE16(52) \o LE16(32) \o LE16(1) \o LE16(40) \o LE16(0) \o LE16(0)
   \o LE32(<<0, 1>>) \o LE32(<<0, 84>>) \o LE32(addr) \o LE32(addr) \o LE32(WOfNat(Len(data))) \o LE32(WOfNat(Len(data))) \o LE32(<<0, 5>>) \o LE32(<<0, 4>>)
   \o data
DumpFile(tag) == <<99, 67, 3, 0>> \o LE32(W0) \o [i \in 1..80 |-> (i * 7 + tag) % 256]
                 \o LE32(<<8192, 0>>) \o LE32(<<8192, 4>>) \o <<tag, 2, 3, 4>>
HexChars == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
HexOf(d) == [i \in 1..(2 * Len(d)) |-> LET b == d[((i - 1) \div 2) + 1] IN HexChars[(IF i % 2 = 1 THEN b \div 16 ELSE b % 16) + 1]]
Lg == <<48, 120, 50, 48, 48, 48, 48, 48, 48, 48, 58, 9, 55, 10>>        \* 0x20000000:\t7
Fl == <<
   [n |-> <<101>>, dir |-> FALSE, d |-> ElfFile(<<1, 0>>, <<1, 2, 3, 4, 5>>)],   \* e
   [n |-> <<69>>, dir |-> FALSE, d |-> ElfFile(<<2, 0>>, <<9, 8, 7, 6>>)],       \* E
   [n |-> <<105>>, dir |-> FALSE, d |-> <<17, 18, 19>>],                         \* i: a plain image
   [n |-> <<98>>, dir |-> FALSE, d |-> DumpFile(1)],                             \* b: binary dump
   [n |-> <<104>>, dir |-> FALSE, d |-> HexOf(DumpFile(1))],                     \* h: the same in text
   [n |-> <<108>>, dir |-> FALSE, d |-> Lg],                                     \* l: a GDB log
   [n |-> <<116>>, dir |-> FALSE, d |-> SubSeq(DumpFile(1), 1, 50)],             \* t: truncated
   [n |-> <<99>>, dir |-> FALSE, d |-> <<99>>],                                  \* c: only "c": a log without anything shown
   [n |-> <<99, 67>>, dir |-> FALSE, d |-> <<99, 67>>],                          \* cC: only the signature
   [n |-> <<54>>, dir |-> FALSE, d |-> <<54, 51, 52>>],                          \* 6: "634"
   [n |-> <<122>>, dir |-> FALSE, d |-> <<>>],                                   \* z: empty
   [n |-> <<46, 98, 105, 110>>, dir |-> FALSE, d |-> Lg],                        \* .bin: a log despite its name
   [n |-> <<45, 45, 101, 108, 102>>, dir |-> FALSE, d |-> HexOf(DumpFile(2))] >> \* --elf: a file of that name
FileD(x) == Fl[CHOOSE i \in 1..Len(Fl) : Fl[i].n = x].d
Has(x) == \E i \in 1..Len(Fl) : Fl[i].n = x

=============================================================================
