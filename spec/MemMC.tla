------------------------------- MODULE MemMC -------------------------------
(***************************************************************************)
(* Exhaustive bounded exploration of MemorySim.tla, one profile per        *)
(* property, and the generator of conformance tests: every transition of   *)
(* the explored graph is printed as the operation sequence leading to it,  *)
(* to be executed on the real code (and judged by MemTrace.tla).           *)
(***************************************************************************)
EXTENDS MemorySim, Json, IOUtils, SequencesExt

VARIABLE hist
mvars == <<mem, last, hist>>

Profile == IOEnv.PROFILE
Checking == IOEnv.MODE = "check"

N(n) == WOfNat(n)
Top == 65535
HiA(lo) == <<Top, lo>>          \* addresses just below 2^32
cr(a, s) == [ev |-> "create", a |-> a, s |-> s]
al(a, r, s) == [ev |-> "alias", a |-> a, r |-> r, s |-> s]
ro(a) == [ev |-> "ro", a |-> a]
rd(a, n) == [ev |-> "rd", a |-> a, n |-> n]
wr(a, d) == [ev |-> "wr", a |-> a, d |-> d]
mr(a, n) == [ev |-> "mapr", a |-> a, n |-> n]
mw(a, d) == [ev |-> "mapw", a |-> a, d |-> d]
ld(a, d) == [ev |-> "load", a |-> a, d |-> d]
wpo(e, a, n, t) == [ev |-> e, a |-> a, n |-> n, t |-> t]
bpo(e, a, n) == [ev |-> e, a |-> a, n |-> n]
D(n) == [i \in 1..n |-> 16 * n + i]
W4 == {1, 2, 4}

\* Operations of each profile: those that build state and those that only observe (or end the test).
Build ==
   CASE Profile = "C01" -> {cr(N(0), N(4)), cr(N(4), N(3)), cr(HiA(65532), N(4)), cr(N(2), N(4)),
                            al(N(16), N(1), N(2)), al(HiA(65528), N(4), N(4)), al(HiA(65530), HiA(65533), N(9))}
     [] Profile = "C02" -> {cr(N(8), N(6))} \union {wr(N(a), D(n)) : a \in 8..12, n \in W4} \union {ld(N(8), <<9,8,7,6,5>>)}
     [] Profile = "C03" -> {cr(N(0), N(4)), cr(N(4), N(4)), al(N(16), N(0), N(4)), al(N(20), N(16), N(2)), al(N(24), N(6), N(2)),
                            ro(N(0)), ro(N(5)), ro(N(17)), ro(N(24)), ld(N(0), D(4)), ld(N(16), <<1, 2>>)}
     [] Profile = "C04" -> {cr(N(0), N(6)), al(N(16), N(0), N(4)), al(N(16), N(2), N(99)), al(N(32), N(17), N(2)), al(N(32), N(19), N(9)),
                            al(HiA(65532), N(1), N(4)), al(N(48), N(7), N(1)), ro(N(0)), bpo("sbp", N(2), 2), wpo("swp", N(17), 2, 1)}
     [] Profile = "C05" -> {bpo(e, N(a), n) : e \in {"sbp", "cbp"}, a \in {0, 2}, n \in {2, 4}}
                           \union {wpo(e, N(a), n, t) : e \in {"swp", "cwp"}, a \in {0, 2}, n \in {2}, t \in {1, 2, 3}}
                           \union {wpo(e, N(0), 4, 3) : e \in {"swp", "cwp"}}
     [] Profile = "C06" -> {cr(N(0), N(4)), cr(HiA(0), N(65536)), cr(<<4096, 0>>, N(26)), cr(N(2), N(0)),
                            al(N(16), N(1), N(2)), al(<<57005, 48879>>, HiA(256), N(99)), al(N(40), N(16), N(1)), ro(N(0)), ro(<<4096, 1>>)}
     [] Profile = "C07" -> {cr(N(0), N(5)), cr(N(8), N(4)), ro(N(0)), al(N(16), N(1), N(4)), rd(N(0), 2), rd(N(2), 2), rd(N(1), 2),
                            rd(N(0), 4), rd(N(0), 1), rd(N(16), 2), rd(N(17), 2), rd(N(3), 2), rd(N(8), 2), ld(N(0), D(4))}
     [] OTHER -> {}
\* Accesses that only observe: they end a test.
Ads01 == {N(a) : a \in 0..8 \union 14..19} \union {HiA(a) : a \in 65526..65535}
Probe ==
   CASE Profile = "C01" -> {rd(a, n) : a \in Ads01, n \in W4} \union {wr(a, D(n)) : a \in Ads01, n \in W4}
                           \union {mr(a, n) : a \in Ads01, n \in {3}} \union {mw(a, D(n)) : a \in Ads01, n \in {3}}
     [] Profile = "C02" -> {rd(N(a), n) : a \in 8..13, n \in W4} \union {mr(N(8), 6)}
     [] Profile = "C03" -> {wr(N(a), D(n)) : a \in {0, 3, 4, 6, 16, 18, 20, 24}, n \in W4}
                           \union {mw(N(a), D(n)) : a \in {0, 4, 16, 21, 24}, n \in {1, 2}} \union {mr(N(a), 1) : a \in {0, 7, 17}}
     [] Profile = "C04" -> {rd(N(a), n) : a \in {0, 2, 16, 18, 20, 32, 33, 34, 48}, n \in W4} \union {rd(HiA(a), n) : a \in {65532, 65534, 65535}, n \in W4}
                           \union {wr(N(a), D(n)) : a \in {16, 19, 32, 33}, n \in W4} \union {wr(HiA(65535), D(1))}
     [] Profile = "C05" -> {rd(N(a), n) : a \in 0..4, n \in W4} \union {wr(N(a), D(n)) : a \in 0..3, n \in W4} \union {[ev |-> "wpe"]}
     [] Profile = "C06" -> {[ev |-> "xml"]}
     [] Profile = "C07" -> {[ev |-> "cnt", a |-> N(a)] : a \in {0, 1, 2, 3, 4, 8, 16, 17, 20}}
     [] OTHER -> {}
MaxBuild == CASE Profile = "C01" -> 3 [] Profile = "C02" -> 3 [] Profile = "C03" -> 4 [] Profile = "C04" -> 4
              [] Profile = "C05" -> 4 [] Profile = "C06" -> 4 [] Profile = "C07" -> 5 [] OTHER -> 0
\* What every test of the profile starts with.
Prelude == IF Profile = "C05" THEN <<cr(N(0), N(6))>> ELSE IF Profile = "C02" THEN <<>> ELSE <<>>

MCInit == /\ last = [op |-> [ev |-> "init"], c |-> 0, v |-> <<>>]
          /\ mem = (IF Prelude = <<>> THEN EmptyMem ELSE Outcome(EmptyMem, Prelude[1]).m)
          /\ hist = Prelude
Building == Len(hist) < MaxBuild + Len(Prelude)
\* Observations are transitions too, but what they lead to is not explored further.
Ended == hist # <<>> /\ hist[Len(hist)].ev = "end"
\* Observations are transitions too (MODE=check), but what they lead to is not explored further.
MCNext == \/ Building /\ ~Ended /\ \E op \in Build : (Do(op) \/ OOM(op)) /\ hist' = Append(hist, op)
          \/ Checking /\ ~Ended /\ \E op \in Probe : Do(op) /\ hist' = Append(Append(hist, op), [ev |-> "end"])
MCSpec == MCInit /\ [][MCNext]_mvars
View == <<mem, Ended>>
\* The closed forms for repeated accesses are the accesses repeated.
ManyIsRepeated ==
   Profile \in {"C05", "C07"} =>
     /\ \A a \in 0..3 : \A n \in {1, 2} :
          LET x == Read(mem, N(a), n) y == Read(x.m, N(a), n) IN Read(y.m, N(a), n) = ReadMany(mem, N(a), n, 3)
     /\ \A a \in 0..3 :
          LET x == Write(mem, N(a), D(2)) y == Write(x.m, N(a), D(2)) IN Write(y.m, N(a), D(2)) = WriteMany(mem, N(a), D(2), 3)
\* One conformance test per transition of the building graph (MODE=emit); the probes follow each.
Emit == IF Checking \/ last'.c = OutOfMemory THEN TRUE ELSE PrintT("TEST " \o ToJson(hist'))
ASSUME Checking \/ PrintT("PROBES " \o ToJson(SetToSeq(Probe)))
=============================================================================
