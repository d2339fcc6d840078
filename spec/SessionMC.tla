------------------------------ MODULE SessionMC ------------------------------
(***************************************************************************)
(* Every short session of the program over every kind of image, dump and   *)
(* alias.  C26 is stated over the files' contents alone.                   *)
(***************************************************************************)
EXTENDS Session, Samples, Json, IOUtils

VARIABLES p, conf, told, wrote, regs, steps, last
\* conf: [img, dump, al]; told: packets and console text sent so far; wrote: address -> byte; regs: the register bytes GDB should see
vars == <<p, conf, told, wrote, regs, steps, last>>
Big == IOEnv.BIG = "1"
Emitting == IOEnv.EMIT = "1"
Depth == IF Big THEN 5 ELSE 4

Name(x) == CASE x = "e" -> <<101>> [] x = "i" -> <<105>> [] x = "b" -> <<98>> [] x = "h" -> <<104>> [] x = "l" -> <<108>> [] x = "t" -> <<116>> [] x = "no" -> <<110, 111>>
Txt(x) == CASE x = "0x100000" -> <<48, 120, 49, 48, 48, 48, 48, 48>>
            [] x = "0x30000000" -> <<48, 120, 51, 48, 48, 48, 48, 48, 48, 48>> [] x = "0x20000001" -> <<48, 120, 50, 48, 48, 48, 48, 48, 48, 49>>
            [] x = "0x40000000" -> <<48, 120, 52, 48, 48, 48, 48, 48, 48, 48>> [] x = "0x10001" -> <<48, 120, 49, 48, 48, 48, 49>> [] x = "2" -> <<50>>
Args(k) == (IF k.img = "i" THEN <<C!OptBin, Name("i"), Txt("0x100000")>> ELSE <<C!OptElf, Name(k.img)>>) \o <<C!OptDump, Name(k.dump)>>
           \o (IF 1 \in k.al THEN <<C!OptAlias, Txt("0x30000000"), Txt("2"), Txt("0x20000001")>> ELSE <<>>)
           \o (IF 2 \in k.al THEN <<C!OptAlias, Txt("0x40000000"), Txt("2"), Txt("0x10001")>> ELSE <<>>)
Confs == {[img |-> i, dump |-> d, al |-> a] : i \in {"e", "i"}, d \in {"b", "h", "l"}, a \in {{}, {1}, {2}, {1, 2}}}
         \cup {[img |-> "e", dump |-> "t", al |-> {}], [img |-> "no", dump |-> "b", al |-> {}], [img |-> "e", dump |-> "no", al |-> {1}]}
Works(k) == k.dump \notin {"t", "no"} /\ k.img # "no" /\ (2 \in k.al => k.img = "e")

\* ---- what the files say ------------------------------------------------------
ImgAt(k) == IF k.img = "i" THEN <<16, 0>> ELSE <<1, 0>>
ImgData(k) == IF k.img = "i" THEN <<17, 18, 19>> ELSE <<1, 2, 3, 4, 5>>
RamAt == <<8192, 0>>
RamData(k) == IF k.dump = "l" THEN <<7, 0, 0, 0>> ELSE <<1, 2, 3, 4>>
\* Where an address leads: the address itself, or what the alias stands for; <<-1, -1>> if nothing is there.
Nowhere == <<-1, -1>>
In(a, b, n) == a[1] = b[1] /\ a[2] >= b[2] /\ a[2] < b[2] + n
Leads(k, a) == CASE In(a, ImgAt(k), Len(ImgData(k))) \/ In(a, RamAt, 4) -> a
                 [] 1 \in k.al /\ In(a, <<12288, 0>>, 2) -> WAddN(RamAt, 1 + a[2])
                 [] 2 \in k.al /\ In(a, <<16384, 0>>, 2) -> <<1, 1 + a[2]>>
                 [] OTHER -> Nowhere
Flash(k, a) == LET x == Leads(k, a) IN x # Nowhere /\ x[1] # 8192
Byte(k, a) == LET x == Leads(k, a) IN
              IF x = Nowhere THEN -1 ELSE IF x \in DOMAIN wrote THEN wrote[x] ELSE IF x[1] = 8192 THEN RamData(k)[x[2] + 1] ELSE ImgData(k)[x[2] - ImgAt(k)[2] + 1]
RegBytesOf(k) == IF k.dump = "l" THEN [i \in 1..76 |-> IF i < 69 THEN 0 ELSE IF i % 2 = 1 THEN 173 ELSE 186]   \* registers the log does not show
                 ELSE [i \in 1..76 |-> (i * 7 + 1) % 256]

Cmd(k, a, n, d, o, t, x) == [k |-> k, a |-> a, n |-> n, d |-> d, o |-> o, t |-> t, x |-> x]
K(k) == Cmd(k, W0, 0, <<>>, 0, 0, "")
Spots == {<<1, 0>>, <<1, 4>>, <<16, 0>>, <<16, 2>>, RamAt, <<8192, 3>>, <<12288, 0>>, <<16384, 1>>, <<20480, 0>>}
Commands == {K("g"), K("?"), K("c"), Cmd("map", W0, 4000, <<>>, 0, 0, ""), Cmd("xml", W0, 4000, <<>>, 0, 0, "")}
            \cup {Cmd("m", a, 1, <<>>, 0, 0, "") : a \in Spots} \cup {Cmd("m", RamAt, 4, <<>>, 0, 0, ""), Cmd("m", <<1, 0>>, 5, <<>>, 0, 0, "")}
            \cup {Cmd("M", a, 1, <<200 + a[2]>>, 0, 0, "") : a \in Spots} \cup {Cmd("G", W0, 0, [i \in 1..76 |-> (i * 3) % 256], 0, 0, "")}
NoConf == [img |-> "", dump |-> "", al |-> {}]
Init == p = Off /\ conf = NoConf /\ told = <<>> /\ wrote = <<>> /\ regs = <<>> /\ steps = <<>> /\ last = [e |-> K("none"), r |-> <<>>, con |-> "", code |-> ""]
Took(e, x) == /\ p' = x.p /\ steps' = Append(steps, e) /\ last' = [e |-> e, r |-> x.r, con |-> x.con, code |-> x.code]
              /\ told' = told \o x.r
Next ==
   /\ Len(steps) < Depth
   /\ \/ p.phase = "off" /\ \E k \in Confs :
           /\ Took(K("launch"), Step(p, [k |-> "launch", args |-> Args(k), files |-> Fl]))
           /\ conf' = k /\ wrote' = <<>> /\ regs' = IF Works(k) THEN RegBytesOf(k) ELSE <<>>
      \/ \E e \in {K("connect"), K("leave")} : Possible(p, e) /\ Took(e, Step(p, e)) /\ UNCHANGED <<conf, wrote, regs>>
      \/ p.phase = "talking" /\ \E e \in Commands :
           LET x == Step(p, e) IN
           /\ Took(e, x) /\ UNCHANGED conf
           /\ regs' = IF e.k = "G" THEN e.d ELSE regs
           /\ wrote' = IF e.k = "M" /\ Leads(conf, e.a) # Nowhere /\ ~Flash(conf, e.a) THEN (Leads(conf, e.a) :> e.d[1]) @@ wrote ELSE wrote
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
E == last.e
Refused == E.k = "launch" => (p.phase = "over") = ~Works(conf) /\ (p.phase = "over" => last.code = "failed")
Quiet == /\ E.k \in {"launch", "connect", "leave"} => last.r = <<>> /\ last.con = ""
         /\ p.phase \in {"off", "waiting"} => told = <<>>
Answers == (E.k \in {"g", "?", "c", "m", "M", "G", "map", "xml"}) => Len(last.r) = 1
Registers == E.k = "g" => last.r[1] = HexBytesStr(regs)
Reads == E.k = "m" => LET vs == [i \in 1..E.n |-> Byte(conf, WAddN(E.a, i - 1))] IN
            IF \A i \in 1..E.n : vs[i] # -1 THEN last.r[1] = HexBytesStr(vs) ELSE last.r[1] = "E03"
WritesIt == E.k = "M" => last.r[1] = IF Leads(conf, E.a) # Nowhere /\ ~Flash(conf, E.a) THEN "OK" ELSE "E03"
Map == E.k = "map" => HasSub(last.r[1], "type=\"flash\" start=\"0x" \o (IF conf.img = "i" THEN "100000\" length=\"0x3\"" ELSE "10000\" length=\"0x5\""))
                      /\ HasSub(last.r[1], "type=\"ram\" start=\"0x20000000\" length=\"0x4\"")
                      /\ HasSub(last.r[1], "type=\"ram\" start=\"0x30000000\" length=\"0x2\"") = (1 \in conf.al)
                      /\ HasSub(last.r[1], "type=\"flash\" start=\"0x40000000\" length=\"0x2\"") = (2 \in conf.al)
EndsRight == E.k = "leave" => p.phase = "over"
Inv == Refused /\ Quiet /\ Answers /\ Registers /\ Reads /\ WritesIt /\ Map /\ EndsRight
Emit == (Emitting /\ steps # <<>> /\ (Len(steps) = Depth \/ p.phase = "over")) => PrintT("TEST " \o ToJson([conf |-> [args |-> Args(conf)], steps |-> steps]))
EmitFiles == (Emitting /\ steps = <<>>) => PrintT("TEST " \o ToJson([files |-> Fl]))
=============================================================================
