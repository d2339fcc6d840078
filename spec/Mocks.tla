-------------------------------- MODULE Mocks --------------------------------
(***************************************************************************)
(* The stand-ins of libmocks as machines, with what they stand in front    *)
(* of: the heap (MallocFailureInject), one file (FileFailureInject) and    *)
(* the standard output streams (printfSpy); and GetFileSize on that file.  *)
(* An operation is [k, a, b, m, d, l]: numbers a and b, a word m, bytes d, *)
(* lines l.  Do*(s, e) = [s, v, d]: next state, result, bytes delivered.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

E0(k) == [k |-> k, a |-> 0, b |-> 0, m |-> "", d |-> <<>>, l |-> <<>>]
R(s, v, d) == [s |-> s, v |-> v, d |-> d]
Least(a, b) == IF a < b THEN a ELSE b

\* ---- the heap ----------------------------------------------------------------
\* on: injecting; left: allocations up to and including the one to fail, 0 none; live: size of the block in each place, -1 none.
Places == 4
HeapStart == [on |-> FALSE, left |-> 0, live |-> [i \in 1..Places |-> -1]]
HeapOps == {"fail", "restore", "malloc", "realloc", "free"}
HeapPossible(s, e) == CASE e.k = "malloc" -> s.live[e.b] = -1 [] e.k = "free" -> s.live[e.b] # -1
                        \* (what a C library does with a block resized to nothing is its own affair, unless it is not asked)
                        [] e.k = "realloc" /\ e.a = 0 -> IF s.on /\ s.left = 1 THEN TRUE ELSE s.live[e.b] = -1
                        [] OTHER -> TRUE
DoHeap(s, e) ==
   CASE e.k = "fail" -> R([s EXCEPT !.on = TRUE, !.left = e.a], 0, <<>>)
     [] e.k = "restore" -> R([s EXCEPT !.on = FALSE, !.left = 0], 0, <<>>)
     [] e.k = "free" -> R([s EXCEPT !.live[e.b] = -1], 0, <<>>)
     \* e.a allocations, all given back: how many succeed
     [] e.k = "many" -> LET hit == s.on /\ s.left \in 1..e.a
                        IN R(IF hit THEN [s EXCEPT !.left = 0] ELSE IF s.on /\ s.left > 0 THEN [s EXCEPT !.left = @ - e.a] ELSE s, IF hit THEN e.a - 1 ELSE e.a, <<>>)
     [] OTHER -> LET t == IF s.on /\ s.left > 0 THEN [s EXCEPT !.left = @ - 1] ELSE s
                 IN IF s.on /\ s.left = 1 THEN R(t, 0, <<>>) ELSE R([t EXCEPT !.live[e.b] = e.a], 1, <<>>)

\* ---- a file ------------------------------------------------------------------
\* data, pos: the file; open: what fopen is made to return ("" nothing special); close: fclose ignored; seek: [on, pass, v]; tell, write: [on, v];
\* read: [on, left, v] (left 0: every call fails); gets: [on, l, i] (the next line is l[i]).
FileStart == [data |-> <<>>, pos |-> 0, open |-> "", close |-> FALSE, seek |-> [on |-> FALSE, pass |-> 0, v |-> 0], tell |-> [on |-> FALSE, v |-> 0],
              write |-> [on |-> FALSE, v |-> 0], read |-> [on |-> FALSE, left |-> 0, v |-> 0], gets |-> [on |-> FALSE, l |-> <<>>, i |-> 1]]
FileInject == {"ifopen", "rfopen", "ifclose", "rfclose", "ifseek", "pfseek", "rfseek", "iftell", "rftell", "ifwrite", "rfwrite", "ifread", "nfread", "rfread", "ifgets", "rfgets"}
FileCalls == {"fopen", "fclose", "fseek", "ftell", "fwrite", "fread", "fgets"}
Put(data, pos, d) == [i \in 1..(IF pos + Len(d) > Len(data) THEN pos + Len(d) ELSE Len(data)) |->
                         IF i > pos /\ i <= pos + Len(d) THEN d[i - pos] ELSE IF i <= Len(data) THEN data[i] ELSE 0]
From(s, n) == SubSeq(s.data, s.pos + 1, Least(s.pos + n, Len(s.data)))
\* The rest of a line: through the newline, at most n bytes.
Line(d) == LET ends == {i \in 1..Len(d) : d[i] = 10} IN IF ends = {} THEN d ELSE SubSeq(d, 1, CHOOSE i \in ends : \A j \in ends : i <= j)
\* What a string in C shows of some bytes.
Shown(d) == LET ends == {i \in 1..Len(d) : d[i] = 0} IN IF ends = {} THEN d ELSE SubSeq(d, 1, (CHOOSE i \in ends : \A j \in ends : i <= j) - 1)
\* The calls as the C library does them.
Seek(s, off, whence) == LET to == off + (CASE whence = "set" -> 0 [] whence = "cur" -> s.pos [] whence = "end" -> Len(s.data))
                        IN IF to < 0 THEN R(s, -1, <<>>) ELSE R([s EXCEPT !.pos = to], 0, <<>>)
Tell(s) == R(s, s.pos, <<>>)
Write(s, size, d) == IF d = <<>> THEN R(s, 0, <<>>) ELSE R([s EXCEPT !.data = Put(@, s.pos, d), !.pos = @ + Len(d)], Len(d) \div size, <<>>)
Read(s, size, n) == LET got == From(s, size * n)
                    IN R([s EXCEPT !.pos = @ + Len(got)], Len(got) \div size, SubSeq(got, 1, (Len(got) \div size) * size))
Gets(s, size) == LET got == Line(From(s, size - 1)) IN IF got = <<>> THEN R(s, 0, <<>>) ELSE R([s EXCEPT !.pos = @ + Len(got)], 1, Shown(got))
Plain(s, e) ==
   CASE e.k = "fopen" -> R(s, IF e.m = "exists" THEN 1 ELSE 0, <<>>)            \* 0 nothing, 1 the file, 2 the given one
     [] e.k = "fclose" -> R(s, 0, <<1>>)                                        \* <<1>>: it really was closed
     [] e.k = "fseek" -> Seek(s, e.a, e.m)
     [] e.k = "ftell" -> Tell(s)
     [] e.k = "fwrite" -> Write(s, e.a, e.d)
     [] e.k = "fread" -> Read(s, e.a, e.b)
     [] e.k = "fgets" -> Gets(s, e.a)
FilePossible(s, e) == (e.k = "fgets" => e.a >= (IF s.gets.on THEN 1 ELSE 2)) /\ (e.k = "fwrite" => Len(e.d) % e.a = 0)
                      /\ (e.k = "eofseek" => Seek([s EXCEPT !.pos = Len(s.data)], e.a, e.m).v = 0)
RECURSIVE DoFile(_, _)
DoFile(s, e) ==
   CASE e.k = "ifopen" -> R([s EXCEPT !.open = e.m], 0, <<>>)                    \* "null" or "given"
     [] e.k = "rfopen" -> R([s EXCEPT !.open = ""], 0, <<>>)
     [] e.k = "ifclose" -> R([s EXCEPT !.close = TRUE], 0, <<>>)
     [] e.k = "rfclose" -> R([s EXCEPT !.close = FALSE], 0, <<>>)
     [] e.k = "ifseek" -> R([s EXCEPT !.seek = [@ EXCEPT !.on = TRUE, !.v = e.a]], 0, <<>>)
     [] e.k = "pfseek" -> R([s EXCEPT !.seek.pass = e.a], 0, <<>>)
     [] e.k = "rfseek" -> R([s EXCEPT !.seek = FileStart.seek], 0, <<>>)
     [] e.k = "iftell" -> R([s EXCEPT !.tell = [on |-> TRUE, v |-> e.a]], 0, <<>>)
     [] e.k = "rftell" -> R([s EXCEPT !.tell = FileStart.tell], 0, <<>>)
     [] e.k = "ifwrite" -> R([s EXCEPT !.write = [on |-> TRUE, v |-> e.a]], 0, <<>>)
     [] e.k = "rfwrite" -> R([s EXCEPT !.write = FileStart.write], 0, <<>>)
     [] e.k = "ifread" -> R([s EXCEPT !.read = [on |-> TRUE, left |-> 0, v |-> e.a]], 0, <<>>)
     [] e.k = "nfread" -> R([s EXCEPT !.read.left = e.a], 0, <<>>)
     [] e.k = "rfread" -> R([s EXCEPT !.read = FileStart.read], 0, <<>>)
     [] e.k = "ifgets" -> R([s EXCEPT !.gets = [on |-> TRUE, l |-> e.l, i |-> 1]], 0, <<>>)
     [] e.k = "rfgets" -> R([s EXCEPT !.gets = FileStart.gets], 0, <<>>)
     [] e.k = "fopen" /\ s.open # "" -> R(s, IF s.open = "given" THEN 2 ELSE 0, <<>>)
     [] e.k = "fclose" /\ s.close -> R(s, 0, <<0>>)
     [] e.k = "fseek" /\ s.seek.on -> IF s.seek.pass > 0 THEN Seek([s EXCEPT !.seek.pass = @ - 1], e.a, e.m) ELSE R(s, s.seek.v, <<>>)
     [] e.k = "ftell" /\ s.tell.on -> R(s, s.tell.v, <<>>)
     [] e.k = "fwrite" /\ s.write.on -> R(s, s.write.v, <<>>)
     [] e.k = "fread" /\ s.read.on ->
           IF s.read.left = 0 THEN R(s, s.read.v, <<>>)
           ELSE IF s.read.left = 1 THEN R([s EXCEPT !.read = FileStart.read], s.read.v, <<>>)
           ELSE Read([s EXCEPT !.read.left = @ - 1], e.a, e.b)
     [] e.k = "fgets" /\ s.gets.on ->
           IF s.gets.i > Len(s.gets.l) THEN R([s EXCEPT !.gets.i = 1], 0, <<>>)
           ELSE R([s EXCEPT !.gets.i = @ + 1], 1, SubSeq(s.gets.l[s.gets.i], 1, Least(e.a - 1, Len(s.gets.l[s.gets.i]))))
     \* e.a seeks to the start, e.a reads of the first byte: how many were done
     [] e.k = "mfseek" -> LET n == IF s.seek.on THEN Least(e.a, s.seek.pass) ELSE e.a
                          IN R([s EXCEPT !.pos = 0, !.seek.pass = IF s.seek.on THEN @ - n ELSE @], n, <<>>)
     [] e.k = "mfread" -> LET hit == s.read.on /\ s.read.left \in 1..e.a
                          IN R([s EXCEPT !.pos = 0, !.read = IF hit THEN FileStart.read ELSE IF @.on /\ @.left > 0 THEN [@ EXCEPT !.left = @ - e.a] ELSE @],
                               IF hit THEN e.a - 1 ELSE IF s.read.on /\ s.read.left = 0 THEN 0 ELSE e.a, <<>>)
     \* a seek at the end of the file, found by reading: whether the file is still at its end (a seek really made forgets that)
     [] e.k = "eofseek" -> LET x == DoFile([s EXCEPT !.pos = Len(s.data)], [e EXCEPT !.k = "fseek"])
                           IN [x EXCEPT !.d = IF s.seek.on /\ s.seek.pass = 0 THEN <<1>> ELSE <<0>>]
     [] OTHER -> Plain(s, e)

\* ---- the size of a file (C31) ---------------------------------------------------
FileError == 27
\* [s, c, v]: exception code and size.
GetSize(s) ==
   LET x == DoFile(s, [E0("fseek") EXCEPT !.m = "end"])
       y == DoFile(x.s, E0("ftell"))
       z == DoFile(y.s, [E0("fseek") EXCEPT !.m = "set"])
   IN IF x.v = -1 THEN [s |-> x.s, c |-> FileError, v |-> 0]
      ELSE IF y.v < 0 THEN [s |-> y.s, c |-> FileError, v |-> 0]
      ELSE IF z.v = -1 THEN [s |-> z.s, c |-> FileError, v |-> 0]
      ELSE [s |-> z.s, c |-> 0, v |-> y.v]

\* ---- the spy --------------------------------------------------------------------
\* on: hooked; size: bytes kept of an output; count: outputs since hooked; kept: the latest four, latest first: [to, d].
SpyStart == [on |-> FALSE, size |-> 0, count |-> 0, kept |-> <<>>]
SpyOps == {"hook", "unhook", "out", "err", "qout", "qerr", "count"}
\* The n-th last output is asked from the stream it went to (or no stream has as many).
SpyPossible(s, e) == e.k \in {"qout", "qerr"} => (IF e.a > Len(s.kept) THEN TRUE ELSE s.kept[e.a].to = (IF e.k = "qout" THEN "out" ELSE "err"))
\* Results: of an output its full length and the bytes really printed; of a question whether there is text, and the text.
DoSpy(s, e) ==
   CASE e.k = "hook" -> R([on |-> TRUE, size |-> e.a, count |-> 0, kept |-> <<>>], 0, <<>>)
     [] e.k = "unhook" -> R([s EXCEPT !.on = FALSE, !.kept = <<>>], 0, <<>>)
     [] e.k \in {"out", "err"} ->
           IF ~s.on THEN R(s, Len(e.d), e.d)
           ELSE R([s EXCEPT !.count = @ + 1, !.kept = SubSeq(<<[to |-> e.k, d |-> SubSeq(e.d, 1, Least(s.size, Len(e.d)))]>> \o @, 1, Least(4, Len(@) + 1))], Len(e.d), <<>>)
     [] e.k \in {"qout", "qerr"} -> IF e.a > Len(s.kept) THEN R(s, 0, <<>>) ELSE R(s, 1, s.kept[e.a].d)
     \* the same output e.a >= 4 times while hooked
     [] e.k = "many" -> R([s EXCEPT !.count = @ + e.a, !.kept = [i \in 1..4 |-> [to |-> "out", d |-> SubSeq(<<112, 108, 97, 105, 110, 10>>, 1, Least(s.size, 6))]]], e.a, <<>>)
     [] e.k = "count" -> R(s, s.count, <<>>)
=============================================================================
