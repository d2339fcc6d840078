-------------------------------- MODULE Text --------------------------------
(* Small text helpers: decimal and hexadecimal rendering of words, prefixes. *)
EXTENDS Word32
Dig == <<"0","1","2","3","4","5","6","7","8","9">>
RECURSIVE NatStr(_)
NatStr(n) == IF n < 10 THEN Dig[n + 1] ELSE NatStr(n \div 10) \o Dig[(n % 10) + 1]
\* Divide a word by 10: <<quotient, remainder>>, in 16-bit halves.
Div10(a) == LET qh == a[1] \div 10
                rh == a[1] % 10
                lo == rh * 65536 + a[2]
            IN <<<<qh, lo \div 10>>, lo % 10>>
RECURSIVE WStr(_)                                             \* "%u"
WStr(a) == IF a[1] = 0 /\ a[2] < 10 THEN Dig[a[2] + 1]
           ELSE LET d == Div10(a) IN WStr(d[1]) \o Dig[d[2] + 1]
\* "%d" of a word.
SStr(a) == IF a[1] < 32768 THEN WStr(a) ELSE "-" \o WStr(WSubWrap(W0, a))
\* Characters (codes) as text; other than printable ones appear as the harnesses write them.
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharStr(c) == IF c \in 32..126 THEN SubSeq(Ascii, c - 31, c - 31)
              ELSE IF c = 10 THEN "\n" ELSE IF c = 13 THEN "\r" ELSE IF c = 9 THEN "\t" ELSE "?" \o HexByteStr(c)
RECURSIVE StrIn(_, _, _)
StrIn(s, i, j) == IF i > j THEN "" ELSE IF i = j THEN CharStr(s[i])
                  ELSE LET k == (i + j) \div 2 IN StrIn(s, i, k) \o StrIn(s, k + 1, j)
StrOf(s) == StrIn(s, 1, Len(s))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasSub(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
=============================================================================
