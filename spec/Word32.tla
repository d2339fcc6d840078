------------------------------- MODULE Word32 -------------------------------
(***************************************************************************)
(* 32-bit target words.  TLC's integers are 32-bit signed, so a word is    *)
(* carried as the pair <<hi, lo>> of its 16-bit halves.  A *bound* (the    *)
(* address just past a range) is the same pair with hi allowed to reach or *)
(* exceed 65536, i.e. sums are not wrapped unless WWrap is applied.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

H16 == 65536
Word == (0..65535) \X (0..65535)
W0 == <<0, 0>>

WOfNat(n) == <<n \div H16, n % H16>>                \* n a natural < 2^31
WIsNat(a) == a[1] < 32768                           \* fits in a TLC natural
WNat(a)   == a[1] * H16 + a[2]

WLe(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
WLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
WMin(a, b) == IF WLe(a, b) THEN a ELSE b

WAdd(a, b) == LET s == a[2] + b[2] IN <<a[1] + b[1] + s \div H16, s % H16>>   \* unwrapped
WAddN(a, n) == WAdd(a, WOfNat(n))
WSub(a, b) == LET d == a[2] - b[2] IN                                         \* a >= b
              IF d >= 0 THEN <<a[1] - b[1], d>> ELSE <<a[1] - b[1] - 1, d + H16>>
WWrap(a) == <<a[1] % H16, a[2]>>
WSubWrap(a, b) == LET d == a[2] - b[2]
                      borrow == IF d >= 0 THEN 0 ELSE 1
                  IN <<(a[1] - b[1] - borrow + 2 * H16) % H16, (d + H16) % H16>>

\* Little-endian bytes of a word, and the word of 4 little-endian bytes.
WBytes(a) == <<a[2] % 256, a[2] \div 256, a[1] % 256, a[1] \div 256>>
WOfBytes(b) == <<b[3] + 256 * b[4], b[1] + 256 * b[2]>>
WOfSeq(s, i) == <<s[i+2] + 256 * s[i+3], s[i] + 256 * s[i+1]>>
HOfSeq(s, i) == s[i] + 256 * s[i+1]

\* Characters are carried as their codes; digits of upper-case hexadecimal text without leading zeroes ("%X").
HexChar(d) == IF d < 10 THEN 48 + d ELSE 55 + d
HexCharL(d) == IF d < 10 THEN 48 + d ELSE 87 + d
HexPair(b) == <<HexCharL(b \div 16), HexCharL(b % 16)>>
Nibbles(a) == <<a[1] \div 4096, (a[1] \div 256) % 16, (a[1] \div 16) % 16, a[1] % 16,
                a[2] \div 4096, (a[2] \div 256) % 16, (a[2] \div 16) % 16, a[2] % 16>>
HexD == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
Hex8(a) == LET n == Nibbles(a) IN                                             \* "%08X"
   HexD[n[1]+1] \o HexD[n[2]+1] \o HexD[n[3]+1] \o HexD[n[4]+1] \o
   HexD[n[5]+1] \o HexD[n[6]+1] \o HexD[n[7]+1] \o HexD[n[8]+1]
HexStr(a) ==                                                                  \* "%X"
   LET n == Nibbles(a)
       RECURSIVE go(_, _)
       go(i, started) == IF i > 8 THEN ""
                         ELSE IF ~started /\ n[i] = 0 /\ i < 8 THEN go(i + 1, FALSE)
                         ELSE HexD[n[i]+1] \o go(i + 1, TRUE)
   IN go(1, FALSE)
HexDL == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexByteStr(b) == HexDL[(b \div 16) + 1] \o HexDL[(b % 16) + 1]                    \* "%02x"
HexStrL(a) ==
   LET n == Nibbles(a)
       RECURSIVE go(_, _)
       go(i, started) == IF i > 8 THEN ""
                         ELSE IF ~started /\ n[i] = 0 /\ i < 8 THEN go(i + 1, FALSE)
                         ELSE HexDL[n[i]+1] \o go(i + 1, TRUE)
   IN go(1, FALSE)
RECURSIVE HexBytesStr(_)
HexBytesStr(s) == IF s = <<>> THEN "" ELSE HexByteStr(s[1]) \o HexBytesStr(Tail(s))

\* Bit i (0..31) of a word.
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Bit(a, i) == IF i < 16 THEN (a[2] \div Pow2(i)) % 2 = 1 ELSE (a[1] \div Pow2(i - 16)) % 2 = 1
=============================================================================
