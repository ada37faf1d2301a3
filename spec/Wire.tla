-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* Bytes, bit fields and the two variable codes of the DASH7 ALP protocol. *)
(* An encoding is a sequence of bytes (0..255).  A position p is the       *)
(* number of bytes already consumed, so the next byte of b is b[p+1].      *)
(* TLC integers have 32 bits; numbers wider than 30 bits are represented   *)
(* as their big-endian byte sequence.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Byte == 0..255

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* the k low-order bytes of n, most significant first
BE(n, k) == [i \in 1..k |-> (n \div (256 ^ (k - i))) % 256]

\* the number in the k bytes behind position p
RECURSIVE BEVal(_, _, _)
BEVal(b, p, k) == IF k = 0 THEN 0 ELSE BEVal(b, p, k - 1) * 256 + b[p + k]

Slice(b, p, k) == SubSeq(b, p + 1, p + k)

(***************************************************************************)
(* Length operand: two bits give the number z of extra bytes, the other    *)
(* 6 + 8z bits the number.  Written with the smallest possible z.          *)
(***************************************************************************)
LenLimit == 1073741824                          \* 2^30
LenCap(z) == 64 * 256 ^ z                       \* z < 3, see LenExtra
LenExtra(n) == IF n < 64 THEN 0
               ELSE IF n < 16384 THEN 1
               ELSE IF n < 4194304 THEN 2 ELSE 3
EncLenAs(n, z) == [i \in 1..(z + 1) |->
                     IF i = 1 THEN z * 64 + (n \div (256 ^ z))
                     ELSE (n \div (256 ^ (z + 1 - i))) % 256]
EncLen(n) == EncLenAs(n, LenExtra(n))
LenNeeds(first) == first \div 64                \* extra bytes announced
DecLenVal(b, p) == LET z == b[p + 1] \div 64
                   IN (b[p + 1] % 64) * (256 ^ z) + BEVal(b, p + 1, z)

(***************************************************************************)
(* Compressed format: 3 bit exponent e, 5 bit mantissa m, value 4^e * m.   *)
(***************************************************************************)
VarMax == 507904
Expand(e, m) == (4 ^ e) * m
VarExp(n) == CHOOSE e \in 0..7 : /\ n <= 31 * (4 ^ e)
                                 /\ \A f \in 0..(e - 1) : n > 31 * (4 ^ f)
Compress(n, up) == LET e == VarExp(n)
                       q == n \div (4 ^ e)
                       r == n % (4 ^ e)
                   IN <<e, IF up /\ r > 0 THEN q + 1 ELSE q>>
EncVarUp(n, up) == LET c == Compress(n, up) IN <<c[1] * 32 + c[2]>>
EncVar(n) == EncVarUp(n, FALSE)
DecVarVal(byte) == Expand(byte \div 32, byte % 32)

(***************************************************************************)
(* UTF-8 well-formedness of a byte sequence (fixed size strings).          *)
(***************************************************************************)
Cont(s, i) == i <= Len(s) /\ s[i] \in 128..191
RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET c == s[i] IN
       CASE c <= 127 -> Utf8From(s, i + 1)
         [] c \in 194..223 -> Cont(s, i + 1) /\ Utf8From(s, i + 2)
         [] c \in 224..239 -> /\ Cont(s, i + 1) /\ Cont(s, i + 2)
                              /\ (c = 224 => s[i + 1] >= 160)
                              /\ (c = 237 => s[i + 1] <= 159)
                              /\ Utf8From(s, i + 3)
         [] c \in 240..244 -> /\ Cont(s, i + 1) /\ Cont(s, i + 2) /\ Cont(s, i + 3)
                              /\ (c = 240 => s[i + 1] >= 144)
                              /\ (c = 244 => s[i + 1] <= 143)
                              /\ Utf8From(s, i + 4)
         [] OTHER -> FALSE
Utf8(s) == Utf8From(s, 1)

RECURSIVE StripNul(_)
StripNul(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN StripNul(SubSeq(s, 1, Len(s) - 1)) ELSE s

(***************************************************************************)
(* Deterministic pseudo random numbers, so that generated values are a     *)
(* function of their seed.                                                 *)
(***************************************************************************)
RP == 32749                                      \* a prime; RP^2 + 30 RP < 2^31
R(s) == LET a == s % RP
            h == s \div RP
            b == (a * a + (h % RP) * 31 + 7) % RP
            c == (b * b + a * 29 + (h % 65536)) % RP
        IN (c * c + b * 11 + a) % RP
Mix(s, i) == R(s + i * 7919) + RP * (R(s + i * 3571 + 11) % 20000)
Rnd(s, n) == R(s) % n                            \* 0..n-1, n <= 30000
=============================================================================
