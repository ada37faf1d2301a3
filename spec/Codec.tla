------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* The meaning of the grammar: Enc gives the canonical encoding of a       *)
(* value, Dec reads a value behind a position, Gen is a deterministic      *)
(* generator of well-formed values.                                        *)
(*                                                                         *)
(* Dec returns <<"ok", value, position behind it>>, <<"inc">> when the     *)
(* input ends too early or <<"bad">> when no valid item starts like this.  *)
(***************************************************************************)
EXTENDS Grammar

CONSTANTS Strange,        \* whether generated statuses may be of interfaces without a name
          Hints           \* numbers that deserve to be tried; they change what is generated, not what it means

Inc == <<"inc">>
Bad == <<"bad">>
Ok(v, p) == <<"ok", v, p>>
IsOk(r) == r[1] = "ok"

RECURSIVE Look(_, _, _)
Look(r, path, i) == IF i > Len(path) THEN r ELSE Look(r[path[i]], path, i + 1)
Field(r, path) == Look(r, path, 1)
Present(r, c) == \A i \in 1..Len(c) : Field(r, c[i])

\* the node a selector picks for a tag
SelNode(t, tag) == IF \E i \in 1..Len(t.cs) : t.cs[i][1] = tag
                   THEN t.cs[CHOOSE i \in 1..Len(t.cs) : t.cs[i][1] = tag][2]
                   ELSE t.other

RECURSIVE FlattenFrom(_, _)
FlattenFrom(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o FlattenFrom(ss, i + 1)
Flatten(ss) == FlattenFrom(ss, 1)

-----------------------------------------------------------------------------
(* encoding *)

BitVal(f, v) == CASE f.kind = "bool" -> IF v[f.name] THEN 1 ELSE 0
                  [] f.kind = "uint" -> v[f.name]
                  [] f.kind = "enum" -> f.e.n2c[v[f.name]]
                  [] f.kind = "const" -> f.e
                  [] OTHER -> 0
RECURSIVE BitsSum(_, _, _)
BitsSum(fs, v, i) == IF i > Len(fs) THEN 0 ELSE BitVal(fs[i], v) * (2 ^ fs[i].sh) + BitsSum(fs, v, i + 1)
EncBits(t, v) == IF t.n > 2 THEN [i \in 1..t.n |-> 0]      \* only padding is wider than 16 bits
                 ELSE BE(BitsSum(t.f, v, 1), t.n)

\* Enc(t, v, r): encoding of value v of node t, r being the record around it
RECURSIVE Enc(_, _, _), EncStruct(_, _, _), EncSeq(_, _, _)
EncStruct(t, v, i) ==
  IF i > Len(t.f) THEN <<>>
  ELSE LET f == t.f[i] IN
       (IF f[1] = "" THEN EncBits(f[2], v) ELSE Enc(f[2], v[f[1]], v)) \o EncStruct(t, v, i + 1)
EncSeq(t, vs, i) == IF i > Len(vs) THEN <<>> ELSE Enc(t, vs[i], vs[i]) \o EncSeq(t, vs, i + 1)
Enc(t, v, r) ==
  CASE t.k \in {"u8", "fid", "ifid", "cnt8"} -> <<v>>
    [] t.k = "i8" -> <<IF v < 0 THEN v + 256 ELSE v>>
    [] t.k = "u16" -> BE(v, 2)
    [] t.k = "u16le" -> Rev(BE(v, 2))
    [] t.k = "be" -> v
    [] t.k = "le" -> Rev(v)
    [] t.k = "str" -> v \o [i \in 1..(t.n - Len(v)) |-> 0]
    [] t.k \in {"len", "cnt"} -> EncLen(v)
    [] t.k = "var" -> EncVar(v)
    [] t.k = "empty" -> <<>>
    [] t.k \in {"rest", "counted"} -> v
    [] t.k = "struct" -> EncStruct(t, v, 1)
    [] t.k = "opt" -> IF v = <<>> THEN <<>> ELSE Enc(t.t, v[1], r)
    [] t.k = "sel" -> Enc(SelNode(t, Field(r, t.by)), v, r)
    [] t.k \in {"list", "rep"} -> EncSeq(t.t, v, 1)
    [] t.k = "region" -> LET e == Enc(t.t, v, r) IN EncLen(Len(e)) \o e
    [] t.k = "file" -> LET e == IF v[1] = "Other" THEN v[2] ELSE Enc(FileCases[FileNI[v[1]]][3], v[2], r)
                       IN EncLen(Len(e)) \o e
    [] t.k = "bounded" -> Enc(t.t, v, r)
    [] t.k = "command" -> EncSeq(Action, v, 1)
    [] t.k = "union" -> IF v[1] \in DOMAIN t.ni
                        THEN LET c == t.cs[t.ni[v[1]]] IN <<c[1]>> \o Enc(c[3], v[2], r)
                        ELSE <<v[2]>>
    [] t.k = "peek" -> Enc(t.cs[t.ni[v[1]]][3], v[2], r)
    [] t.k = "enum8" -> <<t.e.n2c[v]>>

EncFile(v) == IF v[1] = "Other" THEN v[2] ELSE Enc(FileCases[FileNI[v[1]]][3], v[2], v)
EncCommand(as) == EncSeq(Action, as, 1)

-----------------------------------------------------------------------------
(* decoding *)

BitOk(f, x) == f.kind # "enum" \/ x \in DOMAIN f.e.c2n
BitGet(f, x) == CASE f.kind = "bool" -> (x = 1) [] f.kind = "enum" -> f.e.c2n[x] [] OTHER -> x
BitRaw(f, n) == (n \div (2 ^ f.sh)) % (2 ^ f.w)
Named(t) == {i \in 1..Len(t.f) : t.f[i].kind \in {"bool", "uint", "enum"}}
BitsRec(t, n) == LET ix == Named(t) IN
  [m \in {t.f[i].name : i \in ix} |->
     LET f == t.f[CHOOSE i \in ix : t.f[i].name = m] IN BitGet(f, BitRaw(f, n))]

\* the first byte or bytes of a case are read by the case itself, const fields are known to match
DecBits(t, b, p, e) ==
  IF p + t.n > e THEN Inc
  ELSE IF t.n > 2 THEN Ok(<<>>, p + t.n)
  ELSE LET n == BEVal(b, p, t.n) IN
       IF \A i \in 1..Len(t.f) : BitOk(t.f[i], BitRaw(t.f[i], n)) THEN Ok(BitsRec(t, n), p + t.n) ELSE Bad

Fixed(b, p, e, n) == IF p + n > e THEN Inc ELSE Ok(Slice(b, p, n), p + n)

\* a length operand behind p
DecLen(b, p, e) == IF p >= e \/ p + 1 + LenNeeds(b[p + 1]) > e THEN Inc
                   ELSE Ok(DecLenVal(b, p), p + 1 + LenNeeds(b[p + 1]))

(* Dec(t, b, p, e, r, x): node t in b[p+1..e], r the record being read around it, x the position at
   which an enclosing frame ends its command, or -1. *)
RECURSIVE Dec(_, _, _, _, _, _), DecStruct(_, _, _, _, _, _, _, _), DecSeq(_, _, _, _, _, _),
          DecActions(_, _, _, _, _)
DecStruct(t, b, p, e, i, r, x, start) ==
  IF i > Len(t.f) THEN Ok(r, p)
  ELSE LET f == t.f[i]
           nx == IF f[1] # "" /\ f[2].k = "bounded"
                 THEN (IF Field(r, f[2].by) = 0 THEN -1 ELSE start + Field(r, f[2].by)) ELSE x
           d == IF f[1] = "" THEN DecBits(f[2], b, p, e) ELSE Dec(f[2], b, p, e, r, nx)
       IN IF ~IsOk(d) THEN d
          ELSE DecStruct(t, b, d[3], e, i + 1,
                         IF f[1] # "" THEN (f[1] :> d[2]) @@ r
                         ELSE IF d[2] = <<>> THEN r ELSE d[2] @@ r,
                         x, start)
DecSeq(t, b, p, e, n, acc) ==
  IF n = 0 THEN Ok(acc, p)
  ELSE LET d == Dec(t, b, p, e, <<>>, -1)
       IN IF ~IsOk(d) THEN d ELSE DecSeq(t, b, d[3], e, n - 1, Append(acc, d[2]))
\* actions up to the end of the input, the frame's command end x, or an indirect forward
DecActions(b, p, e, x, acc) ==
  IF (x >= 0 /\ p >= x) \/ p >= e \/ (acc # <<>> /\ acc[Len(acc)][1] = "IndirectForward") THEN Ok(acc, p)
  ELSE LET d == Dec(Action, b, p, e, <<>>, -1)
       IN IF ~IsOk(d) THEN d ELSE DecActions(b, d[3], e, x, Append(acc, d[2]))
\* the contents of a file: its structure if they are exactly that, else just bytes
FileValue(id, raw) ==
  IF id \in DOMAIN FileCI
  THEN LET c == FileCases[FileCI[id]]
           d == Dec(c[3], raw, 0, Len(raw), <<>>, -1)
       IN IF IsOk(d) /\ d[3] = Len(raw) THEN <<c[2], d[2]>> ELSE <<"Other", raw>>
  ELSE <<"Other", raw>>
Dec(t, b, p, e, r, x) ==
  CASE t.k \in {"u8", "fid", "ifid", "cnt8"} -> IF p >= e THEN Inc ELSE Ok(b[p + 1], p + 1)
    [] t.k = "i8" -> IF p >= e THEN Inc ELSE Ok(IF b[p + 1] > 127 THEN b[p + 1] - 256 ELSE b[p + 1], p + 1)
    [] t.k = "u16" -> IF p + 2 > e THEN Inc ELSE Ok(BEVal(b, p, 2), p + 2)
    [] t.k = "u16le" -> IF p + 2 > e THEN Inc ELSE Ok(b[p + 1] + 256 * b[p + 2], p + 2)
    [] t.k = "be" -> Fixed(b, p, e, t.n)
    [] t.k = "le" -> LET d == Fixed(b, p, e, t.n) IN IF IsOk(d) THEN Ok(Rev(d[2]), d[3]) ELSE d
    [] t.k = "str" -> LET d == Fixed(b, p, e, t.n) IN
                      IF ~IsOk(d) THEN d
                      ELSE IF Utf8(d[2]) THEN Ok(StripNul(d[2]), d[3]) ELSE Bad
    [] t.k \in {"len", "cnt"} -> DecLen(b, p, e)
    [] t.k = "var" -> IF p >= e THEN Inc ELSE Ok(DecVarVal(b[p + 1]), p + 1)
    [] t.k = "empty" -> Ok(<<>>, p)
    [] t.k = "never" -> Bad
    [] t.k = "rest" -> Ok(Slice(b, p, e - p), e)
    [] t.k = "counted" -> Fixed(b, p, e, Field(r, t.by))
    [] t.k = "struct" -> DecStruct(t, b, p, e, 1, <<>>, x, p)
    [] t.k = "opt" -> IF ~Present(r, t.c) THEN Ok(<<>>, p)
                      ELSE LET d == Dec(t.t, b, p, e, r, x) IN IF IsOk(d) THEN Ok(<<d[2]>>, d[3]) ELSE d
    [] t.k = "sel" -> Dec(SelNode(t, Field(r, t.by)), b, p, e, r, x)
    [] t.k = "list" -> DecSeq(t.t, b, p, e, Field(r, t.by), <<>>)
    [] t.k = "rep" -> DecSeq(t.t, b, p, e, t.n, <<>>)
    [] t.k = "region" ->
         LET l == DecLen(b, p, e) IN
         IF ~IsOk(l) THEN l
         ELSE IF l[3] + l[2] > e THEN Inc
         ELSE LET d == Dec(t.t, b, l[3], l[3] + l[2], r, x)
              IN IF IsOk(d) /\ d[3] = l[3] + l[2] THEN d ELSE Bad
    [] t.k = "file" ->
         LET l == DecLen(b, p, e) IN
         IF ~IsOk(l) THEN l
         ELSE IF l[3] + l[2] > e THEN Inc
         ELSE Ok(FileValue(Field(r, t.by), Slice(b, l[3], l[2])), l[3] + l[2])
    [] t.k = "bounded" -> Dec(t.t, b, p, e, r, x)
    [] t.k = "command" -> DecActions(b, p, e, x, <<>>)
    [] t.k = "union" ->
         IF p >= e THEN Inc
         ELSE IF b[p + 1] \in DOMAIN t.ci
              THEN LET c == t.cs[t.ci[b[p + 1]]]
                       d == Dec(c[3], b, p + 1, e, r, x)
                   IN IF IsOk(d) THEN Ok(<<c[2], d[2]>>, d[3]) ELSE d
              ELSE IF t.other = "" THEN Bad ELSE Ok(<<t.other, b[p + 1]>>, p + 1)
    [] t.k = "peek" ->
         IF p >= e THEN Inc
         ELSE LET c == (b[p + 1] \div t.d) % t.m IN
              IF c \notin DOMAIN t.ci THEN Bad
              ELSE LET d == Dec(t.cs[t.ci[c]][3], b, p, e, r, x)
                   IN IF IsOk(d) THEN Ok(<<t.cs[t.ci[c]][2], d[2]>>, d[3]) ELSE d
    [] t.k = "enum8" -> IF p >= e THEN Inc
                        ELSE IF b[p + 1] \in DOMAIN t.e.c2n THEN Ok(t.e.c2n[b[p + 1]], p + 1) ELSE Bad

Decode(t, b) == Dec(t, b, 0, Len(b), <<>>, -1)
DecCommand(b) == DecActions(b, 0, Len(b), -1, <<>>)

-----------------------------------------------------------------------------
(* generation *)

RECURSIVE InOrderOf(_)
InOrderOf(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A o \in S : m <= o IN <<m>> \o InOrderOf(S \ {m})
HintSeq == InOrderOf(Hints)
HintBytes == {h % 256 : h \in Hints}
Below(n) == SelectSeq(HintSeq, LAMBDA h : h < n)
\* whether a hint below n is taken, and which
Hinted(s, n) == Hints # {} /\ Rnd(Mix(s, 61), 2) = 0 /\ Below(n) # <<>>
HintOf(s, n) == Below(n)[1 + Rnd(Mix(s, 62), Len(Below(n)))]

Leaf(s, n) ==                                     \* 0..n-1, bounds are frequent
  LET c == Rnd(Mix(s, 1), 10) IN
  CASE Hinted(s, n) -> HintOf(s, n)
    [] c = 0 -> 0 [] c = 1 -> n - 1 [] c = 2 -> Min(1, n - 1) [] c = 3 -> n \div 2
    [] OTHER -> Rnd(Mix(s, 2), Min(n, 30000))
GenBytes(s, n) ==
  LET c == Rnd(Mix(s, 3), 8)
      h == HintOf(s, 1073741824)
      v == Rnd(Mix(s, 63), 5)
      w == BE(h, IF h < 256 THEN 1 ELSE IF h < 65536 THEN 2 ELSE 4)
      at == CASE v = 2 -> 0 [] v = 3 -> n - Len(w) [] OTHER -> Rnd(Mix(s, 64), n + 1 - Len(w))
  IN
  \* a hint fills them, or stands at their beginning, at their end or somewhere among others
  CASE n > 0 /\ Hinted(s, 1073741824) /\ Len(w) <= n ->
         CASE v = 0 -> [i \in 1..n |-> w[Len(w)]]
           [] v = 1 -> [i \in 1..n |-> IF i > n - Len(w) THEN w[i - n + Len(w)] ELSE 0]
           [] OTHER -> [i \in 1..n |-> IF i > at /\ i <= at + Len(w) THEN w[i - at] ELSE Rnd(Mix(s, 10 + i), 256)]
    [] c = 0 -> [i \in 1..n |-> 0] [] c = 1 -> [i \in 1..n |-> 255]
    [] c = 2 -> [i \in 1..n |-> (i * 17) % 256]
    [] OTHER -> [i \in 1..n |-> Rnd(Mix(s, 10 + i), 256)]
LenPicks == <<0, 1, 2, 62, 63, 64, 65, 255, 256, 16382, 16383, 16384, 16385, 65535, 65536, 4194302, 4194303,
              4194304, 4194305, 16777216, 1073741822, 1073741823>>
GenLen(s) == LET c == Rnd(Mix(s, 4), 4) IN
  IF Hinted(s, 1073741824) THEN HintOf(s, 1073741824)
  ELSE IF c < 2 THEN LenPicks[1 + Rnd(Mix(s, 5), Len(LenPicks))]
  ELSE IF c = 2 THEN Rnd(Mix(s, 6), 300)
  ELSE Rnd(Mix(s, 7), 30000) * (1 + Rnd(Mix(s, 8), 30000))
GenCnt(s) == LET c == Rnd(Mix(s, 9), 16) IN
  IF Hinted(s, 300) THEN HintOf(s, 300)
  ELSE IF c = 0 THEN 0 ELSE IF c = 1 THEN 63 + Rnd(Mix(s, 10), 3) ELSE 1 + Rnd(Mix(s, 11), 9)
StructFids == [i \in 1..Len(FileCases) |-> FileCases[i][1]]
GenFid(s) == IF Hinted(s, 256) THEN HintOf(s, 256)
             ELSE IF Rnd(Mix(s, 12), 3) = 0 THEN Rnd(Mix(s, 13), 256)
             ELSE IF Rnd(Mix(s, 12), 3) = 1 THEN Rnd(Mix(s, 13), 64)
             ELSE StructFids[1 + Rnd(Mix(s, 14), Len(StructFids))]
GenStr(s, n) ==
  LET c == Rnd(Mix(s, 15), 6) IN
  CASE c = 0 -> <<>>
    [] c = 1 -> [i \in 1..n |-> 65 + i]
    [] c = 2 /\ n >= 3 -> <<195, 169, 48 + Rnd(Mix(s, 16), 10)>>
    [] c = 3 /\ n >= 5 -> <<97, 226, 130, 172, 98>>
    [] OTHER -> [i \in 1..(1 + Rnd(Mix(s, 17), n)) |-> 33 + Rnd(Mix(s, 20 + i), 94)]
GenBit(f, s) == CASE f.kind = "bool" -> (Rnd(Mix(s, 18), 2) = 1)
                  [] f.kind = "enum" -> f.e.seq[1 + Rnd(Mix(s, 19), Len(f.e.seq))][2]
                  [] OTHER -> Leaf(s, 2 ^ f.w)
GenBits(t, s) == LET ix == Named(t) IN
  [m \in {t.f[i].name : i \in ix} |-> LET i == CHOOSE i \in ix : t.f[i].name = m IN GenBit(t.f[i], Mix(s, i))]

IfIds == IF Strange THEN <<0, 1, 215, 215, 215, 215, 4, 66, 255, 214, 216>> ELSE <<0, 1, 215, 215, 215>>

RECURSIVE Gen(_, _, _), GenStruct(_, _, _, _), GenActions(_, _, _)
GenStruct(t, s, i, r) ==
  IF i > Len(t.f) THEN r
  ELSE LET f == t.f[i] IN
       GenStruct(t, s, i + 1,
         IF f[1] # "" THEN (f[1] :> Gen(f[2], Mix(s, 100 + i), r)) @@ r
         ELSE IF Named(f[2]) = {} THEN r ELSE GenBits(f[2], Mix(s, 100 + i)) @@ r)
GenActions(s, n, acc) ==
  IF n = 0 THEN acc
  ELSE LET a == Gen(Action, Mix(s, 200 + n), <<>>)
       IN IF a[1] = "IndirectForward" /\ n > 1 THEN GenActions(s, n - 1, acc)
          ELSE GenActions(s, n - 1, Append(acc, a))
GenFile(id, s) ==
  LET raw == GenBytes(Mix(s, 31), GenCnt(Mix(s, 32))) IN
  IF id \in DOMAIN FileCI /\ Rnd(Mix(s, 33), 4) > 0
  THEN <<FileCases[FileCI[id]][2], Gen(FileCases[FileCI[id]][3], Mix(s, 34), <<>>)>>
  ELSE IF FileValue(id, raw)[1] = "Other" THEN <<"Other", raw>> ELSE <<"Other", <<>>>>
Gen(t, s, r) ==
  CASE t.k = "u8" -> Leaf(s, 256)
    [] t.k = "fid" -> GenFid(s)
    [] t.k = "ifid" -> IF Strange /\ Hinted(s, 256) THEN HintOf(s, 256) ELSE IfIds[1 + Rnd(Mix(s, 35), Len(IfIds))]
    [] t.k = "i8" -> Leaf(s, 256) - 128
    [] t.k \in {"u16", "u16le"} -> IF Hinted(s, 65536) THEN HintOf(s, 65536)
                                   ELSE IF Rnd(Mix(s, 36), 2) = 0 THEN Leaf(s, 65536)
                                   ELSE Rnd(Mix(s, 37), 256) * 256 + Rnd(Mix(s, 38), 256)
    [] t.k \in {"be", "le"} -> GenBytes(s, t.n)
    [] t.k = "str" -> GenStr(s, t.n)
    [] t.k = "len" -> GenLen(s)
    [] t.k = "cnt" -> GenCnt(s)
    [] t.k = "cnt8" -> LET c == Rnd(Mix(s, 39), 40) IN IF Hinted(Mix(s, c % 4), 256) /\ c % 4 = 0 THEN HintOf(s, 256)
                      ELSE IF c < 34 THEN c % 6 ELSE <<127, 128, 129, 200, 254, 255>>[c - 33]
    [] t.k = "var" -> Expand(Rnd(Mix(s, 40), 8), Leaf(Mix(s, 41), 32))
    [] t.k = "empty" -> <<>>
    [] t.k = "rest" -> GenBytes(s, GenCnt(Mix(s, 42)))
    [] t.k = "counted" -> GenBytes(s, Field(r, t.by))
    [] t.k = "struct" -> GenStruct(t, s, 1, <<>>)
    [] t.k = "opt" -> IF Present(r, t.c) THEN <<Gen(t.t, s, r)>> ELSE <<>>
    [] t.k = "sel" -> Gen(SelNode(t, Field(r, t.by)), s, r)
    [] t.k = "list" -> [i \in 1..Field(r, t.by) |-> Gen(t.t, Mix(s, 50 + i), <<>>)]
    [] t.k = "rep" -> [i \in 1..t.n |-> Gen(t.t, Mix(s, 50 + i), <<>>)]
    [] t.k \in {"region", "bounded"} -> Gen(t.t, s, r)
    [] t.k = "file" -> GenFile(Field(r, t.by), s)
    [] t.k = "command" -> GenActions(s, Rnd(Mix(s, 43), 4), <<>>)
    [] t.k = "union" -> LET n == Len(t.cs) + (IF t.other = "" THEN 0 ELSE 1)
                            c == 1 + Rnd(Mix(s, 44), n)
                            u == LET z == IF Hinted(Mix(s, 45), 256) THEN HintOf(Mix(s, 45), 256) ELSE 4 + Rnd(Mix(s, 45), 252) IN IF z \in DOMAIN t.ci THEN 4 ELSE z
                        IN IF c > Len(t.cs) THEN <<t.other, u>>
                           ELSE <<t.cs[c][2], Gen(t.cs[c][3], Mix(s, 46), r)>>
    [] t.k = "peek" -> LET c == 1 + Rnd(Mix(s, 47), Len(t.cs))
                       IN <<t.cs[c][2], Gen(t.cs[c][3], Mix(s, 48), r)>>
    [] t.k = "enum8" -> t.e.seq[1 + Rnd(Mix(s, 49), Len(t.e.seq))][2]
    [] OTHER -> <<>>

GenCase(cs, c, s) == <<cs[c][2], Gen(cs[c][3], s, <<>>)>>

\* a foreground frame whose length field is the offset of the end of its command
GenForeground(s) ==
  LET f == Gen(ForegroundFrame, s, <<>>)
      body == Len(Enc(ForegroundFrame, [f EXCEPT !.length = 1], f)) - 3     \* without length and crc
      l == IF 1 + body < 64 THEN 1 + body ELSE IF 2 + body < 16384 THEN 2 + body ELSE 3 + body
  IN [f EXCEPT !.length = l]

=============================================================================
