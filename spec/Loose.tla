-------------------------------- MODULE Loose -------------------------------
(***************************************************************************)
(* Other encodings of the same value: reserved bits set, lengths and       *)
(* compressed numbers not minimal.  The seed s picks one of them.          *)
(***************************************************************************)
EXTENDS Codec

PadVal(f, s) == IF f.kind = "pad" THEN Rnd(Mix(s, f.sh), 2 ^ f.w) ELSE 0
RECURSIVE LooseSum(_, _, _, _)
LooseSum(fs, v, s, i) ==
  IF i > Len(fs) THEN 0
  ELSE (BitVal(fs[i], v) + PadVal(fs[i], s)) * (2 ^ fs[i].sh) + LooseSum(fs, v, s, i + 1)
LooseBits(t, v, s) == IF t.n > 2 THEN GenBytes(s, t.n) ELSE BE(LooseSum(t.f, v, s, 1), t.n)

LooseLen(n, s) == LET z == LenExtra(n) IN EncLenAs(n, z + Rnd(Mix(s, 60), 4 - z))
LooseVar(n, s) ==
  LET es == {e \in VarExp(n)..7 : n % (4 ^ e) = 0}
      e == IF es = {} THEN VarExp(n) ELSE CHOOSE e \in es : Cardinality({f \in es : f < e}) = Rnd(Mix(s, 61), Cardinality(es))
  IN <<e * 32 + (n \div (4 ^ e))>>

RECURSIVE EncL(_, _, _, _), EncLStruct(_, _, _, _), EncLSeq(_, _, _, _)
EncLStruct(t, v, s, i) ==
  IF i > Len(t.f) THEN <<>>
  ELSE LET f == t.f[i] IN
       (IF f[1] = "" THEN LooseBits(f[2], v, Mix(s, i)) ELSE EncL(f[2], v[f[1]], v, Mix(s, i)))
       \o EncLStruct(t, v, s, i + 1)
EncLSeq(t, vs, s, i) ==
  IF i > Len(vs) THEN <<>> ELSE EncL(t, vs[i], vs[i], Mix(s, i)) \o EncLSeq(t, vs, s, i + 1)
EncL(t, v, r, s) ==
  CASE t.k \in {"len", "cnt"} -> LooseLen(v, s)
    [] t.k = "var" -> LooseVar(v, s)
    [] t.k = "struct" -> EncLStruct(t, v, s, 1)
    [] t.k = "opt" -> IF v = <<>> THEN <<>> ELSE EncL(t.t, v[1], r, s)
    [] t.k = "sel" -> EncL(SelNode(t, Field(r, t.by)), v, r, s)
    [] t.k \in {"list", "rep"} -> EncLSeq(t.t, v, s, 1)
    [] t.k = "region" -> LET e == EncL(t.t, v, r, s) IN LooseLen(Len(e), s) \o e
    [] t.k = "file" -> LET e == IF v[1] = "Other" THEN v[2] ELSE EncL(FileCases[FileNI[v[1]]][3], v[2], r, s)
                       IN LooseLen(Len(e), s) \o e
    [] t.k = "bounded" -> EncL(t.t, v, r, s)
    [] t.k = "command" -> EncLSeq(Action, v, s, 1)
    [] t.k = "union" -> IF v[1] \in DOMAIN t.ni
                        THEN LET c == t.cs[t.ni[v[1]]] IN <<c[1]>> \o EncL(c[3], v[2], r, s)
                        ELSE <<v[2]>>
    [] t.k = "peek" -> EncL(t.cs[t.ni[v[1]]][3], v[2], r, s)
    [] OTHER -> Enc(t, v, r)
=============================================================================
