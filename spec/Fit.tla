--------------------------------- MODULE Fit --------------------------------
(***************************************************************************)
(* Values at and beyond the bounds of their fields.  An owner changes one  *)
(* leaf of a well-formed value to a number, text or list that may not fit  *)
(* and asks for its encoding: it is refused exactly if it does not fit.    *)
(***************************************************************************)
EXTENDS Catalogue

CONSTANTS Kinds, N, Seed

VARIABLES phase, job, val, leaf, new
vars == <<phase, job, val, leaf, new>>

JobSeed(j) == Mix(Mix(Seed * 41 + j[3], j[2]), 9)
Jobs == UNION {{t} \X (1..Variants(t)) \X (1..N) : t \in Kinds}

\* the leaves that can be too large: <<path, kind, width>>
Pre(p, ls) == [i \in 1..Len(ls) |-> <<p \o ls[i][1], ls[i][2], ls[i][3]>>]
UintAt(fs) == LET ix == {i \in 1..Len(fs) : fs[i].kind = "uint"}
              IN Flatten([i \in 1..Len(fs) |-> IF i \in ix THEN << <<(<<fs[i].name>>), "uint", fs[i].w>> >> ELSE <<>>])
VecNames == {"network_session_key", "app_session_key", "device_eui", "app_eui", "app_key"}
RECURSIVE Leaves(_, _, _), LeavesStruct(_, _, _)
LeavesStruct(t, v, i) ==
  IF i > Len(t.f) THEN <<>>
  ELSE LET f == t.f[i] IN
       (IF f[1] = "" THEN UintAt(f[2].f)
        ELSE IF f[1] \in VecNames THEN << <<(<<f[1]>>), "vec", f[2].n>> >>
        ELSE Pre(<<f[1]>>, Leaves(f[2], v[f[1]], v)))
       \o LeavesStruct(t, v, i + 1)
Leaves(t, v, r) ==
  CASE t.k = "len" -> << <<(<<>>), "len", 0>> >>
    [] t.k = "var" -> << <<(<<>>), "var", 0>> >>
    [] t.k = "str" -> << <<(<<>>), "str", t.n>> >>
    [] t.k = "struct" -> LeavesStruct(t, v, 1)
    [] t.k = "opt" -> IF v = <<>> THEN <<>> ELSE Pre(<<1>>, Leaves(t.t, v[1], r))
    [] t.k = "sel" -> Leaves(SelNode(t, Field(r, t.by)), v, r)
    [] t.k \in {"list", "rep"} ->
         (IF v = <<>> THEN <<>> ELSE Pre(<<Len(v)>>, Leaves(t.t, v[Len(v)], r)))
         \o (IF t.k = "list" THEN << <<(<<>>), "list", 255>> >> ELSE <<>>)
    [] t.k \in {"region", "bounded"} -> Leaves(t.t, v, r)
    [] t.k = "file" -> IF v[1] = "Other" THEN <<>> ELSE Pre(<<2>>, Leaves(FileCases[FileNI[v[1]]][3], v[2], r))
    [] t.k \in {"union", "peek"} -> IF v[1] \in DOMAIN t.ni THEN Pre(<<2>>, Leaves(t.cs[t.ni[v[1]]][3], v[2], r))
                                    ELSE <<>>
    [] OTHER -> <<>>
LeavesOf(t, v) == IF t = "File" THEN (IF v[1] = "Other" THEN <<>>
                                      ELSE Pre(<<2>>, Leaves(FileCases[FileNI[v[1]]][3], v[2], v)))
                  ELSE Leaves(NodeOf(t), v, v)

RECURSIVE SetAt(_, _, _)
SetAt(v, path, x) == IF path = <<>> THEN x
                     ELSE [v EXCEPT ![path[1]] = SetAt(v[path[1]], Tail(path), x)]
RECURSIVE GetAt(_, _)
GetAt(v, path) == IF path = <<>> THEN v ELSE GetAt(v[path[1]], Tail(path))

Init == /\ phase = "idle" /\ job \in Jobs /\ val = <<>> /\ leaf = <<>> /\ new = <<>>
Make == /\ phase = "idle"
        /\ val' = GenItem(job[1], job[2], JobSeed(job))
        /\ phase' = "made" /\ UNCHANGED <<job, leaf, new>>

\* <<fits, value>>
Two(w) == 2 ^ w
Candidates(k, w) ==
  CASE k = "uint" -> {<<TRUE, 0>>, <<TRUE, Two(w) - 1>>, <<FALSE, Two(w)>>, <<FALSE, Two(w) + 1>>,
                      <<FALSE, IF w < 8 THEN 255 ELSE 65535>>, <<FALSE, IF w < 8 THEN 128 ELSE 32768>>}
    [] k = "len" -> {<<TRUE, 0>>, <<TRUE, 63>>, <<TRUE, 64>>, <<TRUE, 16384>>, <<TRUE, 4194303>>,
                     <<TRUE, LenLimit - 1>>, <<FALSE, <<64, 0, 0, 0>>>>, <<FALSE, <<64, 0, 0, 1>>>>,
                     <<FALSE, <<128, 0, 0, 0>>>>, <<FALSE, <<192, 0, 0, 5>>>>, <<FALSE, <<255, 255, 255, 255>>>>}
    [] k = "var" -> {<<TRUE, 0>>, <<TRUE, 33>>, <<TRUE, VarMax - 1>>, <<TRUE, VarMax>>,
                     <<FALSE, <<0, 7, 192, 1>>>>, <<FALSE, <<0, 8, 0, 0>>>>, <<FALSE, <<64, 0, 0, 0>>>>,
                     <<FALSE, <<128, 0, 0, 0>>>>, <<FALSE, <<255, 255, 255, 255>>>>}
    [] k = "str" -> {<<n <= w, [i \in 1..n |-> 64 + i]>> : n \in {0, 1, w - 1, w, w + 1, w + 9, 40}}
                    \cup {<<2 * n <= w, [i \in 1..(2 * n) |-> IF i % 2 = 1 THEN 195 ELSE 169]>> : n \in {1, 3, 4, 5}}
    [] k = "vec" -> {<<n = w, [i \in 1..n |-> i]>> : n \in {0, 1, w - 1, w, w + 1, 2 * w}}
    [] k = "list" -> {<<n <= w, [i \in 1..n |-> Gen(ChannelStatus, i, <<>>)]>> : n \in {0, 1, 254, 255, 256, 257, 511, 512}}

Change == /\ phase = "made"
          /\ \E i \in 1..Len(LeavesOf(job[1], val)) :
               LET l == LeavesOf(job[1], val)[i] IN
               /\ leaf' = l
               /\ \E c \in Candidates(l[2], l[3]) : new' = c
          /\ phase' = "changed" /\ UNCHANGED <<job, val>>
Next == Make \/ Change

\* the length of a list goes with it
WithLen(v) == IF leaf[2] = "list"
              THEN SetAt(v, SubSeq(leaf[1], 1, Len(leaf[1]) - 1) \o <<"channel_status_list_length">>,
                         IF new[1] THEN Len(new[2]) ELSE Len(new[2]) % 256)
              ELSE v
Changed == WithLen(SetAt(val, leaf[1], new[2]))

\* what fits can be written, and is read as the same up to rounding
Fits == (phase = "changed" /\ new[1]) =>
  LET b == EncItem(job[1], Changed)
      d == DecItem(job[1], IdOf(job[1], job[2]), b)
  IN IsOk(d) /\ d[3] = Len(b) /\ (leaf[2] # "var" => d[2] = Changed)

Emitted == phase = "changed" =>
  LET r == [k |-> "fit", t |-> job[1], v |-> Changed, ok |-> new[1]]
  IN Emit(IF new[1] THEN [b |-> EncItem(job[1], Changed)] @@ r ELSE r)

Codes_ == (phase = "idle" /\ job = (CHOOSE j \in Jobs : TRUE)) =>
  /\ \A n \in 0..255 : Emit(IF n < 64 THEN [k |-> "op", n |-> n, ok |-> TRUE, b |-> <<n * 4>>]
                            ELSE [k |-> "op", n |-> n, ok |-> FALSE])
  /\ \A h \in {0, 1, 2, 63, 64, 255, 65536} : \A l \in {<<0, 0, 0, 0>>, <<0, 0, 0, 63>>, <<0, 0, 64, 0>>, <<0, 64, 0, 0>>,
          <<63, 255, 255, 255>>, <<64, 0, 0, 0>>, <<255, 255, 255, 255>>} :
       LET ok == h = 0 /\ l[1] < 64
           r == [k |-> "usz", hi |-> h, lo |-> l, ok |-> ok]
       IN Emit(IF ok THEN [b |-> EncLen(BEVal(l, 0, 4))] @@ r ELSE r)
=============================================================================
