--------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Items whose operands cross the sizes at which a length needs one more   *)
(* byte: the same path as in Items, with the operand size chosen freely.   *)
(***************************************************************************)
EXTENDS Catalogue

CONSTANTS Sizes,          \* numbers of bytes of the operand
          Forms,          \* which kinds of item
          HugeSizes,      \* numbers of bytes that only the implementation sees
          Seed

VARIABLES phase, form, size, item, wire, got
vars == <<phase, form, size, item, wire, got>>

Data0(n) == LET s == Mix(Seed * 43 + n, 2) IN [i \in 1..n |-> Rnd(Mix(s, i % 61) + i, 256)]
Case0(cs, name) == cs[CHOOSE i \in 1..Len(cs) : cs[i][2] = name]
Off(s) == [file_id |-> 64 + Rnd(Mix(s, 1), 190), offset |-> GenLen(Mix(s, 2))]
WriteOf(name, n) == LET s == Mix(Seed * 47 + n, 3) IN
  <<name, [group |-> FALSE, response |-> TRUE, offset |-> Off(s), data |-> <<"Other", Data0(n)>>]>>
Masked(n, m) == [mask_present |-> m, length |-> n, mask |-> IF m THEN <<Rev(Data0(n))>> ELSE <<>>]
QueryOf(name, n, m) == LET s == Mix(Seed * 53 + n, 4) IN
  <<name,
    CASE name = "ComparisonWithZero" -> [signed |-> TRUE, comparison_type |-> "Equal", file |-> Off(s)] @@ Masked(n, m)
      [] name = "ComparisonWithValue" -> [signed |-> FALSE, comparison_type |-> "GreaterThan", file |-> Off(s), value |-> Data0(n)] @@ Masked(n, m)
      [] name = "ComparisonWithOtherFile" -> [signed |-> FALSE, comparison_type |-> "LessThanOrEqual", file1 |-> Off(s), file2 |-> Off(s + 1)] @@ Masked(n, m)
      [] name = "BitmapRangeComparison" -> [mask_present |-> m, signed |-> FALSE, comparison_type |-> "InRange", length |-> n, start |-> n, stop |-> 2 * n, mask |-> Data0(n), file |-> Off(s)]
      [] OTHER -> [max_errors |-> 5, value |-> Data0(n), file |-> Off(s)] @@ Masked(n, m)>>
FrameOf(n) == LET f == Gen(ForegroundFrame, Mix(Seed * 59 + n, 5), <<>>)
                  g == [f EXCEPT !.frame.frame.command = <<WriteOf("WriteFileData", n)>>]
                  body == Len(Enc(ForegroundFrame, [g EXCEPT !.length = 1], g)) - 3
                  l == IF 1 + body < 64 THEN 1 + body ELSE IF 2 + body < 16384 THEN 2 + body ELSE 3 + body
              IN [g EXCEPT !.length = l]
FinalOf(n) == [interface_id |-> 4, status |-> Data0(n)]
\* Operands far beyond what TLC can hold: what stands before and behind the n equal bytes of one
Fill(n) == [i \in 1..n |-> 173]
HugeQuery == [signed |-> FALSE, comparison_type |-> "Equal", file |-> Off(Seed), value |-> <<>>] @@ Masked(0, FALSE)
HugeItem(f, b) ==                       \* with the bytes b as its operand
  IF f = "ActionQuery" THEN <<f, [group |-> FALSE, response |-> TRUE,
                                  query |-> <<"ComparisonWithValue", [HugeQuery EXCEPT !.value = b, !.length = Len(b)]>>]>>
  ELSE <<f, [group |-> FALSE, response |-> TRUE, offset |-> Off(Seed), data |-> <<"Other", b>>]>>
EmptyOf(f) == EncItem("Action", HugeItem(f, <<>>))
\* the length stands right before the operand, and an empty one is announced by a single byte
Before(f) == IF f = "ActionQuery" THEN 2 ELSE Len(EmptyOf(f)) - 1
HugeHead(f, n) == SubSeq(EmptyOf(f), 1, Before(f)) \o EncLen(n)
HugeTail(f) == SubSeq(EmptyOf(f), Before(f) + 2, Len(EmptyOf(f)))
Huge(f, n) == [k |-> "huge", f |-> f, n |-> n, fill |-> 173, head |-> HugeHead(f, n), tail |-> HugeTail(f),
               file_id |-> Off(Seed).file_id, offset |-> Off(Seed).offset]
\* as long as all its bytes are there, the status of an interface nobody knows may be of any size
StatusOf(n) == [interface_type |-> 66, status |-> Data0(n)]

HugeForms == {"WriteFileData", "ReturnFileData", "WriteFileDataFlush", "ActionQuery"}
QueryNames == {"ComparisonWithZero", "ComparisonWithValue", "ComparisonWithOtherFile", "BitmapRangeComparison", "StringTokenSearch"}
TypeOf(f) == CASE f \in {"WriteFileData", "ReturnFileData", "WriteFileDataFlush", "ActionQuery"} -> "Action"
               [] f = "File" -> "File" [] f = "Command" -> "Command" [] f \in {"FinalStatus", "TxStatus", "InterfaceStatus"} -> f
               [] f \in {"Status", "InterfaceFinal", "Transmission"} -> "Action"
               [] f = "ForegroundFrame" -> "ForegroundFrame" [] OTHER -> "Query"
IdFor(f) == IF f = "File" THEN 64 ELSE 0
Items(f, n) == CASE f \in {"WriteFileData", "ReturnFileData", "WriteFileDataFlush"} -> {WriteOf(f, n)}
                 [] f = "ActionQuery" -> {<<f, [group |-> TRUE, response |-> FALSE, query |-> QueryOf("ComparisonWithValue", n, TRUE)]>>}
                 [] f = "File" -> {<<"Other", Data0(n)>>}
                 [] f = "Command" -> {<<WriteOf("WriteFileData", n), GenCase(ActionCases, 1, n), WriteOf("ReturnFileData", n)>>}
                 [] f \in {"FinalStatus", "TxStatus"} -> {FinalOf(n)}
                 [] f = "InterfaceStatus" -> {StatusOf(n)}
                 [] f = "Status" -> {<<f, [status_type |-> "Interface", status |-> StatusOf(n)]>>}
                 [] f = "InterfaceFinal" -> {<<"Status", [status_type |-> f, status |-> FinalOf(n)]>>}
                 [] f = "Transmission" -> {<<"TxStatus", [status_type |-> "Interface", status |-> FinalOf(n)]>>}
                 [] f = "ForegroundFrame" -> {FrameOf(n)}
                 [] OTHER -> {QueryOf(f, n, m) : m \in BOOLEAN}

Least == CHOOSE n \in Sizes : \A m \in Sizes : n <= m
Init == /\ form \in Forms /\ size \in Sizes /\ item \in Items(form, size)
        /\ phase = "made" /\ wire = <<>> /\ got = <<>>
Send == phase = "made" /\ wire' = EncItem(TypeOf(form), item) /\ phase' = "sent" /\ UNCHANGED <<form, size, item, got>>
Read == /\ phase = "sent" /\ got' = DecItem(TypeOf(form), IdFor(form), wire) /\ phase' = "read"
        /\ UNCHANGED <<form, size, item, wire>>
Next == Send \/ Read

\* so it is for all the sizes that can be tried
HeadAndTail == (phase = "made" /\ form \in HugeForms /\ size <= 20000) =>
  EncItem("Action", HugeItem(form, Fill(size))) = HugeHead(form, size) \o Fill(size) \o HugeTail(form)
RoundTrip == phase = "read" => got = Ok(item, Len(wire))
Emitted == phase = "read" =>
  LET t == TypeOf(form)
      kb == IF t \in KnownIn /\ form # "ForegroundFrame" THEN KnownItem(t, item) ELSE wire
      r == [k |-> "rt", t |-> t, id |-> IdFor(form), v |-> item, b |-> wire]
  IN /\ Emit(IF kb = wire THEN r ELSE [kb |-> kb] @@ r)
     /\ (form \in HugeForms /\ size = Least) => \A n \in HugeSizes : Emit(Huge(form, n))
=============================================================================
