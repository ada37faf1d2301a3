------------------------------- MODULE Tables --------------------------------
(***************************************************************************)
(* Complete tables of the small codes as the implementation computes them, *)
(* run-length compressed, judged row by row.                               *)
(***************************************************************************)
EXTENDS Catalogue, IOUtils

CONSTANTS Which,          \* "lengths", "varints" or "ids"
          Full            \* every length, or the quick selection

Rows == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES at
vars == <<at>>
Init == at \in 1..Len(Rows)
Next == FALSE /\ at' = at

Row == Rows[at]

-----------------------------------------------------------------------------
(* Lengths: runs lo..hi of numbers (four bytes each) whose encodings have one size and count up by one.
   Between two numbers whose canonical encodings have the same size these count up by one, so the ends of a run
   decide all of it. *)
Small(b) == b[1] < 64                             \* below 2^30
Num(b) == BEVal(b, 0, 4)
Mega == 1048576
Span(part) ==                                     \* first and last number of a part, as bytes
  LET q(i) == BE(i * 16777216, 4) IN
  IF Full THEN
    CASE part < 64 -> <<q(part), BE(part * 16777216 + 16777215, 4)>>
      [] part = 64 -> << <<64, 0, 0, 0>>, <<64, 16, 0, 0>> >>
      [] part = 65 -> << <<64, 0, 0, 0>>, <<255, 255, 220, 0>> >>
      [] OTHER -> << <<255, 255, 252, 23>>, <<255, 255, 255, 255>> >>
  ELSE
    CASE part < 16 -> <<BE(part * 262144, 4), BE(part * 262144 + 262143, 4)>>
      [] part = 16 -> <<BE(4194304, 4), BE(4194304 + 4096, 4)>>
      [] part = 17 -> <<BE(1073741823 - 4095, 4), <<64, 0, 16, 0>> >>
      [] part = 18 -> <<BE(131072, 4), BE(131072 + 16381 * 65537, 4)>>
      [] part = 19 -> << <<64, 0, 0, 0>>, <<255, 255, 220, 0>> >>
      [] OTHER -> << <<255, 255, 252, 23>>, <<255, 255, 255, 255>> >>
Parts == IF Full THEN 0..66 ELSE 0..20
RunOk(r) ==
  IF Small(r.lo)
  THEN /\ Small(r.hi)
       /\ LenExtra(Num(r.lo)) = LenExtra(Num(r.hi))
       /\ r.first = EncLen(Num(r.lo)) /\ r.last = EncLen(Num(r.hi))
  ELSE r.first = <<>> /\ r.last = <<>>
\* each part starts and ends where it should; within a part a run goes on where the one before stopped
FirstOf(part) == CHOOSE i \in 1..Len(Rows) : Rows[i].part = part /\ (i = 1 \/ Rows[i - 1].part # part)
LastOf(part) == CHOOSE i \in 1..Len(Rows) : Rows[i].part = part /\ (i = Len(Rows) \/ Rows[i + 1].part # part)
Covered == \A p \in Parts : /\ \E i \in 1..Len(Rows) : Rows[i].part = p
                            /\ Rows[FirstOf(p)].lo = Span(p)[1]
                            /\ Rows[LastOf(p)].hi = Span(p)[2]

-----------------------------------------------------------------------------
(* compressed format *)
CompressOk(r) ==
  IF r.lo > VarMax THEN r.e = -1
  ELSE /\ r.hi <= VarMax
       /\ <<r.e, r.m>> = Compress(r.lo, r.up) /\ <<r.e, r.m>> = Compress(r.hi, r.up)
\* the number lost is less than one step, and the exponent is the smallest that can do it
StepOk(r) == r.lo <= VarMax =>
  LET v == Expand(r.e, r.m) IN
  /\ IF r.up THEN v >= r.hi /\ v - r.lo < 4 ^ r.e ELSE v <= r.lo /\ r.hi - v < 4 ^ r.e
  /\ r.m \in 0..31
  /\ r.e \in 0..7
  /\ r.e > 0 => r.lo > 31 * 4 ^ (r.e - 1)
ExpandOk(r) == \A m \in 0..255 : r.row[m + 1] = IF r.e <= 7 /\ m <= 31 THEN Expand(r.e, m) ELSE -1
ByteOk(r) == r.n = DecVarVal(r.b) /\ r.w = EncVar(r.n) /\ DecVarVal(r.w[1]) = r.n

-----------------------------------------------------------------------------
(* ids *)
NoName == {"Rfu", "D7AalpRfu", "Other", "Unknown"}
Name(r) == IF r.k = "file" THEN FileIdName(r.n) ELSE InterfaceName(r.n)
\* the files that know their own id
OwnIds == [x \in {"FirmwareVersion"} \cup {APNames[i] : i \in 1..15} |->
             IF x = "FirmwareVersion" THEN 2 ELSE 31 + CHOOSE i \in 1..15 : APNames[i] = x]
\* operation and status codes that have a name
OpNames == {<<"NOP", 0>>, <<"READ_FILE_DATA", 1>>, <<"READ_FILE_PROPERTIES", 2>>,
            <<"WRITE_FILE_DATA", 4>>, <<"WRITE_FILE_DATA_FLUSH", 5>>, <<"WRITE_FILE_PROPERTIES", 6>>,
            <<"ACTION_QUERY", 8>>, <<"BREAK_QUERY", 9>>, <<"PERMISSION_REQUEST", 10>>,
            <<"VERIFY_CHECKSUM", 11>>, <<"EXIST_FILE", 16>>, <<"CREATE_NEW_FILE", 17>>,
            <<"DELETE_FILE", 18>>, <<"RESTORE_FILE", 19>>, <<"FLUSH_FILE", 20>>,
            <<"COPY_FILE", 23>>, <<"EXECUTE_FILE", 31>>, <<"RETURN_FILE_DATA", 32>>,
            <<"RETURN_FILE_PROPERTIES", 33>>, <<"STATUS", 34>>, <<"RESPONSE_TAG", 35>>,
            <<"CHUNK", 48>>, <<"LOGIC", 49>>, <<"FORWARD", 50>>,
            <<"INDIRECT_FORWARD", 51>>, <<"REQUEST_TAG", 52>>, <<"EXTENSION", 63>>} \cup (IF Wizzilab THEN {<<"TX_STATUS", 38>>} ELSE {})
StatusNames == {<<"OK", 0>>, <<"RECEIVED", 1>>, <<"ITF_FULL", 2>>,
                <<"FILE_ID_MISSING", 255>>, <<"CREATE_FILE_ID_ALREADY_EXIST", 254>>, <<"FILE_IS_NOT_RESTORABLE", 253>>,
                <<"INSUFFICIENT_PERMISSION", 252>>, <<"CREATE_FILE_LENGTH_OVERFLOW", 251>>, <<"CREATE_FILE_ALLOCATION_OVERFLOW", 250>>,
                <<"WRITE_OFFSET_OVERFLOW", 249>>, <<"WRITE_DATA_OVERFLOW", 248>>, <<"WRITE_STORAGE_UNAVAILABLE", 247>>,
                <<"UNKNOWN_OPERATION", 246>>, <<"OPERATION_INCOMPLETE", 245>>, <<"OPERATION_WRONG_FORMAT", 244>>,
                <<"UNKNOWN_ERROR", 128>>}
Constant == {<<"op", x[1], x[2]>> : x \in OpNames} \cup {<<"status", x[1], x[2]>> : x \in StatusNames}
\* a status is an error from 128 up
CodeOk(r) == /\ <<r.k, r.name, r.n>> \in Constant
             /\ r.bytes = <<r.n>>
             /\ r.number = IF r.k = "status" /\ r.n >= 128 THEN 1 ELSE 0
IdVerdict(r) == IF r.k \in {"op", "status"} THEN (IF CodeOk(r) THEN "fine" ELSE "a name stands for another code")
                ELSE IF r.k = "own" THEN
                  (IF r.n # OwnIds[r.name] THEN "wrong file id"
                   ELSE IF r.number # (IF r.name = "FirmwareVersion" THEN -1 ELSE r.n - 32) THEN "wrong specifier" ELSE "fine")
                ELSE IF r.name # Name(r) THEN "wrong name"
                ELSE IF r.number = r.n /\ r.bytes = <<r.n>> THEN "fine"
                ELSE IF r.number = -1 /\ r.bytes = <<>> /\ r.name \in NoName THEN "K2"
                ELSE "does not come back"

Verdict(r) ==
  CASE Which = "lengths" -> IF RunOk(r) THEN "fine" ELSE "lengths are not encoded as defined"
    [] Which = "ids" -> IdVerdict(r)
    [] OTHER ->
       CASE r.k = "compress" -> IF CompressOk(r) /\ StepOk(r) THEN "fine" ELSE "not compressed as defined"
         [] r.k = "beyond" -> IF r.accepted = 0 THEN "fine" ELSE "values beyond the maximum are accepted"
         [] r.k = "expand" -> IF ExpandOk(r) THEN "fine" ELSE "not expanded as defined"
         [] r.k = "byte" -> IF ByteOk(r) THEN "fine" ELSE "byte does not come back"
Judged == LET v == Verdict(Row) IN v = "fine" \/ Emit([line |-> at, why |-> v])
\* nothing is missing from the tables
Whole ==
  CASE Which = "lengths" -> Covered \/ at # 1 \/ Emit([line |-> at, why |-> "lengths are missing"])
    [] Which = "ids" -> /\ \A x \in DOMAIN OwnIds : at # 1 \/ \E i \in 1..Len(Rows) : Rows[i].k = "own" /\ Rows[i].name = x
                        /\ \A x \in Constant : at # 1 \/ \E i \in 1..Len(Rows) : Rows[i].k = x[1] /\ Rows[i].name = x[2]
                        /\ \A k \in {"file", "interface"}, n \in 0..255 : at # 1 \/ \E i \in 1..Len(Rows) : Rows[i].k = k /\ Rows[i].n = n
    [] OTHER -> at # 1 \/
         (/\ {Rows[i].e : i \in {j \in 1..Len(Rows) : Rows[j].k = "expand"}} = 0..255
          /\ {Rows[i].b : i \in {j \in 1..Len(Rows) : Rows[j].k = "byte"}} = 0..255
          /\ \A up \in BOOLEAN :
               LET rs == {i \in 1..Len(Rows) : Rows[i].k = "compress" /\ Rows[i].up = up} IN
               /\ \E i \in rs : Rows[i].lo = 0
               /\ \E i \in rs : Rows[i].hi = 599999
               /\ \A i \in rs : Rows[i].hi < 599999 => i + 1 \in rs /\ Rows[i + 1].lo = Rows[i].hi + 1)
=============================================================================
