------------------------------ MODULE Contents ------------------------------
(***************************************************************************)
(* Length-delimited operands whose declared length and contents may        *)
(* disagree: file contents in data actions and the statuses of interfaces. *)
(* The declared length alone decides what belongs to the operand.          *)
(***************************************************************************)
EXTENDS Catalogue

CONSTANTS N, Seed

VARIABLES phase, job, op, declared, wire, behind, got
vars == <<phase, job, op, declared, wire, behind, got>>

DataOps == {"WriteFileData", "WriteFileDataFlush", "ReturnFileData"}
Jobs == ({"data", "foreign"} \X (1..Len(FileIds)) \X (1..N))
        \cup ({"status"} \X {0, 1, 2, 3, 4, 215} \X (1..N))
        \cup (IF Wizzilab THEN {"final", "tx"} \X {0, 4, 215} \X (1..N) ELSE {})
JSeed == Mix(Mix(Seed * 61 + job[3], job[2]), 10)

OpOf == CHOOSE o \in DataOps : LET k == Rnd(JSeed, 3) IN
          o = (CASE k = 0 -> "WriteFileData" [] k = 1 -> "WriteFileDataFlush" [] OTHER -> "ReturnFileData")
Code(name) == ActionCases[CHOOSE i \in 1..Len(ActionCases) : ActionCases[i][2] = name][1]

Init == /\ phase = "idle" /\ job \in Jobs /\ op = <<>>
        /\ declared = -1 /\ wire = <<>> /\ behind = <<>> /\ got = <<>>

FileVal == GenItem("File", job[2], JSeed)
\* the operand as it is on the wire, without its length
Operand ==
  CASE job[1] \in {"data", "foreign"} -> EncFile(FileVal)
    [] job[1] = "status" -> IF job[2] = 215 THEN Enc(Dash7Status, Gen(Dash7Status, JSeed, <<>>), <<>>)
                            ELSE IF job[2] = 4 THEN GenBytes(JSeed, 3) ELSE <<>>
    [] job[1] = "final" -> IF job[2] = 215 THEN <<FinalCode[1 + Rnd(JSeed, Len(FinalCode))][1]>> ELSE GenBytes(JSeed, 4)
    [] OTHER -> IF job[2] = 215 THEN LET v == Gen(Dash7TxStatus, JSeed, <<>>) IN Enc(Dash7TxStatus, v, v) ELSE GenBytes(JSeed, 4)
Front ==
  CASE job[1] = "data" -> <<64 + Code(OpOf), FileIds[job[2]]>> \o EncLen(Leaf(Mix(JSeed, 2), 200))
    [] job[1] = "status" -> <<64 + 34, job[2]>>
    [] job[1] = "final" -> <<128 + 34, job[2]>>
    [] OTHER -> <<64 + 38, job[2]>>

\* more bytes than declared, fewer, or as many; the next action follows what is declared
Pads == << <<>>, <<0>>, <<32>>, <<35, 7>>, <<0, 0, 0>> >>
Make == /\ phase = "idle" /\ op' = Operand /\ phase' = "made"
        /\ UNCHANGED <<job, declared, wire, behind, got>>
Send == /\ phase = "made" /\ job[1] # "foreign"
        /\ \E cut \in {0, 1, 2, 5, 1000}, pad \in 1..Len(Pads) :
             /\ cut > 0 => pad = 1
             /\ LET body == SubSeq(op, 1, Len(op) - Min(cut, Len(op))) \o Pads[pad]
                    next == Enc(Action, GenCase(ActionCases, 1, JSeed), <<>>)
                IN /\ declared' = Len(body)
                   /\ behind' = next
                   /\ wire' = Front \o EncLenAs(Len(body), LenExtra(Len(body)) + (IF Rnd(Mix(JSeed, cut + pad), 4) = 0 THEN 1 ELSE 0)) \o body \o next
        /\ phase' = "sent" /\ UNCHANGED <<job, op, got>>

\* contents of one file put into another, or bytes that happen to be a system file: written as they are
Others == {FileIds[1 + Rnd(Mix(JSeed, 70 + i), Len(FileIds))] : i \in 1..4} \cup {FileIds[job[2]], 64}
Action1(id, v) == <<OpOf, [group |-> FALSE, response |-> TRUE, offset |-> [file_id |-> id, offset |-> Leaf(Mix(JSeed, 2), 200)],
                           data |-> v]>>
SendForeign ==
  /\ phase = "made" /\ job[1] = "foreign"
  /\ \E id \in Others : \E v \in {FileVal, <<"Other", op>>} :
       /\ declared' = Len(op) /\ behind' = <<>>
       /\ wire' = Enc(Action, Action1(id, v), <<>>)
       /\ Emit([k |-> "enc", t |-> "Action", v |-> Action1(id, v), b |-> wire'])
  /\ phase' = "sent" /\ UNCHANGED <<job, op, got>>

\* contents on their own, in front of something else: as many bytes as there should be
Part(id, b, n) == IF id \in DOMAIN FileCI THEN DecFile(id, b)
                  ELSE IF n > Len(b) THEN Inc ELSE Ok(<<"Other", SubSeq(b, 1, n)>>, n)
Take == /\ phase = "made" /\ job[1] = "data"
        /\ LET id == FileIds[job[2]] IN
           \E n \in (IF id \in DOMAIN FileCI THEN {Len(op)} ELSE 0..(Len(op) + 2)), pad \in 1..Len(Pads) :
             /\ declared' = n
             /\ wire' = op \o Pads[pad] /\ behind' = SubSeq(wire', n + 1, Len(wire'))
             /\ got' = Part(id, wire', n)
        /\ phase' = "taken" /\ UNCHANGED <<job, op>>

Receive == /\ phase = "sent" /\ got' = DecCommand(wire) /\ phase' = "received"
           /\ UNCHANGED <<job, op, declared, wire, behind>>

Next == Make \/ Send \/ SendForeign \/ Take \/ Receive

-----------------------------------------------------------------------------
Data1 == got[2][1][2].data
\* file contents are carried whatever they are, and the next action is read behind them
Carried == (phase = "received" /\ job[1] = "data") =>
  /\ IsOk(got) /\ got[3] = Len(wire) /\ Len(got[2]) = 2
  /\ got[2][2][1] = "Nop"
  /\ Len(EncFile(Data1)) = declared \/ Data1[1] # "Other"
\* who reads contents that are in the wrong place sees the bytes the writer put there
Verbatim == (phase = "received" /\ job[1] = "foreign") =>
  IsOk(got) /\ got[3] = Len(wire) /\ Len(got[2]) = 1 /\ LET e == EncFile(Data1) IN e = op \/ Data1[1] # "Other"
\* they have their structure exactly when they are nothing but it; other operands must be exact
ExactOrRaw == phase = "received" =>
  CASE job[1] \in {"data", "foreign"} ->
         LET id == got[2][1][2].offset.file_id
             body == SubSeq(wire, Len(wire) - Len(behind) - declared + 1, Len(wire) - Len(behind))
             d == DecFile(id, body)
         IN IF id \in DOMAIN FileCI /\ IsOk(d) /\ d[3] = declared THEN Data1 = d[2] ELSE Data1 = <<"Other", body>>
    [] OTHER -> IsOk(got) => got[3] = Len(wire)

\* exactly the announced number is taken, what follows stays
Parted == (phase = "taken" /\ IsOk(got)) =>
  /\ got[3] = declared /\ EncFile(got[2]) \o behind = wire
EmitTaken == Emit([k |-> "part", id |-> FileIds[job[2]], len |-> declared, in |-> wire,
                   r |-> got[1], v |-> IF IsOk(got) THEN got[2] ELSE <<>>])

EmitReceived == IF IsOk(got) THEN Emit([k |-> "dec", t |-> "Command", id |-> 0, in |-> wire, r |-> "ok", n |-> got[3], v |-> got[2]])
                ELSE Emit([k |-> "dec", t |-> "Command", id |-> 0, in |-> wire, r |-> got[1]])
Emitted == /\ phase = "taken" => EmitTaken
           /\ phase = "received" => EmitReceived
=============================================================================
