------------------------------ MODULE Catalogue -----------------------------
(***************************************************************************)
(* Every kind of item by name, with its variants: generation, encoding and *)
(* decoding of the items the machines below exchange.                      *)
(***************************************************************************)
EXTENDS Loose, Json

NodeOf(t) ==
  CASE t = "Action" -> Action
    [] t = "InterfaceConfiguration" -> InterfaceConfiguration
    [] t = "Dash7Config" -> Dash7Config
    [] t = "LoRaWanABP" -> LoRaWanABP
    [] t = "LoRaWanOTAA" -> LoRaWanOTAA
    [] t = "IndirectInterface" -> IndirectInterface
    [] t = "Addressee" -> Addressee
    [] t = "QoS" -> QoS
    [] t = "Dash7Status" -> Dash7Status
    [] t = "InterfaceStatus" -> InterfaceStatus
    [] t = "FinalStatus" -> FinalStatus
    [] t = "Query" -> Query
    [] t = "FileOffset" -> FileOffset
    [] t = "Length" -> LenT
    [] t = "VarInt" -> VarT
    [] t = "FileHeader" -> FileHeader
    [] t = "Channel" -> Channel
    [] t = "ChannelHeader" -> ChannelHeader
    [] t = "ChannelStatus" -> ChannelStatus
    [] t = "SubBand" -> SubBand
    [] t = "SubProfile" -> SubProfile
    [] t = "AccessClass" -> AccessClass
    [] t = "AccessProfile" -> AccessProfile
    [] t = "FactorySettings" -> FactorySettings
    [] t = "FirmwareVersion" -> FirmwareVersion
    [] t = "EngineeringMode" -> EngineeringMode
    [] t = "PhyStatus" -> PhyStatus
    [] t = "DllConfig" -> DllConfig
    [] t = "DllStatus" -> DllStatus
    [] t = "SecurityKey" -> SecurityKey
    [] t = "BackgroundFrame" -> BackgroundFrame
    [] t = "ForegroundFrame" -> ForegroundFrame
    [] t = "NetworkFrame" -> NetworkFrame
    [] t = "TransportFrame" -> TransportFrame
    [] t = "LoRaWanBase" -> LoRaWanBase
    [] t = "TxStatus" -> TxStatus
    [] t = "FinalCode" -> Enum8(FinalCode)
    [] t = "FilePermissions" -> FilePermissions
    [] t = "PropertyByte" -> PropertyByte
    [] t = "ActionStatus" -> ActionStatus
    [] t = "Permission" -> Permission
    [] t = "PermissionLevel" -> PermissionLevel
    [] t = "EngineeringMethod" -> EngineeringMethod
    [] t = "TransportControl" -> TransportControl
    [] t = "AckTemplate" -> AckTemplate
    [] t = "NetworkControl" -> NetworkControl
    [] t = "HoppingControl" -> HoppingControl
    [] t = "BackgroundControl" -> BackgroundControl
    [] t = "ForegroundControl" -> ForegroundControl

\* files without a structure of their own, to stand for the rest
PlainFids == <<3, 4, 7, 8, 12, 13, 15, 16, 17, 18, 19, 20, 23, 24, 26, 29, 47, 64, 255>>
FileIds == StructFids \o PlainFids

Variants(t) == CASE t = "Action" -> Len(ActionCases)
                 [] t = "Query" -> Len(Query.cs)
                 [] t = "File" -> Len(FileIds)
                 [] t = "InterfaceConfiguration" -> Len(InterfaceConfiguration.cs) + 1
                 [] t = "IndirectInterface" -> Len(IndirectInterface.cs) + 1
                 [] OTHER -> 1

\* the file id of a variant, 0 for items that are no file
IdOf(t, x) == IF t = "File" THEN FileIds[x] ELSE 0

GenUnion(u, x, s) == IF x > Len(u.cs) THEN <<u.other, LET z == 4 + Rnd(Mix(s, 45), 252)
                                                      IN IF z \in DOMAIN u.ci THEN 4 ELSE z>>
                     ELSE GenCase(u.cs, x, s)

GenItem(t, x, s) ==
  CASE t = "Action" -> GenCase(ActionCases, x, s)
    [] t = "Query" -> GenCase(Query.cs, x, s)
    [] t = "File" -> IF FileIds[x] \in DOMAIN FileCI THEN GenCase(FileCases, FileCI[FileIds[x]], s)
                     ELSE <<"Other", GenBytes(Mix(s, 31), GenCnt(Mix(s, 32)))>>
    [] t = "InterfaceConfiguration" -> GenUnion(InterfaceConfiguration, x, s)
    [] t = "IndirectInterface" -> GenUnion(IndirectInterface, x, s)
    [] t = "ForegroundFrame" -> GenForeground(s)
    [] t = "Command" -> GenActions(s, Rnd(Mix(s, 43), 6), <<>>)
    [] OTHER -> Gen(NodeOf(t), s, <<>>)

EncItem(t, v) == CASE t = "File" -> EncFile(v)
                   [] t = "Command" -> EncCommand(v)
                   [] OTHER -> Enc(NodeOf(t), v, v)
LooseItem(t, v, s) == CASE t = "File" -> IF v[1] = "Other" THEN v[2]
                                         ELSE EncL(FileCases[FileNI[v[1]]][3], v[2], v, s)
                        [] t = "Command" -> EncLSeq(Action, v, s, 1)
                        [] OTHER -> EncL(NodeOf(t), v, v, s)
DecFile(id, b) == IF id \in DOMAIN FileCI
                  THEN LET c == FileCases[FileCI[id]]
                           d == Dec(c[3], b, 0, Len(b), <<>>, -1)
                       IN IF IsOk(d) THEN Ok(<<c[2], d[2]>>, d[3]) ELSE d
                  ELSE Ok(<<"Other", b>>, Len(b))
DecItem(t, id, b) == CASE t = "File" -> DecFile(id, b)
                       [] t = "Command" -> DecCommand(b)
                       [] OTHER -> Decode(NodeOf(t), b)

\* items that go on to the end of their input
Greedy(t, id) == t \in {"Command", "NetworkFrame", "TransportFrame"} \/ (t = "File" /\ id \notin DOMAIN FileCI)

-----------------------------------------------------------------------------
(* A known deviation of the implementation: the id byte of an interface without a name is missing from the
   encoding of its status.  KnownItem is the encoding with that deviation. *)
StrangeId(i) == InterfaceName(i) = "Unknown"
StrangeStatus(a) == a[1] = "Status" /\ a[2].status_type = "Interface" /\ StrangeId(a[2].status.interface_type)
Drop2(b) == <<b[1]>> \o SubSeq(b, 3, Len(b))
KnownAction(a) == LET b == Enc(Action, a, a) IN IF StrangeStatus(a) THEN Drop2(b) ELSE b
RECURSIVE KnownFrom(_, _)
KnownFrom(as, i) == IF i > Len(as) THEN <<>> ELSE KnownAction(as[i]) \o KnownFrom(as, i + 1)
KnownCommand(as) == KnownFrom(as, 1)
KnownIn == {"Action", "Command", "InterfaceStatus", "TransportFrame", "NetworkFrame", "ForegroundFrame"}
KnownItem(t, v) ==
  CASE t = "Action" -> KnownAction(v)
    [] t = "Command" -> KnownCommand(v)
    [] t = "InterfaceStatus" -> IF StrangeId(v.interface_type) THEN Tail(EncItem(t, v)) ELSE EncItem(t, v)
    [] t = "TransportFrame" -> EncItem(t, [v EXCEPT !.command = <<>>]) \o KnownCommand(v.command)
    [] t = "NetworkFrame" -> EncItem(t, [v EXCEPT !.frame.command = <<>>]) \o KnownCommand(v.frame.command)
    [] t = "ForegroundFrame" -> LET e == EncItem(t, [v EXCEPT !.frame.frame.command = <<>>])
                                IN SubSeq(e, 1, Len(e) - 2) \o KnownCommand(v.frame.frame.command)
                                   \o SubSeq(e, Len(e) - 1, Len(e))
    [] OTHER -> EncItem(t, v)

\* lengths of all there is with an item at its front: about powers of two, or so much behind the item
Totals(n, s) ==
  LET one(k) == LET p == 2 ^ (8 + Rnd(Mix(s, 3 * k), 9)) - 2 + Rnd(Mix(s, 3 * k + 1), 4)
                IN IF Rnd(Mix(s, 3 * k + 2), 3) = 0 THEN n + p ELSE Max(n + 1, p)
  IN <<one(1), one(2), one(3)>>

Emit(rec) == PrintT(ToJson(rec))
=============================================================================
