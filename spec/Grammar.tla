------------------------------ MODULE Grammar -------------------------------
(***************************************************************************)
(* The wire format of every DASH7 item this library reads and writes, as   *)
(* data.  Module Codec gives the meaning of the node kinds.  One table for *)
(* all protocol flavours; Flavour decides the few places they differ in.   *)
(***************************************************************************)
EXTENDS Wire

CONSTANT Flavour          \* "spec", "subiot", "subiot_v0_0" or "wizzilab"

Wizzilab == Flavour = "wizzilab"
SubIot == Flavour \in {"subiot", "subiot_v0_0"}
StatusHasLength == Flavour # "subiot_v0_0"

-----------------------------------------------------------------------------
(* node constructors *)

U8 == [k |-> "u8"]
Fid == [k |-> "fid"]                              \* u8 that is a file id
I8 == [k |-> "i8"]
U16 == [k |-> "u16"]                              \* big endian
U16LE == [k |-> "u16le"]
Wide(n) == [k |-> "be", n |-> n]                  \* big-endian number or raw bytes
WideLE(n) == [k |-> "le", n |-> n]
Str(n) == [k |-> "str", n |-> n]
LenT == [k |-> "len"]
Cnt == [k |-> "cnt"]                              \* a length that counts bytes that follow
Cnt8 == [k |-> "cnt8"]
VarT == [k |-> "var"]
Empty == [k |-> "empty"]
Rest == [k |-> "rest"]                            \* what remains of the enclosing region
Never == [k |-> "never"]                          \* defined nowhere: no encoding

Codes(t) == {t[i][1] : i \in 1..Len(t)}
Names(t) == {t[i][2] : i \in 1..Len(t)}
Enum(t) == [c2n |-> [c \in Codes(t) |-> t[CHOOSE i \in 1..Len(t) : t[i][1] = c][2]],
            n2c |-> [m \in Names(t) |-> t[CHOOSE i \in 1..Len(t) : t[i][2] = m][1]],
            seq |-> t]
NoEnum == Enum(<<>>)

\* bit fields <<name, width, kind, enum or constant>>, first field in the most
\* significant bits; together a whole number of bytes
Flag(n) == <<n, 1, "bool", 0>>
Uint(n, w) == <<n, w, "uint", 0>>
Pad(w) == <<"", w, "pad", 0>>
Const(w, c) == <<"", w, "const", c>>
Coded(n, w, e) == <<n, w, "enum", e>>
RECURSIVE WidthFrom(_, _)
WidthFrom(f, i) == IF i > Len(f) THEN 0 ELSE f[i][2] + WidthFrom(f, i + 1)
Bits(f) == <<"", [k |-> "bits", n |-> WidthFrom(f, 1) \div 8,
                  f |-> [i \in 1..Len(f) |-> [name |-> f[i][1], w |-> f[i][2], kind |-> f[i][3],
                                              e |-> f[i][4], sh |-> WidthFrom(f, i + 1)]]]>>

\* fields in order: <<name, node>>, or Bits(..) whose fields join the record
Struct(f) == [k |-> "struct", f |-> f]
Opt(c, t) == [k |-> "opt", c |-> c, t |-> t]              \* present iff all flags in c
Sel(by, cs) == [k |-> "sel", by |-> by, cs |-> cs, other |-> Never]
SelOr(by, cs, o) == [k |-> "sel", by |-> by, cs |-> cs, other |-> o]
Counted(by) == [k |-> "counted", by |-> by]              \* bytes, as many as field `by'
ListOf(by, t) == [k |-> "list", by |-> by, t |-> t]
Rep(n, t) == [k |-> "rep", n |-> n, t |-> t]
Region(t) == [k |-> "region", t |-> t]                    \* Length, then exactly that many bytes
FileRegion(by) == [k |-> "file", by |-> by]               \* Length, then file contents
Bounded(by, t) == [k |-> "bounded", by |-> by, t |-> t]   \* commands in t stop at frame offset `by'
CommandT == [k |-> "command"]

\* unions: cases <<code, name, node>>; the code is a byte of its own (Union) or
\* some bits of the first byte of the case, which are peeked at (Peek)
CaseIdx(cs) == [c \in Codes(cs) |-> CHOOSE i \in 1..Len(cs) : cs[i][1] = c]
NameIdx(cs) == [m \in Names(cs) |-> CHOOSE i \in 1..Len(cs) : cs[i][2] = m]
Union(cs, o) == [k |-> "union", cs |-> cs, ci |-> CaseIdx(cs), ni |-> NameIdx(cs), other |-> o]
Peek(d, m, cs) == [k |-> "peek", d |-> d, m |-> m, cs |-> cs, ci |-> CaseIdx(cs), ni |-> NameIdx(cs)]
Enum8(t) == [k |-> "enum8", e |-> Enum(t)]

-----------------------------------------------------------------------------
(* shared pieces *)

FileOffset == Struct(<< <<"file_id", Fid>>, <<"offset", LenT>> >>)

AccessClass == Struct(<< Bits(<<Uint("specifier", 4), Uint("mask", 4)>>) >>)

ChannelBand == Enum(<< <<0, "Rfu0">>, <<1, "Rfu1">>, <<2, "Band433">>, <<3, "Band868">>, <<4, "Band915">> >>)
ChannelClass == Enum(<< <<0, "LoRate">>, <<1, "Lora">>, <<2, "NormalRate">>, <<3, "HiRate">> >>)
ChannelCoding == Enum(<< <<0, "Pn9">>, <<1, "Rfu">>, <<2, "FecPn9">>, <<3, "Cw">> >>)
Bandwidth == Enum(<< <<0, "KHz200">>, <<1, "KHz25">> >>)

ChannelHeader == Struct(<< Bits(<<Pad(1), Coded("channel_band", 3, ChannelBand),
                                  Coded("channel_class", 2, ChannelClass),
                                  Coded("channel_coding", 2, ChannelCoding)>>) >>)
Channel == Struct(<< <<"header", ChannelHeader>>, <<"index", U16>> >>)
ChannelStatus == Struct(<< Bits(<<Coded("channel_band", 3, ChannelBand), Coded("bandwidth", 2, Bandwidth),
                                  Uint("index", 11)>>),
                           <<"noise_floor", U8>> >>)

ActionCondition == Enum(<< <<0, "List">>, <<1, "Read">>, <<2, "Write">>, <<3, "WriteFlush">> >>)
StorageClass == Enum(<< <<0, "Transient">>, <<1, "Volatile">>, <<2, "Restorable">>, <<3, "Permanent">> >>)

PermissionBits == Bits(<<Flag("encrypted"), Flag("executable"),
         Flag("user_read"), Flag("user_write"), Flag("user_executable"),
         Flag("guest_read"), Flag("guest_write"), Flag("guest_executable")>>)
PropertyBits == Bits(<<Flag("enabled"), Coded("condition", 3, ActionCondition), Pad(2),
         Coded("storage_class", 2, StorageClass)>>)
FilePermissions == Struct(<<PermissionBits>>)
PropertyByte == Struct(<<PropertyBits>>)
FileHeader == Struct(<<
  PermissionBits, PropertyBits,
  <<"alp_command_file_id", U8>>, <<"interface_file_id", U8>>,
  <<"file_size", Wide(4)>>, <<"allocated_size", Wide(4)>> >>)

-----------------------------------------------------------------------------
(* addresses *)

AddressType == Enum(<< <<0, "NbId">>, <<1, "NoId">>, <<2, "UId">>, <<3, "VId">> >>)
NlsMethod == Enum(<< <<0, "None">>, <<1, "AesCtr">>, <<2, "AesCbcMac128">>, <<3, "AesCbcMac64">>,
                     <<4, "AesCbcMac32">>, <<5, "AesCcm128">>, <<6, "AesCcm64">>, <<7, "AesCcm32">> >>)
GroupCondition == Enum(<< <<0, "Any">>, <<1, "NotEqual">>, <<2, "Equal">>, <<3, "GreaterThan">> >>)

Address(by) == Sel(by, << <<"NbId", VarT>>, <<"NoId", Empty>>, <<"UId", Wide(8)>>, <<"VId", Wide(2)>> >>)
NlsState(by) == SelOr(by, << <<"None", Empty>> >>, Wide(5))

Addressee == Struct(<<
  IF Wizzilab
  THEN Bits(<<Coded("group_condition", 2, GroupCondition), Coded("address_type", 2, AddressType),
              Flag("use_vid"), Coded("nls_method", 3, NlsMethod)>>)
  ELSE Bits(<<Pad(2), Coded("address_type", 2, AddressType), Coded("nls_method", 4, NlsMethod)>>),
  <<"access_class", AccessClass>>,
  <<"address", Address(<<"address_type">>)>>,
  <<"nls_state", NlsState(<<"nls_method">>)>> >>)

-----------------------------------------------------------------------------
(* interfaces *)

RetryMode == Enum(<< <<0, "No">>, <<1, "OneshotRetry">>, <<2, "FifoFast">>, <<3, "FifoSlow">>,
                     <<4, "SingleFast">>, <<5, "SingleSlow">>, <<6, "OneshotSticky">>, <<7, "Rfu">> >>)
ResponseMode == Enum(<< <<0, "No">>, <<1, "All">>, <<2, "Any">>, <<4, "NoRepeat">>, <<5, "OnError">>,
                        <<6, "Preferred">> >>)
QoS == Struct(<< Bits(<<Flag("stop_on_error"), Flag("record"), Coded("retry_mode", 3, RetryMode),
                        Coded("response_mode", 3, ResponseMode)>>) >>)

Dash7Config == Struct(
  << <<"qos", QoS>>, <<"dormant_session_timeout", VarT>> >>
  \o (IF SubIot THEN <<>> ELSE << <<"execution_delay_timeout", VarT>> >>)
  \o << <<"addressee", Addressee>> >>)

LoRaWanBase == Struct(<< Bits(<<Pad(5), Flag("adr_enabled"), Flag("request_ack"), Pad(1)>>),
                         <<"application_port", U8>>, <<"data_rate", U8>> >>)
LoRaWanABP == Struct(<< <<"base", LoRaWanBase>>, <<"network_session_key", Wide(16)>>,
                        <<"app_session_key", Wide(16)>>, <<"device_address", WideLE(4)>>,
                        <<"network_id", WideLE(4)>> >>)
LoRaWanOTAA == Struct(<< <<"base", LoRaWanBase>>, <<"device_eui", Wide(8)>>, <<"app_eui", Wide(8)>>,
                         <<"app_key", Wide(16)>> >>)

InterfaceConfiguration == Union(<< <<0, "Host", Empty>>, <<1, "Serial", Empty>>,
                                   <<2, "LoRaWanABP", LoRaWanABP>>, <<3, "LoRaWanOTAA", LoRaWanOTAA>>,
                                   <<215, "Dash7", Dash7Config>> >>, "Unknown")
IndirectInterface == Union(<< <<0, "Host", Empty>>, <<1, "Serial", Empty>>, <<215, "Dash7", Addressee>> >>,
                           "Unknown")

Dash7Status == Struct(<<
  <<"channel", Channel>>, <<"rx_level", U8>>, <<"link_budget", U8>>, <<"target_rx_level", U8>>,
  Bits(<<Flag("nls"), Flag("missed"), Flag("retry"), Flag("unicast"), Pad(4)>>),
  <<"fifo_token", U8>>, <<"sequence_number", U8>>, <<"response_timeout", VarT>>,
  <<"addressee", Addressee>> >>)

InterfaceStatusBody == SelOr(<<"interface_type">>,
  << <<0, Empty>>, <<1, Empty>>, <<2, Never>>, <<3, Never>>, <<215, Dash7Status>> >>,
  IF StatusHasLength THEN Rest ELSE Empty)
InterfaceStatus == Struct(<< <<"interface_type", [k |-> "ifid"]>>,
                             <<"status", IF StatusHasLength THEN Region(InterfaceStatusBody)
                                         ELSE InterfaceStatusBody>> >>)

FinalCode == << <<0, "No">>, <<255, "Busy">>, <<254, "BadParam">>, <<253, "DutyCycle">>, <<252, "CcaTo">>,
  <<251, "NlsKey">>, <<250, "TxUdf">>, <<249, "RxOvf">>, <<248, "RxCrc">>, <<247, "Abort">>,
  <<246, "NoAck">>, <<245, "RxTo">>, <<244, "NotSupportedBand">>, <<243, "NotSupportedChannel">>,
  <<242, "NotSupportedModulation">>, <<241, "VoidChannelList">>, <<240, "NotSupportedLen">>,
  <<239, "ParamOvf">>, <<238, "VidWoNls">>, <<237, "TxSched">>, <<236, "RxSched">>,
  <<235, "BufferOvf">>, <<234, "NotSupportedMode">> >>

FinalStatus == Struct(<< <<"interface_id", [k |-> "ifid"]>>,
  <<"status", Region(SelOr(<<"interface_id">>, << <<215, Enum8(FinalCode)>> >>, Rest))>> >>)

Dash7TxStatus == Struct(<< <<"channel", Channel>>, <<"target_rx_level", I8>>, <<"error", Enum8(FinalCode)>>,
                           Bits(<<Pad(24)>>), <<"lts", WideLE(4)>>, <<"addressee", Addressee>> >>)
TxStatus == Struct(<< <<"interface_id", [k |-> "ifid"]>>,
  <<"status", Region(SelOr(<<"interface_id">>, << <<215, Dash7TxStatus>> >>, Rest))>> >>)

-----------------------------------------------------------------------------
(* queries *)

Arith == Enum(<< <<0, "Inequal">>, <<1, "Equal">>, <<2, "LessThan">>, <<3, "LessThanOrEqual">>,
                 <<4, "GreaterThan">>, <<5, "GreaterThanOrEqual">> >>)
RangeCmp == Enum(<< <<0, "NotInRange">>, <<1, "InRange">> >>)

MaskByte(c, e) == Bits(<<Const(3, c), Flag("mask_present"), Flag("signed"), Coded("comparison_type", 3, e)>>)
MaskOpt == <<"mask", Opt(<< <<"mask_present">> >>, Counted(<<"length">>))>>

Query == Peek(32, 8, <<
  <<0, "NonVoid", Struct(<< Bits(<<Const(3, 0), Pad(5)>>), <<"length", LenT>>, <<"file", FileOffset>> >>)>>,
  <<1, "ComparisonWithZero", Struct(<< MaskByte(1, Arith), <<"length", Cnt>>, MaskOpt,
        <<"file", FileOffset>> >>)>>,
  <<2, "ComparisonWithValue", Struct(<< MaskByte(2, Arith), <<"length", Cnt>>, MaskOpt,
        <<"value", Counted(<<"length">>)>>, <<"file", FileOffset>> >>)>>,
  <<3, "ComparisonWithOtherFile", Struct(<< MaskByte(3, Arith), <<"length", Cnt>>, MaskOpt,
        <<"file1", FileOffset>>, <<"file2", FileOffset>> >>)>>,
  <<4, "BitmapRangeComparison", Struct(<< MaskByte(4, RangeCmp), <<"length", Cnt>>, <<"start", LenT>>,
        <<"stop", LenT>>, <<"mask", Counted(<<"length">>)>>, <<"file", FileOffset>> >>)>>,
  <<7, "StringTokenSearch", Struct(<< Bits(<<Const(3, 7), Flag("mask_present"), Pad(1), Uint("max_errors", 3)>>),
        <<"length", Cnt>>, MaskOpt, <<"value", Counted(<<"length">>)>>, <<"file", FileOffset>> >>)>>
  >>)

-----------------------------------------------------------------------------
(* system files *)

SubProfile == Struct(<< <<"subband_bitmap", U8>>, <<"scan_automation_period", VarT>> >>)
SubBand == Struct(<< <<"channel_index_start", U16>>, <<"channel_index_end", U16>>, <<"eirp", I8>>,
                     <<"clear_channel_assessment", U8>>, <<"duty", U8>> >>)
AccessProfile == Struct(<< <<"channel_header", ChannelHeader>>, <<"sub_profiles", Rep(4, SubProfile)>>,
                           <<"sub_bands", Rep(8, SubBand)>> >>)

Fields(ns, t) == [i \in 1..Len(ns) |-> <<ns[i], t>>]
FactorySettings == Struct(
  << <<"gain", I8>> >>
  \o Fields(<<"rx_bw_low_rate", "rx_bw_normal_rate", "rx_bw_high_rate", "bitrate_lo_rate", "fdev_lo_rate",
              "bitrate_normal_rate", "fdev_normal_rate", "bitrate_hi_rate", "fdev_hi_rate">>, Wide(4))
  \o Fields(<<"preamble_size_lo_rate", "preamble_size_normal_rate", "preamble_size_hi_rate",
              "preamble_detector_size_lo_rate", "preamble_detector_size_normal_rate",
              "preamble_detector_size_hi_rate", "preamble_tol_lo_rate", "preamble_tol_normal_rate",
              "preamble_tol_hi_rate", "rssi_smoothing", "rssi_offset">>, U8)
  \o << <<"lora_bw", Wide(4)>>, <<"lora_sf", U8>>, <<"gaussian", U8>>, <<"paramp", U16>> >>)
FirmwareVersion == Struct(<< <<"major", U8>>, <<"minor", U8>>, <<"application_name", Str(6)>>,
                             <<"git_sha1", Str(7)>> >>)
EngineeringMethod == Enum8(<< <<0, "Off">>, <<1, "ContTx">>, <<2, "TransientTx">>, <<3, "PerRx">>, <<4, "PerTx">> >>)
EngineeringMode == Struct(<< <<"mode", EngineeringMethod>>,
                             <<"flags", U8>>, <<"timeout", U8>>, <<"channel", Channel>>, <<"eirp", I8>> >>)
PhyStatus == Struct(<< <<"up_time", Wide(4)>>, <<"rx_time", Wide(4)>>, <<"tx_time", Wide(4)>>,
                       <<"tx_duty_cycle", U16>>, <<"channel_status_list_length", Cnt8>>,
                       <<"channel_status", ListOf(<<"channel_status_list_length">>, ChannelStatus)>> >>)
DllConfig == Struct(<< <<"ac", U8>>, Bits(<<Pad(16)>>), <<"lq_filter", U8>>, <<"nf_ctrl", U8>>,
                       <<"rx_nf_method_parameter", U8>>, <<"tx_nf_method_parameter", U8>> >>)
DllStatus == Struct(<< <<"last_rx_packet_level", U8>>, <<"last_rx_packet_link_budget", U8>>,
                       <<"noise_floor", U8>>, <<"channel_header", ChannelHeader>>, <<"channel_index", U16>>,
                       <<"scan_timeout_ratio", U16>>, <<"scan_count", Wide(4)>>,
                       <<"scan_timeout_count", Wide(4)>> >>)
SecurityKey == Struct(<< <<"key", WideLE(16)>> >>)

APNames == <<"AccessProfile00", "AccessProfile01", "AccessProfile02", "AccessProfile03", "AccessProfile04",
             "AccessProfile05", "AccessProfile06", "AccessProfile07", "AccessProfile08", "AccessProfile09",
             "AccessProfile10", "AccessProfile11", "AccessProfile12", "AccessProfile13", "AccessProfile14">>
FileCases == << <<0, "UId", Wide(8)>>, <<1, "FactorySettings", FactorySettings>>,
                <<2, "FirmwareVersion", FirmwareVersion>>, <<5, "EngineeringMode", EngineeringMode>>,
                <<6, "VId", Wide(2)>>, <<9, "PhyStatus", PhyStatus>>, <<10, "DllConfig", DllConfig>>,
                <<11, "DllStatus", DllStatus>>, <<14, "NwlSecurityKey", SecurityKey>> >>
             \o [i \in 1..15 |-> <<31 + i, APNames[i], AccessProfile>>]
FileCI == CaseIdx(FileCases)
FileNI == NameIdx(FileCases)

\* names of the file ids; ranges without a name of their own share one
FileIdName(c) ==
  CASE c = 0 -> "UId" [] c = 1 -> "FactorySettings" [] c = 2 -> "FirmwareVersion" [] c = 3 -> "DeviceCapacity"
    [] c = 4 -> "DeviceStatus" [] c = 5 -> "EngineeringMode" [] c = 6 -> "VId" [] c = 8 -> "PhyConfig"
    [] c = 9 -> "PhyStatus" [] c = 10 -> "DllConfig" [] c = 11 -> "DllStatus" [] c = 12 -> "NetworkRouting"
    [] c = 13 -> "NetworkSecurity" [] c = 14 -> "NetworkSecurityKey" [] c = 15 -> "NetworkSsr"
    [] c = 16 -> "NetworkStatus" [] c = 17 -> "TrlStatus" [] c = 18 -> "SelConfig" [] c = 19 -> "FofStatus"
    [] c = 7 \/ c \in 20..22 -> "Rfu" [] c = 23 -> "LocationData" [] c = 24 -> "RootKey"
    [] c = 25 -> "UserKey" [] c = 27 -> "SensorDescription" [] c = 28 -> "Rtc" [] c \in 29..31 -> "D7AalpRfu"
    [] c \in 32..46 -> APNames[c - 31] [] OTHER -> "Other"
InterfaceName(c) == CASE c = 0 -> "Host" [] c = 1 -> "Serial" [] c = 2 -> "LoRaWanABP" [] c = 3 -> "LoRaWanOTAA"
                      [] c = 215 -> "Dash7" [] OTHER -> "Unknown"

-----------------------------------------------------------------------------
(* ALP actions *)

Hdr(op) == Bits(<<Flag("group"), Flag("response"), Const(6, op)>>)
Plain(op) == Struct(<<Hdr(op)>>)
OnFile(op) == Struct(<< Hdr(op), <<"file_id", Fid>> >>)
Data(op) == Struct(<< Hdr(op), <<"offset", FileOffset>>, <<"data", FileRegion(<<"offset", "file_id">>)>> >>)
Props(op) == Struct(<< Hdr(op), <<"file_id", Fid>>, <<"file_header", FileHeader>> >>)
Querying(op) == Struct(<< Hdr(op), <<"query", Query>> >>)

StatusType == Enum(<< <<0, "Action">>, <<1, "Interface">> >>
                  \o (IF Wizzilab THEN << <<2, "InterfaceFinal">> >> ELSE <<>>))
ActionStatus == Struct(<< <<"action_id", U8>>, <<"status", U8>> >>)
Status == Struct(<< Bits(<<Coded("status_type", 2, StatusType), Const(6, 34)>>),
  <<"status", Sel(<<"status_type">>, << <<"Action", ActionStatus>>, <<"Interface", InterfaceStatus>> >>
                  \o (IF Wizzilab THEN << <<"InterfaceFinal", FinalStatus>> >> ELSE <<>>))>> >>)

ChunkStep == Enum(<< <<0, "Continue">>, <<1, "Start">>, <<2, "End">>, <<3, "StartEnd">> >>)
LogicOp == Enum(<< <<0, "Or">>, <<1, "Xor">>, <<2, "Nor">>, <<3, "Nand">> >>)

PermissionLevel == Enum8(<< <<0, "User">>, <<1, "Root">> >>)
Permission == Union(<< <<66, "Dash7", Wide(8)>> >>, "")

ActionCases == <<
  <<0, "Nop", Plain(0)>>,
  <<1, "ReadFileData", Struct(<< Hdr(1), <<"offset", FileOffset>>, <<"length", LenT>> >>)>>,
  <<2, "ReadFileProperties", OnFile(2)>>,
  <<4, "WriteFileData", Data(4)>>,
  <<5, "WriteFileDataFlush", Data(5)>>,
  <<6, "WriteFileProperties", Props(6)>>,
  <<8, "ActionQuery", Querying(8)>>,
  <<9, "BreakQuery", Querying(9)>>,
  <<10, "PermissionRequest", Struct(<< Hdr(10), <<"level", PermissionLevel>>,
                                       <<"permission", Permission>> >>)>>,
  <<11, "VerifyChecksum", Querying(11)>>,
  <<16, "ExistFile", OnFile(16)>>,
  <<17, "CreateNewFile", Props(17)>>,
  <<18, "DeleteFile", OnFile(18)>>,
  <<19, "RestoreFile", OnFile(19)>>,
  <<20, "FlushFile", OnFile(20)>>,
  <<23, "CopyFile", Struct(<< Hdr(23), <<"src_file_id", U8>>, <<"dst_file_id", U8>> >>)>>,
  <<31, "ExecuteFile", OnFile(31)>>,
  <<32, "ReturnFileData", Data(32)>>,
  <<33, "ReturnFileProperties", Props(33)>>,
  <<34, "Status", Status>>,
  <<35, "ResponseTag", Struct(<< Bits(<<Flag("end_of_packet"), Flag("error"), Const(6, 35)>>), <<"id", U8>> >>)>>,
  <<48, "Chunk", Struct(<< Bits(<<Coded("step", 2, ChunkStep), Const(6, 48)>>) >>)>>,
  <<49, "Logic", Struct(<< Bits(<<Coded("logic", 2, LogicOp), Const(6, 49)>>) >>)>>,
  <<50, "Forward", Struct(<< Bits(<<Pad(1), Flag("response"), Const(6, 50)>>),
                             <<"configuration", InterfaceConfiguration>> >>)>>,
  <<51, "IndirectForward", Struct(<< Bits(<<Flag("overloaded"), Flag("response"), Const(6, 51)>>),
                                     <<"configuration", Opt(<< <<"overloaded">> >>, IndirectInterface)>> >>)>>,
  <<52, "RequestTag", Struct(<< Bits(<<Flag("end_of_packet"), Pad(1), Const(6, 52)>>), <<"id", U8>> >>)>>,
  <<63, "Extension", Plain(63)>> >>
  \o (IF Wizzilab
      THEN << <<38, "TxStatus", Struct(<< Bits(<<Coded("status_type", 2, Enum(<< <<1, "Interface">> >>)),
                                                Const(6, 38)>>), <<"status", TxStatus>> >>)>> >>
      ELSE <<>>)
Action == Peek(1, 64, ActionCases)

-----------------------------------------------------------------------------
(* frames *)

BackgroundControl == Struct(<< Bits(<<Coded("address_type", 2, AddressType), Uint("tag_id", 6)>>) >>)
BackgroundFrame == Struct(<< <<"subnet", U8>>,
  <<"control", BackgroundControl>>,
  <<"payload", U16LE>>, <<"crc16", U16LE>> >>)

TransportControl == Struct(<< Bits(<<Flag("is_dialog_start"), Flag("has_listen_timeout"),
  Flag("has_execution_delay_timeout"), Pad(1), Flag("is_ack_requested"), Flag("is_ack_not_void"),
  Flag("is_ack_record_requested"), Flag("has_agc")>>) >>)
AckTemplate == Struct(<< <<"transaction_id_start", U8>>, <<"transaction_id_stop", U8>> >>)
TransportFrame == Struct(<< <<"control", TransportControl>>, <<"dialog_id", U8>>, <<"transaction_id", U8>>,
  <<"target_rx_level_i", Opt(<< <<"control", "has_agc">> >>, U8)>>,
  <<"listen_timeout", Opt(<< <<"control", "has_listen_timeout">> >>, VarT)>>,
  <<"execution_delay_timeout", Opt(<< <<"control", "has_execution_delay_timeout">> >>, VarT)>>,
  <<"congestion_timeout", Opt(<< <<"control", "is_ack_requested">>, <<"control", "is_dialog_start">> >>, VarT)>>,
  <<"ack_template", Opt(<< <<"control", "is_ack_not_void">> >>, AckTemplate)>>,
  <<"command", CommandT>> >>)

NetworkControl == Struct(<< Bits(<<Flag("has_no_origin_access_id"), Flag("has_hopping"),
  Coded("origin_address_type", 2, AddressType)>>
  \o (IF Wizzilab THEN <<Pad(1), Coded("nls_method", 3, NlsMethod)>> ELSE <<Coded("nls_method", 4, NlsMethod)>>)) >>)
HoppingControl == Struct(<< Bits(<<Pad(1), Flag("hop_counter"), Coded("destination_address_type", 2, AddressType),
                                   Pad(4)>>) >>)
NetworkFrame == Struct(<< <<"control", NetworkControl>>,
  <<"hopping_control", Opt(<< <<"control", "has_hopping">> >>, HoppingControl)>>,
  <<"origin_access_class", AccessClass>>,
  <<"origin_access_adress", Address(<<"control", "origin_address_type">>)>>,
  <<"frame", TransportFrame>> >>)

ForegroundControl == Struct(<< Bits(<<Coded("address_type", 2, AddressType), Uint("eirp_index", 6)>>) >>)
ForegroundFrame == Struct(<< <<"length", LenT>>, <<"subnet", U8>>,
  <<"control", ForegroundControl>>,
  <<"target_address", Address(<<"control", "address_type">>)>>,
  <<"frame", Bounded(<<"length">>, NetworkFrame)>>, <<"crc16", U16LE>> >>)
=============================================================================
