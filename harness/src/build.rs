//! Builds values of the code under test from values of the specification, through the public
//! interface only.  `None` where that interface cannot express the value.
use values::json::V;
use dash7::{
    app::{
        action::{Action, OpCode},
        command::Command,
        interface::*,
        operation::*,
        query::*,
    },
    data,
    file::{self, File},
    link::{self, AccessClass, SubProfile},
    network::{Address, AddressType, Addressee, NlsState},
    physical::*,
    session::*,
    transport,
    types::VarInt,
};

thread_local! {
    /// whether constructors are used where the fields could be given directly
    static BY_CONSTRUCTOR: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn constructing() -> bool {
    BY_CONSTRUCTOR.with(|c| c.get())
}
/// what `f` makes, by constructors and conversions
pub fn constructed<T>(f: impl FnOnce() -> T) -> T {
    BY_CONSTRUCTOR.with(|c| c.set(true));
    let x = f();
    BY_CONSTRUCTOR.with(|c| c.set(false));
    x
}

pub fn len(v: &V) -> Length {
    if constructing() {
        return (v.u32() as usize).into();
    }
    v.u32().into()
}
pub fn var(v: &V) -> VarInt {
    if constructing() {
        return VarInt::new(v.u32(), false).expect("harness: duration");
    }
    v.u32().into()
}
pub fn offset(v: &V) -> FileOffset {
    if constructing() && v.at("offset").u32() == 0 {
        return FileOffset::no_offset(v.at("file_id").u8());
    }
    FileOffset { file_id: v.at("file_id").u8(), offset: len(v.at("offset")) }
}
pub fn header(v: &V) -> ActionHeader {
    if constructing() {
        return ActionHeader::new(v.at("group").bool(), v.at("response").bool());
    }
    ActionHeader { group: v.at("group").bool(), response: v.at("response").bool() }
}
pub fn arr5(v: &V) -> [u8; 5] {
    v.bytes().try_into().expect("harness: five bytes")
}
pub fn access_class(v: &V) -> AccessClass {
    if constructing() {
        let none = AccessClass::unavailable();
        let x = AccessClass::new(v.at("specifier").u8(), v.at("mask").u8());
        return if x == none { none } else { x };
    }
    AccessClass { specifier: v.at("specifier").u8(), mask: v.at("mask").u8() }
}
pub fn address_type(s: &str) -> AddressType {
    match s {
        "NbId" => AddressType::NbId,
        "NoId" => AddressType::NoId,
        "UId" => AddressType::UId,
        "VId" => AddressType::VId,
        _ => panic!("harness: address type {}", s),
    }
}
pub fn address(kind: &str, v: &V) -> Address {
    match address_type(kind) {
        AddressType::NbId => Address::NbId(var(v)),
        AddressType::NoId => Address::NoId,
        AddressType::UId => Address::UId(v.be() as u64),
        AddressType::VId => Address::VId(v.be() as u16),
    }
}
pub fn nls_state(kind: &str, v: &V) -> NlsState {
    match kind {
        "None" => NlsState::None,
        "AesCtr" => NlsState::AesCtr(arr5(v)),
        "AesCbcMac128" => NlsState::AesCbcMac128(arr5(v)),
        "AesCbcMac64" => NlsState::AesCbcMac64(arr5(v)),
        "AesCbcMac32" => NlsState::AesCbcMac32(arr5(v)),
        "AesCcm128" => NlsState::AesCcm128(arr5(v)),
        "AesCcm64" => NlsState::AesCcm64(arr5(v)),
        "AesCcm32" => NlsState::AesCcm32(arr5(v)),
        _ => panic!("harness: nls method {}", kind),
    }
}
#[cfg(feature = "wizzilab")]
pub fn group_condition(s: &str) -> transport::GroupCondition {
    use transport::GroupCondition::*;
    match s {
        "Any" => Any,
        "NotEqual" => NotEqual,
        "Equal" => Equal,
        "GreaterThan" => GreaterThan,
        _ => panic!("harness: group condition {}", s),
    }
}
pub fn addressee(v: &V) -> Addressee {
    Addressee::new(
        #[cfg(feature = "wizzilab")]
        v.at("use_vid").bool(),
        #[cfg(feature = "wizzilab")]
        group_condition(v.at("group_condition").str()),
        address(v.at("address_type").str(), v.at("address")),
        nls_state(v.at("nls_method").str(), v.at("nls_state")),
        access_class(v.at("access_class")),
    )
}
pub fn qos(v: &V) -> QoS {
    QoS {
        stop_on_error: v.at("stop_on_error").bool(),
        record: v.at("record").bool(),
        retry_mode: match v.at("retry_mode").str() {
            "No" => RetryMode::No,
            "OneshotRetry" => RetryMode::OneshotRetry,
            "FifoFast" => RetryMode::FifoFast,
            "FifoSlow" => RetryMode::FifoSlow,
            "SingleFast" => RetryMode::SingleFast,
            "SingleSlow" => RetryMode::SingleSlow,
            "OneshotSticky" => RetryMode::OneshotSticky,
            "Rfu" => RetryMode::Rfu,
            s => panic!("harness: retry mode {}", s),
        },
        response_mode: match v.at("response_mode").str() {
            "No" => ResponseMode::No,
            "All" => ResponseMode::All,
            "Any" => ResponseMode::Any,
            "NoRepeat" => ResponseMode::NoRepeat,
            "OnError" => ResponseMode::OnError,
            "Preferred" => ResponseMode::Preferred,
            s => panic!("harness: response mode {}", s),
        },
    }
}
pub fn channel_band(s: &str) -> ChannelBand {
    match s {
        "Rfu0" => ChannelBand::Rfu0,
        "Rfu1" => ChannelBand::Rfu1,
        "Band433" => ChannelBand::Band433,
        "Band868" => ChannelBand::Band868,
        "Band915" => ChannelBand::Band915,
        s => panic!("harness: band {}", s),
    }
}
pub fn channel_header(v: &V) -> ChannelHeader {
    let x = ChannelHeader {
        channel_band: channel_band(v.at("channel_band").str()),
        channel_class: match v.at("channel_class").str() {
            "LoRate" => ChannelClass::LoRate,
            "Lora" => ChannelClass::Lora,
            "NormalRate" => ChannelClass::NormalRate,
            "HiRate" => ChannelClass::HiRate,
            s => panic!("harness: class {}", s),
        },
        channel_coding: match v.at("channel_coding").str() {
            "Pn9" => ChannelCoding::Pn9,
            "Rfu" => ChannelCoding::Rfu,
            "FecPn9" => ChannelCoding::FecPn9,
            "Cw" => ChannelCoding::Cw,
            s => panic!("harness: coding {}", s),
        },
    };
    if constructing() {
        return ChannelHeader::new(x.channel_band, x.channel_class, x.channel_coding);
    }
    x
}
pub fn channel(v: &V) -> Channel {
    Channel { header: channel_header(v.at("header")), index: v.at("index").u16() }
}
pub fn channel_status(v: &V) -> ChannelStatus {
    ChannelStatus {
        identifier: ChannelStatusIdentifier {
            channel_band: channel_band(v.at("channel_band").str()),
            bandwidth: match v.at("bandwidth").str() {
                "KHz200" => Bandwidth::KHz200,
                "KHz25" => Bandwidth::KHz25,
                s => panic!("harness: bandwidth {}", s),
            },
            index: v.at("index").u16(),
        },
        noise_floor: v.at("noise_floor").u8(),
    }
}
pub fn file_permissions(v: &V) -> data::FilePermissions {
    data::FilePermissions {
        encrypted: v.at("encrypted").bool(),
        executable: v.at("executable").bool(),
        user: data::UserPermissions {
            read: v.at("user_read").bool(),
            write: v.at("user_write").bool(),
            executable: v.at("user_executable").bool(),
        },
        guest: data::UserPermissions {
            read: v.at("guest_read").bool(),
            write: v.at("guest_write").bool(),
            executable: v.at("guest_executable").bool(),
        },
    }
}
pub fn property_byte(v: &V) -> data::FileProperties {
    data::FileProperties {
        enabled: v.at("enabled").bool(),
        condition: match v.at("condition").str() {
            "List" => data::ActionCondition::List,
            "Read" => data::ActionCondition::Read,
            "Write" => data::ActionCondition::Write,
            "WriteFlush" => data::ActionCondition::WriteFlush,
            s => panic!("harness: condition {}", s),
        },
        storage_class: match v.at("storage_class").str() {
            "Transient" => data::StorageClass::Transient,
            "Volatile" => data::StorageClass::Volatile,
            "Restorable" => data::StorageClass::Restorable,
            "Permanent" => data::StorageClass::Permanent,
            s => panic!("harness: storage class {}", s),
        },
    }
}
pub fn file_header(v: &V) -> data::FileHeader {
    data::FileHeader {
        permissions: file_permissions(v),
        properties: property_byte(v),
        alp_command_file_id: v.at("alp_command_file_id").u8(),
        interface_file_id: v.at("interface_file_id").u8(),
        file_size: v.at("file_size").u32(),
        allocated_size: v.at("allocated_size").u32(),
    }
}
pub fn dash7_config(v: &V) -> Dash7InterfaceConfiguration {
    Dash7InterfaceConfiguration {
        qos: qos(v.at("qos")),
        dormant_session_timeout: var(v.at("dormant_session_timeout")),
        #[cfg(not(feature = "any_subiot"))]
        execution_delay_timeout: var(v.at("execution_delay_timeout")),
        addressee: addressee(v.at("addressee")),
    }
}
pub fn lorawan_base(v: &V) -> LoRaWANInterfaceConfiguration {
    LoRaWANInterfaceConfiguration {
        adr_enabled: v.at("adr_enabled").bool(),
        request_ack: v.at("request_ack").bool(),
        application_port: v.at("application_port").u8(),
        data_rate: v.at("data_rate").u8(),
    }
}
pub fn lorawan_abp(v: &V) -> LoRaWANABPInterfaceConfiguration {
    LoRaWANABPInterfaceConfiguration {
        base: lorawan_base(v.at("base")),
        network_session_key: v.at("network_session_key").bytes(),
        app_session_key: v.at("app_session_key").bytes(),
        device_address: v.at("device_address").u32(),
        network_id: v.at("network_id").u32(),
    }
}
pub fn lorawan_otaa(v: &V) -> LoRaWANOTAAInterfaceConfiguration {
    LoRaWANOTAAInterfaceConfiguration {
        base: lorawan_base(v.at("base")),
        device_eui: v.at("device_eui").bytes(),
        app_eui: v.at("app_eui").bytes(),
        app_key: v.at("app_key").bytes(),
    }
}
pub fn configuration(v: &V) -> InterfaceConfiguration {
    let p = &v.arr()[1];
    match v.arr()[0].str() {
        "Host" => InterfaceConfiguration::Host,
        "Serial" => InterfaceConfiguration::Serial,
        "LoRaWanABP" => InterfaceConfiguration::LoRaWanABP(lorawan_abp(p)),
        "LoRaWanOTAA" => InterfaceConfiguration::LoRaWanOTAA(lorawan_otaa(p)),
        "Dash7" => InterfaceConfiguration::Dash7(dash7_config(p)),
        _ => InterfaceConfiguration::Unknown(p.u8()),
    }
}
pub fn indirect(v: &V) -> IndirectInterface {
    let p = &v.arr()[1];
    match v.arr()[0].str() {
        "Host" => IndirectInterface::Host,
        "Serial" => IndirectInterface::Serial,
        "Dash7" => IndirectInterface::Dash7(addressee(p)),
        _ => IndirectInterface::Unknown(p.u8()),
    }
}
pub fn dash7_status(v: &V) -> Dash7InterfaceStatus {
    Dash7InterfaceStatus {
        channel: channel(v.at("channel")),
        rx_level: v.at("rx_level").u8(),
        link_budget: v.at("link_budget").u8(),
        target_rx_level: v.at("target_rx_level").u8(),
        nls: v.at("nls").bool(),
        missed: v.at("missed").bool(),
        retry: v.at("retry").bool(),
        unicast: v.at("unicast").bool(),
        fifo_token: v.at("fifo_token").u8(),
        sequence_number: v.at("sequence_number").u8(),
        response_timeout: var(v.at("response_timeout")),
        addressee: addressee(v.at("addressee")),
    }
}
pub fn interface_status(v: &V) -> InterfaceStatus {
    let s = v.at("status");
    match v.at("interface_type").int() {
        0 => InterfaceStatus::Host,
        1 => InterfaceStatus::Serial,
        215 => InterfaceStatus::Dash7(dash7_status(s)),
        _ => InterfaceStatus::Other(s.bytes()),
    }
}
pub fn status_op(v: &V) -> InterfaceStatusOperation {
    InterfaceStatusOperation::from(interface_status(v))
}
#[cfg(feature = "wizzilab")]
pub fn final_code(s: &str) -> InterfaceFinalStatusCode {
    use InterfaceFinalStatusCode::*;
    match s {
        "No" => No,
        "Busy" => Busy,
        "BadParam" => BadParam,
        "DutyCycle" => DutyCycle,
        "CcaTo" => CcaTo,
        "NlsKey" => NlsKey,
        "TxUdf" => TxUdf,
        "RxOvf" => RxOvf,
        "RxCrc" => RxCrc,
        "Abort" => Abort,
        "NoAck" => NoAck,
        "RxTo" => RxTo,
        "NotSupportedBand" => NotSupportedBand,
        "NotSupportedChannel" => NotSupportedChannel,
        "NotSupportedModulation" => NotSupportedModulation,
        "VoidChannelList" => VoidChannelList,
        "NotSupportedLen" => NotSupportedLen,
        "ParamOvf" => ParamOvf,
        "VidWoNls" => VidWoNls,
        "TxSched" => TxSched,
        "RxSched" => RxSched,
        "BufferOvf" => BufferOvf,
        "NotSupportedMode" => NotSupportedMode,
        s => panic!("harness: final status {}", s),
    }
}
#[cfg(feature = "wizzilab")]
pub fn final_op(v: &V) -> InterfaceFinalStatusOperation {
    let id = v.at("interface_id").u8();
    if constructing() && id == 0xD7 {
        return InterfaceFinalStatus::Dash7(final_code(v.at("status").str())).into();
    }
    InterfaceFinalStatusOperation {
        interface_id: id,
        status: if id == 0xD7 {
            InterfaceFinalStatus::Dash7(final_code(v.at("status").str()))
        } else {
            InterfaceFinalStatus::Other(v.at("status").bytes())
        },
    }
}
/// the status of a transmission over DASH7 is not open to construction, its fields are
#[cfg(feature = "wizzilab")]
pub fn tx_op(v: &V) -> Option<InterfaceTxStatusOperation> {
    let id = v.at("interface_id").u8();
    if id != 0xD7 {
        return Some(InterfaceTxStatusOperation {
            interface_id: id,
            status: InterfaceTxStatus::Other(v.at("status").bytes()),
        });
    }
    let blank = [0xD7u8, 14, 0x20, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10, 0];
    let mut op = InterfaceTxStatusOperation::try_from(&blank[..]).ok()?;
    let w = v.at("status");
    match &mut op.status {
        InterfaceTxStatus::Dash7(d) => {
            d.channel = channel(w.at("channel"));
            d.target_rx_level = w.at("target_rx_level").int() as i8;
            d.error = final_code(w.at("error").str());
            d.lts = w.at("lts").u32();
            d.addressee = addressee(w.at("addressee"));
        }
        _ => return None,
    }
    if constructing() {
        return Some(op.status.into());
    }
    Some(op)
}
pub fn arithmetic(v: &V) -> ArithmeticQueryParams {
    ArithmeticQueryParams {
        signed: v.at("signed").bool(),
        comparison_type: match v.at("comparison_type").str() {
            "Inequal" => ArithmeticComparisonType::Inequal,
            "Equal" => ArithmeticComparisonType::Equal,
            "LessThan" => ArithmeticComparisonType::LessThan,
            "LessThanOrEqual" => ArithmeticComparisonType::LessThanOrEqual,
            "GreaterThan" => ArithmeticComparisonType::GreaterThan,
            "GreaterThanOrEqual" => ArithmeticComparisonType::GreaterThanOrEqual,
            s => panic!("harness: comparison {}", s),
        },
    }
}
pub fn range(v: &V) -> RangeQueryParams {
    RangeQueryParams {
        signed: v.at("signed").bool(),
        comparison_type: match v.at("comparison_type").str() {
            "NotInRange" => RangeComparisonType::NotInRange,
            "InRange" => RangeComparisonType::InRange,
            s => panic!("harness: range comparison {}", s),
        },
    }
}
/// an optional mask as the list of bytes the constructors take
pub fn mask(v: &V) -> Vec<u8> {
    match v.arr().first() {
        None => vec![],
        Some(m) => m.bytes(),
    }
}
pub fn query(v: &V) -> Option<Query> {
    let p = &v.arr()[1];
    let kind = v.arr()[0].str();
    if kind == "NonVoid" {
        return Some(Query::NonVoid(NonVoid { length: len(p.at("length")), file: offset(p.at("file")) }));
    }
    let present = p.at("mask_present").bool();
    let length = p.at("length").u32();
    let m = if kind == "BitmapRangeComparison" { p.at("mask").bytes() } else { mask(p.at("mask")) };
    // the constructors derive the flag from the mask
    if present != !m.is_empty() {
        return None;
    }
    Some(match kind {
        "ComparisonWithZero" => {
            if length as usize != m.len() {
                return None;
            }
            Query::ComparisonWithZero(ComparisonWithZero::new(arithmetic(p), m, offset(p.at("file"))))
        }
        "ComparisonWithValue" => {
            let value = p.at("value").bytes();
            if length as usize != value.len() {
                return None;
            }
            Query::ComparisonWithValue(ComparisonWithValue::new(arithmetic(p), m, value, offset(p.at("file"))))
        }
        "ComparisonWithOtherFile" => {
            let mut q =
                ComparisonWithOtherFile::new(arithmetic(p), m, offset(p.at("file1")), offset(p.at("file2")));
            q.length = length.into();
            Query::ComparisonWithOtherFile(q)
        }
        "BitmapRangeComparison" => {
            let mut q = BitmapRangeComparison::new(
                range(p),
                p.at("start").u32(),
                p.at("stop").u32(),
                m,
                offset(p.at("file")),
            );
            q.length = length.into();
            Query::BitmapRangeComparison(q)
        }
        "StringTokenSearch" => {
            let mut q = StringTokenSearch::new(
                p.at("max_errors").u8(),
                m,
                p.at("value").bytes(),
                offset(p.at("file")),
            );
            q.length = length.into();
            Query::StringTokenSearch(q)
        }
        s => panic!("harness: query {}", s),
    })
}
pub fn sub_profile(v: &V) -> SubProfile {
    SubProfile {
        subband_bitmap: v.at("subband_bitmap").u8(),
        scan_automation_period: var(v.at("scan_automation_period")),
    }
}
pub fn sub_band(v: &V) -> SubBand {
    SubBand {
        channel_index_start: v.at("channel_index_start").u16(),
        channel_index_end: v.at("channel_index_end").u16(),
        eirp: v.at("eirp").int() as i8,
        clear_channel_assessment: v.at("clear_channel_assessment").u8(),
        duty: v.at("duty").u8(),
    }
}
pub fn access_profile(v: &V) -> link::AccessProfile {
    let sp: Vec<SubProfile> = v.at("sub_profiles").arr().iter().map(sub_profile).collect();
    let sb: Vec<SubBand> = v.at("sub_bands").arr().iter().map(sub_band).collect();
    link::AccessProfile {
        channel_header: channel_header(v.at("channel_header")),
        sub_profiles: sp.try_into().expect("harness: four sub profiles"),
        sub_bands: sb.try_into().expect("harness: eight sub bands"),
    }
}
pub fn factory_settings(v: &V) -> file::FactorySettings {
    file::FactorySettings {
        gain: v.at("gain").int() as i8,
        rx_bw_low_rate: v.at("rx_bw_low_rate").u32(),
        rx_bw_normal_rate: v.at("rx_bw_normal_rate").u32(),
        rx_bw_high_rate: v.at("rx_bw_high_rate").u32(),
        bitrate_lo_rate: v.at("bitrate_lo_rate").u32(),
        fdev_lo_rate: v.at("fdev_lo_rate").u32(),
        bitrate_normal_rate: v.at("bitrate_normal_rate").u32(),
        fdev_normal_rate: v.at("fdev_normal_rate").u32(),
        bitrate_hi_rate: v.at("bitrate_hi_rate").u32(),
        fdev_hi_rate: v.at("fdev_hi_rate").u32(),
        preamble_size_lo_rate: v.at("preamble_size_lo_rate").u8(),
        preamble_size_normal_rate: v.at("preamble_size_normal_rate").u8(),
        preamble_size_hi_rate: v.at("preamble_size_hi_rate").u8(),
        preamble_detector_size_lo_rate: v.at("preamble_detector_size_lo_rate").u8(),
        preamble_detector_size_normal_rate: v.at("preamble_detector_size_normal_rate").u8(),
        preamble_detector_size_hi_rate: v.at("preamble_detector_size_hi_rate").u8(),
        preamble_tol_lo_rate: v.at("preamble_tol_lo_rate").u8(),
        preamble_tol_normal_rate: v.at("preamble_tol_normal_rate").u8(),
        preamble_tol_hi_rate: v.at("preamble_tol_hi_rate").u8(),
        rssi_smoothing: v.at("rssi_smoothing").u8(),
        rssi_offset: v.at("rssi_offset").u8(),
        lora_bw: v.at("lora_bw").u32(),
        lora_sf: v.at("lora_sf").u8(),
        gaussian: v.at("gaussian").u8(),
        paramp: v.at("paramp").u16(),
    }
}
pub fn text(v: &V) -> String {
    String::from_utf8(v.bytes()).expect("harness: text")
}
pub fn firmware(v: &V) -> file::FirmwareVersion {
    file::FirmwareVersion {
        major: v.at("major").u8(),
        minor: v.at("minor").u8(),
        application_name: text(v.at("application_name")),
        git_sha1: text(v.at("git_sha1")),
    }
}
pub fn engineering_method(v: &V) -> file::EngineeringModeMethod {
    use file::EngineeringModeMethod::*;
    match v.str() {
        "Off" => Off,
        "ContTx" => ContTx,
        "TransientTx" => TransientTx,
        "PerRx" => PerRx,
        "PerTx" => PerTx,
        s => panic!("harness: mode {}", s),
    }
}
pub fn engineering(v: &V) -> file::EngineeringMode {
    file::EngineeringMode {
        mode: engineering_method(v.at("mode")),
        flags: v.at("flags").u8(),
        timeout: v.at("timeout").u8(),
        channel: channel(v.at("channel")),
        eirp: v.at("eirp").int() as i8,
    }
}
pub fn phy_status(v: &V) -> file::PhyStatus {
    file::PhyStatus::new(
        v.at("up_time").u32(),
        v.at("rx_time").u32(),
        v.at("tx_time").u32(),
        v.at("tx_duty_cycle").u16(),
        v.at("channel_status").arr().iter().map(channel_status).collect(),
    )
}
pub fn dll_config(v: &V) -> file::DllConfig {
    file::DllConfig {
        ac: v.at("ac").u8(),
        lq_filter: v.at("lq_filter").u8(),
        nf_ctrl: v.at("nf_ctrl").u8(),
        rx_nf_method_parameter: v.at("rx_nf_method_parameter").u8(),
        tx_nf_method_parameter: v.at("tx_nf_method_parameter").u8(),
    }
}
pub fn dll_status(v: &V) -> file::DllStatus {
    file::DllStatus {
        last_rx_packet_level: v.at("last_rx_packet_level").u8(),
        last_rx_packet_link_budget: v.at("last_rx_packet_link_budget").u8(),
        noise_floor: v.at("noise_floor").u8(),
        channel_header: channel_header(v.at("channel_header")),
        channel_index: v.at("channel_index").u16(),
        scan_timeout_ratio: v.at("scan_timeout_ratio").u16(),
        scan_count: v.at("scan_count").u32(),
        scan_timeout_count: v.at("scan_timeout_count").u32(),
    }
}
pub fn security_key(v: &V) -> file::SecurityKey {
    file::SecurityKey { key: v.at("key").be() }
}
pub fn file(v: &V) -> File {
    let p = &v.arr()[1];
    macro_rules! ap {
        ($n:ident) => {
            File::$n(file::AccessProfile { profile: access_profile(p) })
        };
    }
    match v.arr()[0].str() {
        "UId" => File::UId(Address::UId(p.be() as u64)),
        "VId" => File::VId(Address::VId(p.be() as u16)),
        "FactorySettings" => File::FactorySettings(factory_settings(p)),
        "FirmwareVersion" => File::FirmwareVersion(firmware(p)),
        "EngineeringMode" => File::EngineeringMode(engineering(p)),
        "PhyStatus" => File::PhyStatus(phy_status(p)),
        "DllConfig" => File::DllConfig(dll_config(p)),
        "DllStatus" => File::DllStatus(dll_status(p)),
        "NwlSecurityKey" => File::NwlSecurityKey(security_key(p)),
        "AccessProfile00" => ap!(AccessProfile00),
        "AccessProfile01" => ap!(AccessProfile01),
        "AccessProfile02" => ap!(AccessProfile02),
        "AccessProfile03" => ap!(AccessProfile03),
        "AccessProfile04" => ap!(AccessProfile04),
        "AccessProfile05" => ap!(AccessProfile05),
        "AccessProfile06" => ap!(AccessProfile06),
        "AccessProfile07" => ap!(AccessProfile07),
        "AccessProfile08" => ap!(AccessProfile08),
        "AccessProfile09" => ap!(AccessProfile09),
        "AccessProfile10" => ap!(AccessProfile10),
        "AccessProfile11" => ap!(AccessProfile11),
        "AccessProfile12" => ap!(AccessProfile12),
        "AccessProfile13" => ap!(AccessProfile13),
        "AccessProfile14" => ap!(AccessProfile14),
        "Other" => File::Other(p.bytes()),
        s => panic!("harness: file {}", s),
    }
}
fn on_file(p: &V, opcode: OpCode) -> FileId {
    FileId { header: header(p), opcode, file_id: p.at("file_id").u8() }
}
fn props(p: &V, opcode: OpCode) -> FileProperties {
    FileProperties {
        header: header(p),
        opcode,
        file_id: p.at("file_id").u8(),
        file_header: file_header(p.at("file_header")),
    }
}
fn data_op(p: &V, opcode: OpCode) -> FileData {
    FileData::new(header(p), offset(p.at("offset")), file(p.at("data")), opcode)
}
fn query_op(p: &V, opcode: OpCode) -> Option<ActionQuery> {
    Some(ActionQuery { header: header(p), opcode, query: query(p.at("query"))? })
}
pub fn request_tag(p: &V) -> RequestTag {
    RequestTag {
        header: RequestTagHeader { end_of_packet: p.at("end_of_packet").bool() },
        opcode: OpCode::REQUEST_TAG,
        id: p.at("id").u8(),
    }
}
pub fn response_tag(p: &V) -> ResponseTag {
    ResponseTag {
        header: ResponseTagHeader {
            end_of_packet: p.at("end_of_packet").bool(),
            error: p.at("error").bool(),
        },
        opcode: OpCode::RESPONSE_TAG,
        id: p.at("id").u8(),
    }
}
pub fn permission_level(v: &V) -> PermissionLevel {
    match v.str() {
        "User" => PermissionLevel::User,
        "Root" => PermissionLevel::Root,
        s => panic!("harness: level {}", s),
    }
}
pub fn action_status(v: &V) -> ActionStatus {
    ActionStatus { action_id: v.at("action_id").u8(), status: StatusCode(v.at("status").u8()) }
}
pub fn permission(v: &V) -> Permission {
    Permission::Dash7(v.arr()[1].bytes().try_into().expect("harness: eight bytes"))
}
pub fn action(v: &V) -> Option<Action> {
    let p = &v.arr()[1];
    Some(match v.arr()[0].str() {
        "Nop" => Action::Nop(Nop { header: header(p), opcode: OpCode::NOP }),
        "ReadFileData" => Action::ReadFileData(ReadFileData {
            header: header(p),
            opcode: OpCode::READ_FILE_DATA,
            offset: offset(p.at("offset")),
            length: len(p.at("length")),
        }),
        "ReadFileProperties" => Action::ReadFileProperties(on_file(p, OpCode::READ_FILE_PROPERTIES)),
        "WriteFileData" => Action::WriteFileData(data_op(p, OpCode::WRITE_FILE_DATA)),
        "WriteFileDataFlush" => Action::WriteFileDataFlush(data_op(p, OpCode::WRITE_FILE_DATA_FLUSH)),
        "WriteFileProperties" => Action::WriteFileProperties(props(p, OpCode::WRITE_FILE_PROPERTIES)),
        "ActionQuery" => Action::ActionQuery(query_op(p, OpCode::ACTION_QUERY)?),
        "BreakQuery" => Action::BreakQuery(query_op(p, OpCode::BREAK_QUERY)?),
        "PermissionRequest" => Action::PermissionRequest(PermissionRequest {
            header: header(p),
            opcode: OpCode::PERMISSION_REQUEST,
            level: permission_level(p.at("level")),
            permission: permission(p.at("permission")),
        }),
        "VerifyChecksum" => Action::VerifyChecksum(query_op(p, OpCode::VERIFY_CHECKSUM)?),
        "ExistFile" => Action::ExistFile(on_file(p, OpCode::EXIST_FILE)),
        "CreateNewFile" => Action::CreateNewFile(props(p, OpCode::CREATE_NEW_FILE)),
        "DeleteFile" => Action::DeleteFile(on_file(p, OpCode::DELETE_FILE)),
        "RestoreFile" => Action::RestoreFile(on_file(p, OpCode::RESTORE_FILE)),
        "FlushFile" => Action::FlushFile(on_file(p, OpCode::FLUSH_FILE)),
        "CopyFile" => Action::CopyFile(CopyFile {
            header: header(p),
            opcode: OpCode::COPY_FILE,
            src_file_id: p.at("src_file_id").u8(),
            dst_file_id: p.at("dst_file_id").u8(),
        }),
        "ExecuteFile" => Action::ExecuteFile(on_file(p, OpCode::EXECUTE_FILE)),
        "ReturnFileData" => Action::ReturnFileData(data_op(p, OpCode::RETURN_FILE_DATA)),
        "ReturnFileProperties" => Action::ReturnFileProperties(props(p, OpCode::RETURN_FILE_PROPERTIES)),
        "Status" => {
            let s = p.at("status");
            let status: Status = match p.at("status_type").str() {
                "Action" => Status::Action(action_status(s)),
                "Interface" => status_op(s).into(),
                #[cfg(feature = "wizzilab")]
                "InterfaceFinal" => final_op(s).into(),
                _ => return None,
            };
            Action::Status(status.into())
        }
        "ResponseTag" => Action::ResponseTag(response_tag(p)),
        "Chunk" => Action::Chunk(
            match p.at("step").str() {
                "Continue" => ChunkStep::Continue,
                "Start" => ChunkStep::Start,
                "End" => ChunkStep::End,
                _ => ChunkStep::StartEnd,
            }
            .into(),
        ),
        "Logic" => Action::Logic(Logic {
            logic: match p.at("logic").str() {
                "Or" => LogicOp::Or,
                "Xor" => LogicOp::Xor,
                "Nor" => LogicOp::Nor,
                _ => LogicOp::Nand,
            },
            opcode: OpCode::LOGIC,
        }),
        "Forward" => {
            Action::Forward(Forward::new(p.at("response").bool(), configuration(p.at("configuration"))))
        }
        "IndirectForward" => {
            let c = p.at("configuration").arr();
            if p.at("overloaded").bool() != !c.is_empty() {
                return None;
            }
            Action::IndirectForward(IndirectForward::new(p.at("response").bool(), c.first().map(indirect)))
        }
        "RequestTag" => Action::RequestTag(request_tag(p)),
        "Extension" => Action::Extension(Extension { header: header(p), opcode: OpCode::EXTENSION }),
        #[cfg(feature = "wizzilab")]
        "TxStatus" => {
            // the kind of status is not open to us, but it is there in any transmission status
            let mut a = Action::try_from(&[0x66u8, 0, 0][..]).ok()?;
            match &mut a {
                Action::TxStatus(x) => {
                    let TxStatus::Interface(old) = &mut x.status;
                    *old = tx_op(p.at("status"))?;
                }
                _ => return None,
            }
            a
        }
        s => panic!("harness: action {}", s),
    })
}
pub fn command(v: &V) -> Option<Command> {
    let mut actions = vec![];
    for a in v.arr() {
        actions.push(action(a)?);
    }
    Some(Command::new(actions))
}
pub fn transport_control(c: &V) -> transport::Control {
    transport::Control {
        is_dialog_start: c.at("is_dialog_start").bool(),
        has_listen_timeout: c.at("has_listen_timeout").bool(),
        has_execution_delay_timeout: c.at("has_execution_delay_timeout").bool(),
        is_ack_requested: c.at("is_ack_requested").bool(),
        is_ack_not_void: c.at("is_ack_not_void").bool(),
        is_ack_record_requested: c.at("is_ack_record_requested").bool(),
        has_agc: c.at("has_agc").bool(),
    }
}
pub fn ack_template(x: &V) -> transport::AckTemplate {
    transport::AckTemplate {
        transaction_id_start: x.at("transaction_id_start").u8(),
        transaction_id_stop: x.at("transaction_id_stop").u8(),
    }
}
pub fn transport_frame(v: &V) -> Option<transport::Frame> {
    let c = v.at("control");
    let opt = |k: &str| v.at(k).arr().first().cloned();
    Some(transport::Frame {
        control: transport_control(c),
        dialog_id: v.at("dialog_id").u8(),
        transaction_id: v.at("transaction_id").u8(),
        target_rx_level_i: opt("target_rx_level_i").map(|x| x.u8()),
        listen_timeout: opt("listen_timeout").map(|x| var(&x)),
        execution_delay_timeout: opt("execution_delay_timeout").map(|x| var(&x)),
        congestion_timeout: opt("congestion_timeout").map(|x| var(&x)),
        ack_template: opt("ack_template").map(|x| ack_template(&x)),
        command: command(v.at("command"))?,
    })
}

/// the same action with another number in its operation code field, which its kind determines
pub fn reopcode(a: &Action, n: u8) -> Action {
    let mut a = a.clone();
    macro_rules! set {
        ($($k:ident),*) => {
            match &mut a {
                $(Action::$k(x) => x.opcode = OpCode(n),)*
                #[cfg(feature = "wizzilab")]
                Action::TxStatus(x) => x.opcode = OpCode(n),
            }
        };
    }
    set!(
        Nop, ReadFileData, ReadFileProperties, WriteFileData, WriteFileDataFlush, WriteFileProperties, ActionQuery,
        BreakQuery, PermissionRequest, VerifyChecksum, ExistFile, CreateNewFile, DeleteFile, RestoreFile, FlushFile,
        CopyFile, ExecuteFile, ReturnFileData, ReturnFileProperties, Status, ResponseTag, Chunk, Logic, Forward,
        IndirectForward, RequestTag, Extension
    );
    a
}
