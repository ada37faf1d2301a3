//! One face for everything that can be encoded and decoded.
use crate::build;
use crate::io::{Sink, Stream};
use values::json::V;
use dash7::{
    app::{action::*, command::Command, interface::*, operation::*, query::Query},
    data,
    file::{self, File},
    link, network, physical,
    session::*,
    transport,
    types::VarInt,
};
use deku::prelude::*;
use std::fmt::Debug;

pub type Dec<'a, T> = Result<(&'a [u8], usize, T), DekuError>;

pub trait Item: Sized + Clone + PartialEq + Debug + 'static {
    /// skips so many bytes first
    fn bytes_at(b: &[u8], id: u8, skip: usize) -> Dec<'_, Self>;
    fn bytes(b: &[u8], id: u8) -> Dec<'_, Self> {
        Self::bytes_at(b, id, 0)
    }
    /// conversion that takes the whole slice or nothing
    fn slice(b: &[u8]) -> Option<Result<Self, DekuError>>;
    /// number of bits read (with those skipped), value
    fn reader_at(s: &mut Stream, id: u8, len: usize, skip: usize) -> Result<(usize, Self), DekuError>;
    fn reader(s: &mut Stream, id: u8, len: usize) -> Result<(usize, Self), DekuError> {
        Self::reader_at(s, id, len, 0)
    }
    fn enc(&self) -> Result<Vec<u8>, DekuError>;
    fn enc_into(&self) -> Option<Result<Vec<u8>, DekuError>>;
    /// into a buffer: number of bytes
    fn enc_slice(&self, _buf: &mut [u8]) -> Option<Result<usize, DekuError>> {
        None
    }
    /// bytes, number of bits
    fn enc_bits(&self) -> Option<Result<(Vec<u8>, usize), DekuError>> {
        None
    }
    /// the next item of a reader that may have read others before
    fn step(r: &mut Reader<Stream>, id: u8, len: usize) -> Result<Self, DekuError>;
    fn put(&self, w: &mut Writer<&mut Sink>) -> Result<(), DekuError>;
    fn write(&self, w: &mut Sink) -> Result<(), DekuError> {
        let mut writer = Writer::new(w);
        self.put(&mut writer)?;
        writer.finalize()
    }
    fn build(v: &V) -> Option<Self>;
    /// None where there is nothing to update
    fn update(&mut self) -> Option<Result<(), DekuError>>;
    /// the default, where there is one
    fn empty() -> Option<Self> {
        None
    }
}

macro_rules! container {
    ($t:ty, $b:expr) => {
        container!($t, $b, (), Some(Default::default()));
    };
    ($t:ty, $b:expr, $ctx:expr, $d:expr) => {
        impl Item for $t {
            fn bytes_at(b: &[u8], _id: u8, skip: usize) -> Dec<'_, Self> {
                <$t as DekuContainerRead>::from_bytes((b, 8 * skip)).map(|((r, o), v)| (r, o, v))
            }
            fn slice(b: &[u8]) -> Option<Result<Self, DekuError>> {
                Some(<$t>::try_from(b))
            }
            fn reader_at(s: &mut Stream, _id: u8, _len: usize, skip: usize) -> Result<(usize, Self), DekuError> {
                <$t as DekuContainerRead>::from_reader((s, 8 * skip))
            }
            fn enc(&self) -> Result<Vec<u8>, DekuError> {
                DekuContainerWrite::to_bytes(self)
            }
            fn enc_into(&self) -> Option<Result<Vec<u8>, DekuError>> {
                Some(Vec::<u8>::try_from(self.clone()))
            }
            fn enc_slice(&self, buf: &mut [u8]) -> Option<Result<usize, DekuError>> {
                Some(DekuContainerWrite::to_slice(self, buf))
            }
            fn enc_bits(&self) -> Option<Result<(Vec<u8>, usize), DekuError>> {
                Some(DekuContainerWrite::to_bits(self).map(|b| (b.as_raw_slice().to_vec(), b.len())))
            }
            fn step(r: &mut Reader<Stream>, _id: u8, _len: usize) -> Result<Self, DekuError> {
                <$t>::from_reader_with_ctx(r, $ctx)
            }
            fn put(&self, w: &mut Writer<&mut Sink>) -> Result<(), DekuError> {
                DekuWriter::to_writer(self, w, $ctx)
            }
            fn build(v: &V) -> Option<Self> {
                let f: fn(&V) -> Option<$t> = $b;
                f(v)
            }
            fn update(&mut self) -> Option<Result<(), DekuError>> {
                Some(DekuUpdate::update(self))
            }
            fn empty() -> Option<Self> {
                $d
            }
        }
    };
}

container!(Action, build::action, (), None);
container!(InterfaceConfiguration, |v| Some(build::configuration(v)));
container!(Dash7InterfaceConfiguration, |v| Some(build::dash7_config(v)));
container!(LoRaWANABPInterfaceConfiguration, |v| Some(build::lorawan_abp(v)), (), None);
container!(LoRaWANOTAAInterfaceConfiguration, |v| Some(build::lorawan_otaa(v)), (), None);
container!(IndirectInterface, |v| Some(build::indirect(v)));
container!(network::Addressee, |v| Some(build::addressee(v)));
container!(QoS, |v| Some(build::qos(v)));
container!(Dash7InterfaceStatus, |v| Some(build::dash7_status(v)), (), None);
container!(InterfaceStatusOperation, |v| Some(build::status_op(v)));
#[cfg(feature = "wizzilab")]
container!(InterfaceFinalStatusOperation, |v| Some(build::final_op(v)), (), None);
container!(Query, build::query);
container!(FileOffset, |v| Some(build::offset(v)));
container!(Length, |v| Some(build::len(v)));
container!(VarInt, |v| Some(build::var(v)));
container!(data::FileHeader, |v| Some(build::file_header(v)));
container!(physical::Channel, |v| Some(build::channel(v)));
container!(physical::ChannelHeader, |v| Some(build::channel_header(v)));
container!(physical::ChannelStatus, |v| Some(build::channel_status(v)), (), None);
container!(physical::SubBand, |v| Some(build::sub_band(v)));
container!(link::SubProfile, |v| Some(build::sub_profile(v)));
container!(link::AccessClass, |v| Some(build::access_class(v)));
container!(link::AccessProfile, |v| Some(build::access_profile(v)));
container!(file::FactorySettings, |v| Some(build::factory_settings(v)), (), None);
container!(file::FirmwareVersion, |v| Some(build::firmware(v)), (), None);
container!(file::EngineeringMode, |v| Some(build::engineering(v)), (), None);
container!(file::PhyStatus, |v| Some(build::phy_status(v)), (), None);
container!(file::DllConfig, |v| Some(build::dll_config(v)), (), None);
container!(file::DllStatus, |v| Some(build::dll_status(v)), (), None);
container!(file::SecurityKey, |v| Some(build::security_key(v)), (), None);
container!(link::BackgroundFrame, |_| None);
// without a length a foreground frame has no end: the default is not one
container!(link::ForegroundFrame, |_| None, (), None);
container!(network::Frame, |_| None, 0u32, Some(Default::default()));
container!(LoRaWANInterfaceConfiguration, |v| Some(build::lorawan_base(v)));
#[cfg(feature = "wizzilab")]
container!(InterfaceTxStatusOperation, build::tx_op, (), None);
#[cfg(feature = "wizzilab")]
container!(InterfaceFinalStatusCode, |v| Some(build::final_code(v.str())), (), None);
container!(data::FilePermissions, |v| Some(build::file_permissions(v)));
container!(data::FileProperties, |v| Some(build::property_byte(v)));
container!(ActionStatus, |v| Some(build::action_status(v)));
container!(Permission, |v| Some(build::permission(v)));
container!(PermissionLevel, |v| Some(build::permission_level(v)));
container!(file::EngineeringModeMethod, |v| Some(build::engineering_method(v)), (), None);
container!(transport::Control, |v| Some(build::transport_control(v)));
container!(transport::AckTemplate, |v| Some(build::ack_template(v)));
container!(network::Control, |_| None);
container!(network::HoppingControl, |_| None);
container!(link::BackgroundFrameControl, |_| None);
container!(link::ForegroundFrameControl, |_| None);
container!(transport::Frame, build::transport_frame, 0u32, Some(Default::default()));

impl Item for Command {
    fn bytes_at(b: &[u8], _id: u8, skip: usize) -> Dec<'_, Self> {
        Command::from_bytes((b, 8 * skip)).map(|((r, o), v)| (r, o, v))
    }
    fn slice(b: &[u8]) -> Option<Result<Self, DekuError>> {
        Some(Command::try_from(b))
    }
    fn reader_at(s: &mut Stream, _id: u8, _len: usize, skip: usize) -> Result<(usize, Self), DekuError> {
        Command::from_reader((s, 8 * skip))
    }
    fn enc(&self) -> Result<Vec<u8>, DekuError> {
        self.to_bytes()
    }
    fn enc_into(&self) -> Option<Result<Vec<u8>, DekuError>> {
        Some(Vec::<u8>::try_from(self.clone()))
    }
    fn step(r: &mut Reader<Stream>, _id: u8, _len: usize) -> Result<Self, DekuError> {
        Command::from_reader_with_ctx(r, 0u32)
    }
    fn put(&self, w: &mut Writer<&mut Sink>) -> Result<(), DekuError> {
        DekuWriter::to_writer(self, w, 0u32)
    }
    fn build(v: &V) -> Option<Self> {
        build::command(v)
    }
    fn update(&mut self) -> Option<Result<(), DekuError>> {
        None
    }
    fn empty() -> Option<Self> {
        Some(Default::default())
    }
}

impl Item for File {
    fn bytes_at(b: &[u8], id: u8, skip: usize) -> Dec<'_, Self> {
        let fid = file::FileId::try_from(id)?;
        File::from_bytes((b, 8 * skip), fid, (b.len() - skip) as u32).map(|((r, o), v)| (r, o, v))
    }
    fn slice(_b: &[u8]) -> Option<Result<Self, DekuError>> {
        None
    }
    fn reader_at(s: &mut Stream, id: u8, len: usize, skip: usize) -> Result<(usize, Self), DekuError> {
        let fid = file::FileId::try_from(id)?;
        let mut r = Reader::new(s);
        if skip > 0 {
            r.skip_bits(8 * skip)?;
        }
        let v = File::from_reader_with_ctx(&mut r, (fid, len as u32))?;
        Ok((r.bits_read, v))
    }
    fn enc(&self) -> Result<Vec<u8>, DekuError> {
        DekuContainerWrite::to_bytes(self)
    }
    fn enc_into(&self) -> Option<Result<Vec<u8>, DekuError>> {
        Some(Vec::<u8>::try_from(self.clone()))
    }
    fn enc_slice(&self, buf: &mut [u8]) -> Option<Result<usize, DekuError>> {
        Some(DekuContainerWrite::to_slice(self, buf))
    }
    fn enc_bits(&self) -> Option<Result<(Vec<u8>, usize), DekuError>> {
        Some(DekuContainerWrite::to_bits(self).map(|b| (b.as_raw_slice().to_vec(), b.len())))
    }
    fn step(r: &mut Reader<Stream>, id: u8, len: usize) -> Result<Self, DekuError> {
        File::from_reader_with_ctx(r, (file::FileId::try_from(id)?, len as u32))
    }
    fn put(&self, w: &mut Writer<&mut Sink>) -> Result<(), DekuError> {
        DekuWriter::to_writer(self, w, (file::FileId::Other, 0u32))
    }
    fn build(v: &V) -> Option<Self> {
        Some(build::file(v))
    }
    fn update(&mut self) -> Option<Result<(), DekuError>> {
        Some(DekuUpdate::update(self))
    }
    fn empty() -> Option<Self> {
        Some(Default::default())
    }
}

/// Calls a generic function for the item type of that name.
#[macro_export]
macro_rules! with_item {
    ($name:expr, $f:ident ( $($arg:expr),* )) => {{
        use dash7::{app::{action::*, command::Command, interface::*, operation::*, query::Query},
                    data, file::{self, File}, link, network, physical, session::*, transport, types::VarInt};
        match $name {
            "Action" => $f::<Action>($($arg),*),
            "Command" => $f::<Command>($($arg),*),
            "File" => $f::<File>($($arg),*),
            "InterfaceConfiguration" => $f::<InterfaceConfiguration>($($arg),*),
            "Dash7Config" => $f::<Dash7InterfaceConfiguration>($($arg),*),
            "LoRaWanABP" => $f::<LoRaWANABPInterfaceConfiguration>($($arg),*),
            "LoRaWanOTAA" => $f::<LoRaWANOTAAInterfaceConfiguration>($($arg),*),
            "IndirectInterface" => $f::<IndirectInterface>($($arg),*),
            "Addressee" => $f::<network::Addressee>($($arg),*),
            "QoS" => $f::<QoS>($($arg),*),
            "Dash7Status" => $f::<Dash7InterfaceStatus>($($arg),*),
            "InterfaceStatus" => $f::<InterfaceStatusOperation>($($arg),*),
            #[cfg(feature = "wizzilab")]
            "FinalStatus" => $f::<InterfaceFinalStatusOperation>($($arg),*),
            "Query" => $f::<Query>($($arg),*),
            "FileOffset" => $f::<FileOffset>($($arg),*),
            "Length" => $f::<Length>($($arg),*),
            "VarInt" => $f::<VarInt>($($arg),*),
            "FileHeader" => $f::<data::FileHeader>($($arg),*),
            "Channel" => $f::<physical::Channel>($($arg),*),
            "ChannelHeader" => $f::<physical::ChannelHeader>($($arg),*),
            "ChannelStatus" => $f::<physical::ChannelStatus>($($arg),*),
            "SubBand" => $f::<physical::SubBand>($($arg),*),
            "SubProfile" => $f::<link::SubProfile>($($arg),*),
            "AccessClass" => $f::<link::AccessClass>($($arg),*),
            "AccessProfile" => $f::<link::AccessProfile>($($arg),*),
            "FactorySettings" => $f::<file::FactorySettings>($($arg),*),
            "FirmwareVersion" => $f::<file::FirmwareVersion>($($arg),*),
            "EngineeringMode" => $f::<file::EngineeringMode>($($arg),*),
            "PhyStatus" => $f::<file::PhyStatus>($($arg),*),
            "DllConfig" => $f::<file::DllConfig>($($arg),*),
            "DllStatus" => $f::<file::DllStatus>($($arg),*),
            "SecurityKey" => $f::<file::SecurityKey>($($arg),*),
            "BackgroundFrame" => $f::<link::BackgroundFrame>($($arg),*),
            "ForegroundFrame" => $f::<link::ForegroundFrame>($($arg),*),
            "NetworkFrame" => $f::<network::Frame>($($arg),*),
            "TransportFrame" => $f::<transport::Frame>($($arg),*),
            "LoRaWanBase" => $f::<LoRaWANInterfaceConfiguration>($($arg),*),
            #[cfg(feature = "wizzilab")]
            "TxStatus" => $f::<InterfaceTxStatusOperation>($($arg),*),
            #[cfg(feature = "wizzilab")]
            "FinalCode" => $f::<InterfaceFinalStatusCode>($($arg),*),
            "FilePermissions" => $f::<data::FilePermissions>($($arg),*),
            "PropertyByte" => $f::<data::FileProperties>($($arg),*),
            "ActionStatus" => $f::<ActionStatus>($($arg),*),
            "Permission" => $f::<Permission>($($arg),*),
            "PermissionLevel" => $f::<PermissionLevel>($($arg),*),
            "EngineeringMethod" => $f::<file::EngineeringModeMethod>($($arg),*),
            "TransportControl" => $f::<transport::Control>($($arg),*),
            "AckTemplate" => $f::<transport::AckTemplate>($($arg),*),
            "NetworkControl" => $f::<network::Control>($($arg),*),
            "HoppingControl" => $f::<network::HoppingControl>($($arg),*),
            "BackgroundControl" => $f::<link::BackgroundFrameControl>($($arg),*),
            "ForegroundControl" => $f::<link::ForegroundFrameControl>($($arg),*),
            n => panic!("harness: no item {}", n),
        }
    }};
}

/// "inc" when the error says that more data is needed
pub fn class<T>(r: &Result<T, DekuError>) -> &'static str {
    match r {
        Ok(_) => "ok",
        Err(DekuError::Incomplete(_)) => "inc",
        Err(_) => "bad",
    }
}
