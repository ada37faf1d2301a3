//! Coding has no memory: what the library did before, also what it refused, must not show in what it does next.
//! These are the things that happen between two cases, their results are of no interest.
use crate::io::{Sink, Stream};
use dash7::app::{action::Action, command::Command, operation::*, query::*};
use dash7::file::File;
use dash7::link::{AccessClass, ForegroundFrame, SubProfile};
use dash7::session::InterfaceStatus;
use dash7::types::VarInt;
use deku::prelude::*;
use std::io::ErrorKind;

/// commands that cannot be encoded, refused at different depths and after different numbers of bytes
pub fn unfit() -> Vec<Command> {
    let long = VarInt::new_unchecked(600_000, false);
    let mut profile = dash7::file::AccessProfile::<3> { profile: Default::default() };
    profile.profile.sub_profiles[2] = SubProfile { subband_bitmap: 3, scan_automation_period: long };
    let data = Action::WriteFileData(FileData::new(
        Default::default(),
        FileOffset { file_id: 0x23, offset: 4u32.into() },
        File::AccessProfile03(profile),
        dash7::app::action::OpCode::WRITE_FILE_DATA,
    ));
    let query = Action::ActionQuery(ActionQuery {
        query: Query::ComparisonWithZero(ComparisonWithZero::new(
            Default::default(),
            vec![1, 2],
            FileOffset { file_id: 4, offset: (1u32 << 30).into() },
        )),
        ..Default::default()
    });
    let read = Action::ReadFileData(ReadFileData { length: u32::MAX.into(), ..Default::default() });
    let mut addressee = dash7::network::Addressee::default();
    addressee.access_class = AccessClass { specifier: 31, mask: 1 };
    let status: Action = {
        let s = dash7::session::Dash7InterfaceStatus {
            channel: Default::default(),
            rx_level: 1,
            link_budget: 2,
            target_rx_level: 3,
            nls: false,
            missed: false,
            retry: false,
            unicast: true,
            fifo_token: 4,
            sequence_number: 5,
            response_timeout: 6.into(),
            addressee: addressee.clone(),
        };
        Action::Status(Into::<Status>::into(InterfaceStatusOperation::from(InterfaceStatus::Dash7(s))).into())
    };
    let forward = Action::IndirectForward(IndirectForward::new(
        true,
        Some(dash7::app::interface::IndirectInterface::Dash7(addressee)),
    ));
    let nop = || Action::Nop(Default::default());
    vec![
        Command { actions: vec![data] },
        Command { actions: vec![nop(), query] },
        Command { actions: vec![read, nop()] },
        Command { actions: vec![nop(), status] },
        Command { actions: vec![forward] },
    ]
}

pub fn disturb(n: usize, last: &[u8], unfit: &[Command]) {
    let b = &last[..last.len().min(400)];
    let _ = match n % 8 {
        0 => crate::guarded(|| drop(Command::from_bytes((&b[..b.len() / 2], 0)))),
        1 => crate::guarded(|| drop(Action::from_bytes((&b[..b.len().saturating_sub(1)], 0)))),
        2 | 6 => crate::guarded(|| drop(unfit[n / 8 % unfit.len()].to_bytes())),
        3 => crate::guarded(|| {
            let mut s = Stream::new(b.to_vec(), 0);
            s.fault = Some((b.len() * 2 / 3, ErrorKind::Other));
            drop(Command::from_reader((&mut s, 0)))
        }),
        4 => crate::guarded(|| {
            let mut c = b.to_vec();
            c.push(0x3E);
            drop(Command::try_from(&c[..]));
            if let Some(x) = c.first_mut() {
                *x ^= 0x15;
            }
            drop(Command::try_from(&c[..]))
        }),
        5 => crate::guarded(|| drop(ForegroundFrame::try_from(b))),
        _ => crate::guarded(|| {
            let mut w = Sink::new();
            let mut writer = Writer::new(&mut w);
            drop(DekuWriter::to_writer(&unfit[n / 8 % unfit.len()], &mut writer, 0u32));
        }),
    };
}

/// what another thread is busy with meanwhile
pub static OTHER: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(vec![]);

pub fn elsewhere() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_micros(300));
        let b = OTHER.lock().map(|b| b.clone()).unwrap_or_default();
        let _ = crate::guarded(|| {
            if let Ok((_, c)) = Command::from_bytes((&b, 0)) {
                drop(c.to_bytes());
                drop(c.to_string());
            }
            if let Ok((_, f)) = <ForegroundFrame as DekuContainerRead>::from_bytes((&b, 0)) {
                drop(DekuContainerWrite::to_bytes(&f));
            }
        });
    });
}
