//! Complete tables of the small codes, run-length compressed, for the specification to judge.
use crate::guarded;
use dash7::app::action::OpCode;
use dash7::app::operation::{Length, StatusCode};
use dash7::file::{AccessProfile, FileId, FirmwareVersion, SystemFile};
use dash7::session::InterfaceType;
use dash7::types::VarInt;
use deku::prelude::*;
use std::fs::File;
use std::io::{BufWriter, Write};

fn json(b: &[u8]) -> String {
    values::json::bytes_json(b).render()
}

/// the encoding of a length, provided that it is read back as that length, whatever follows
fn length(n: u32, tail: bool) -> Option<Vec<u8>> {
    let b = DekuContainerWrite::to_bytes(&Length::from(n)).ok()?;
    let mut c = b.clone();
    if tail {
        c.push(n as u8);
    }
    let ((rest, off), l) = Length::from_bytes((&c, 0)).ok()?;
    let m: u32 = l.into();
    if m == n && off == 0 && rest.len() == tail as usize {
        Some(b)
    } else {
        Some(vec![])
    }
}

fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a << 8 | *x as u64)
}

/// Maximal runs lo..hi of numbers whose encodings have the same size and count up by one; what is refused
/// has size 0 and what does not come back is never part of a run.
fn runs(lo: u32, hi: u32, step: u32) -> Vec<(u32, u32, Vec<u8>, Vec<u8>)> {
    let mut out: Vec<(u32, u32, Vec<u8>, Vec<u8>)> = vec![];
    let mut n = lo as u64;
    while n <= hi as u64 {
        let b = match guarded(|| length(n as u32, n % 16 == 3)) {
            Ok(Some(b)) if b.is_empty() => vec![0; 9],
            Ok(Some(b)) => b,
            Ok(None) => vec![],
            Err(_) => vec![0; 8],
        };
        match out.last_mut() {
            Some(l)
                if l.3.len() == b.len()
                    && b.len() < 8
                    && (b.is_empty() || be(&b) == be(&l.3) + (n - l.1 as u64))
                    && n - l.1 as u64 == step as u64 =>
            {
                l.1 = n as u32;
                l.3 = b;
            }
            _ => out.push((n as u32, n as u32, b.clone(), b)),
        }
        if out.len() > 200 {
            break;
        }
        if n % 4096 == 0 {
            crate::tick();
        }
        n += step as u64;
    }
    out
}

pub fn lengths(full: bool, out: &str) {
    let mut out = BufWriter::new(File::create(out).expect("harness: table"));
    // everything, or everything up to the last change of size and a selection above
    let (parts, size) = if full { (64, 1u64 << 24) } else { (16, 1u64 << 18) };
    let next = std::sync::atomic::AtomicU64::new(0);
    let found = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= parts {
                    break;
                }
                let r = runs((i * size) as u32, ((i + 1) * size - 1) as u32, 1);
                found.lock().unwrap().push(r);
            });
        }
    });
    let mut all = found.into_inner().unwrap();
    all.sort_by_key(|r| r[0].0);
    if full {
        all.push(runs(1 << 30, (1 << 30) + (1 << 20), 1));
    } else {
        all.push(runs(4194304, 4194304 + 4096, 1));
        all.push(runs((1 << 30) - 4096, (1 << 30) + 4096, 1));
        all.push(runs(131072, (1 << 30) - 1, 65537));
    }
    all.push(runs(1 << 30, u32::MAX, 1048573));
    all.push(runs(u32::MAX - 1000, u32::MAX, 1));
    for (i, r) in all.iter().enumerate() {
        for (lo, hi, a, b) in r {
            writeln!(
                out,
                "{{\"part\":{},\"lo\":{},\"hi\":{},\"first\":{},\"last\":{}}}",
                i,
                json(&lo.to_be_bytes()),
                json(&hi.to_be_bytes()),
                json(a),
                json(b)
            )
            .expect("harness: table");
        }
    }
}

/// -1 in e: refused, -2: panicked, -3: the ways to compress disagree
fn compressed(n: u32, up: bool) -> (i32, i32) {
    crate::tick();
    guarded(|| {
        let c = VarInt::compress(n, up);
        let v = VarInt::new(n, up);
        let w = DekuContainerWrite::to_bytes(&VarInt::new_unchecked(n, up));
        let valid = VarInt::is_valid(n);
        if VarInt::from(n) != VarInt::new_unchecked(n, false) {
            return (-3, 0);
        }
        match (c, v, w, valid) {
            (Ok((e, m)), Ok(v), Ok(w), true) => {
                let back: u32 = v.into();
                let made = DekuContainerWrite::to_bytes(&v).unwrap_or_default();
                if back == n && w == vec![e * 32 + m] && made == w {
                    (e as i32, m as i32)
                } else {
                    (-3, 0)
                }
            }
            (Err(_), Err(_), Err(_), false) => (-1, 0),
            _ => (-3, 0),
        }
    })
    .unwrap_or((-2, 0))
}

pub fn varints(out: &str) {
    let mut out = BufWriter::new(File::create(out).expect("harness: table"));
    for up in [false, true] {
        let mut cur: Option<(u32, u32, (i32, i32))> = None;
        let mut flush = |c: &Option<(u32, u32, (i32, i32))>| {
            if let Some((lo, hi, (e, m))) = c {
                writeln!(
                    out,
                    "{{\"k\":\"compress\",\"up\":{},\"lo\":{},\"hi\":{},\"e\":{},\"m\":{}}}",
                    up, lo, hi, e, m
                )
                .expect("harness: table");
            }
        };
        for n in 0..600_000u32 {
            let x = compressed(n, up);
            match &mut cur {
                Some(c) if c.2 == x => c.1 = n,
                _ => {
                    flush(&cur);
                    cur = Some((n, n, x));
                }
            }
        }
        flush(&cur);
        let mut bad = 0;
        let mut n = 600_000u64;
        while n <= u32::MAX as u64 {
            if compressed(n as u32, up).0 != -1 {
                bad += 1;
            }
            n += 9973;
        }
        for i in 0..32 {
            for d in [0i64, 1, -1] {
                let m = (1i64 << i) + d;
                if m > 600_000 && compressed(m as u32, up).0 != -1 {
                    bad += 1;
                }
            }
        }
        if compressed(u32::MAX, up).0 != -1 {
            bad += 1;
        }
        writeln!(out, "{{\"k\":\"beyond\",\"up\":{},\"accepted\":{}}}", up, bad).expect("harness: table");
    }
    for e in 0..=255u8 {
        // a row: the values of the mantissas that are accepted
        let row: Vec<i64> = (0..=255u8)
            .map(|m| guarded(|| VarInt::decompress(e, m).map(|v| v as i64).unwrap_or(-1)).unwrap_or(-2))
            .collect();
        writeln!(
            out,
            "{{\"k\":\"expand\",\"e\":{},\"row\":[{}]}}",
            e,
            row.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
        )
        .expect("harness: table");
    }
    for b in 0..=255u8 {
        let r = guarded(|| {
            let both = [b, 77];
            let ((rest, o), v) = VarInt::from_bytes((&both, 0)).ok()?;
            let n: u32 = v.into();
            if rest != [77] || o != 0 {
                return None;
            }
            Some((n, DekuContainerWrite::to_bytes(&v).ok()?))
        })
        .unwrap_or(None);
        let (n, w) = r.map(|(n, w)| (n as i64, w)).unwrap_or((-1, vec![]));
        writeln!(out, "{{\"k\":\"byte\",\"b\":{},\"n\":{},\"w\":{}}}", b, n, json(&w)).expect("harness: table");
    }
}

pub fn ids(out: &str) {
    let mut out = BufWriter::new(File::create(out).expect("harness: table"));
    macro_rules! rows {
        ($t:ty, $kind:expr) => {
            for n in 0..=255u8 {
                let r = guarded(|| {
                    let a = <$t>::try_from(n).ok()?;
                    let both = [n, 1];
                    let ((rest, _), b) = <$t>::from_bytes((&both, 0)).ok()?;
                    if a != b || rest != [1] {
                        return None;
                    }
                    Some(a)
                })
                .unwrap_or(None);
                let name = r.as_ref().map(|x| format!("{:?}", x)).unwrap_or("refused".into());
                let number = match &r {
                    None => -1,
                    Some(x) => guarded(|| {
                        let k: u8 = x.clone().into();
                        k as i32
                    })
                    .unwrap_or(-1),
                };
                let bytes = match &r {
                    None => vec![],
                    Some(x) => guarded(|| DekuContainerWrite::to_bytes(x).unwrap_or_default()).unwrap_or_default(),
                };
                let name: String = name.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
                writeln!(
                    out,
                    "{{\"k\":\"{}\",\"n\":{},\"name\":\"{}\",\"number\":{},\"bytes\":{}}}",
                    $kind,
                    n,
                    name,
                    number,
                    json(&bytes)
                )
                .expect("harness: table");
            }
        };
    }
    rows!(FileId, "file");
    rows!(InterfaceType, "interface");
    let mut own = |name: &str, id: u8, specifier: i32| {
        writeln!(
            out,
            "{{\"k\":\"own\",\"n\":{},\"name\":\"{}\",\"number\":{},\"bytes\":[]}}",
            id, name, specifier
        )
        .expect("harness: table");
    };
    own("FirmwareVersion", <FirmwareVersion as SystemFile>::ID, -1);
    macro_rules! profiles {
        ($($n:literal),*) => {
            $(own(
                &format!("AccessProfile{:02}", $n),
                <AccessProfile<$n> as SystemFile>::ID,
                AccessProfile::<$n> { profile: Default::default() }.specifier() as i32,
            );)*
        };
    }
    profiles!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14);
    let mut code = |kind: &str, name: &str, n: u8, number: i32, bytes: Vec<u8>| {
        writeln!(
            out,
            "{{\"k\":\"{}\",\"n\":{},\"name\":\"{}\",\"number\":{},\"bytes\":{}}}",
            kind, n, name, number, json(&bytes)
        )
        .expect("harness: table");
    };
    // the two bits in front of an operation code are zero
    macro_rules! ops {
        ($($n:ident),*) => { $(code("op", stringify!($n), OpCode::$n.0, 0,
            DekuContainerWrite::to_bytes(&OpCode::$n).unwrap_or_default().into_iter().map(|b| b >> 2).collect());)* };
    }
    macro_rules! statuses {
        ($($n:ident),*) => { $(code("status", stringify!($n), StatusCode::$n.0, StatusCode::$n.is_err() as i32,
            DekuContainerWrite::to_bytes(&StatusCode::$n).unwrap_or_default());)* };
    }
    ops!(NOP, READ_FILE_DATA, READ_FILE_PROPERTIES, WRITE_FILE_DATA, WRITE_FILE_DATA_FLUSH, WRITE_FILE_PROPERTIES, ACTION_QUERY, BREAK_QUERY, PERMISSION_REQUEST, VERIFY_CHECKSUM, EXIST_FILE, CREATE_NEW_FILE, DELETE_FILE, RESTORE_FILE, FLUSH_FILE, COPY_FILE, EXECUTE_FILE, RETURN_FILE_DATA, RETURN_FILE_PROPERTIES, STATUS, RESPONSE_TAG, CHUNK, LOGIC, FORWARD, INDIRECT_FORWARD, REQUEST_TAG, EXTENSION);
    #[cfg(feature = "wizzilab")]
    ops!(TX_STATUS);
    statuses!(OK, RECEIVED, ITF_FULL, FILE_ID_MISSING, CREATE_FILE_ID_ALREADY_EXIST, FILE_IS_NOT_RESTORABLE, INSUFFICIENT_PERMISSION, CREATE_FILE_LENGTH_OVERFLOW, CREATE_FILE_ALLOCATION_OVERFLOW, WRITE_OFFSET_OVERFLOW, WRITE_DATA_OVERFLOW, WRITE_STORAGE_UNAVAILABLE, UNKNOWN_OPERATION, OPERATION_INCOMPLETE, OPERATION_WRONG_FORMAT, UNKNOWN_ERROR);
}
