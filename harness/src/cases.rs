//! Replays the cases the specification generates against the code under test.
use crate::build;
use values::dbg;
use crate::io::{Sink, Stream};
use crate::item::{class, Item};
use values::json::V;
use crate::with_item;
use dash7::app::{
    action::{Action, OpCode},
    command::Command,
    operation::*,
    query::{ArithmeticComparisonType, ArithmeticQueryParams, ComparisonWithValue, Query},
};
use dash7::network::Addressee;
use dash7::types::VarInt;
use deku::prelude::*;
use std::fmt::Debug;
use std::io::ErrorKind;

pub type Res = Result<(), String>;

#[derive(Default)]
pub struct Stats {
    pub known: Vec<(String, String)>, // finding, case
    pub built: u64,
    pub shown: u64,
    pub encodes: u64,
    pub decodes: u64,
}

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
pub(crate) use ensure;

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 96 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn short<T: Debug>(t: &T) -> String {
    let s = format!("{:?}", t);
    if s.len() > 700 {
        s.chars().take(700).collect::<String>() + ".."
    } else {
        s
    }
}

fn id(c: &V) -> u8 {
    c.get("id").map(|v| v.u8()).unwrap_or(0)
}

/// decodes and returns (bytes consumed, value), having checked that the remainder is a suffix
pub fn decode<T: Item>(b: &[u8], id: u8) -> Result<Result<(usize, T), DekuError>, String> {
    match T::bytes(b, id) {
        Ok((rest, off, v)) => {
            ensure!(off == 0, "remainder starts inside a byte (bit {})", off);
            ensure!(
                rest.len() <= b.len() && rest == &b[b.len() - rest.len()..],
                "the remainder {} is not the end of the input {}",
                hex(rest),
                hex(b)
            );
            Ok(Ok((b.len() - rest.len(), v)))
        }
        Err(e) => Ok(Err(e)),
    }
}

/// the decoded value is the one of the specification
pub fn is_value<T: Item>(v: &V, x: &T, st: &mut Stats) -> Res {
    match T::build(v) {
        Some(want) => {
            st.built += 1;
            ensure!(*x == want, "decoded {} instead of {}", short(x), short(&want));
            // whatever counts as equal
            ensure!(format!("{:?}", x) == format!("{:?}", want), "decoded {} instead of {}", short(x), short(&want));
        }
        None => {
            st.shown += 1;
            dbg::shows(v, &format!("{:?}", x))?;
        }
    }
    Ok(())
}

pub fn run(c: &V, st: &mut Stats) -> Res {
    let t = c.get("t").map(|t| t.str()).unwrap_or("Command");
    match c.at("k").str() {
        "rt" => with_item!(t, roundtrip(c, st)),
        "dec" => with_item!(t, dec(c, st)),
        "cut" => with_item!(t, cut(c, st)),
        "tail" => with_item!(t, tail(c, st)),
        "sweep" => with_item!(t, sweep(c, st)),
        "stable" => with_item!(t, stable(c, st)),
        "io" => with_item!(t, reading(c, st)),
        "wr" => with_item!(t, writing(c, st)),
        "fit" => with_item!(t, fit(c, st)),
        "enc" => with_item!(t, put(c, st)),
        "new" => with_item!(t, fresh(c, st)),
        "nil" => with_item!(t, empty(st)),
        "part" => part(c, st),
        "cmd" => cmd(c, st),
        "many" => many(c, st),
        "huge" => huge(c, st),
        "hist" => crate::together::together(c, st),
        "insp" => inspect(c, st),
        "show" => show(c, st),
        "upd" => update(c, st),
        "op" => opcode(c, st),
        "code" => status_code(c),
        "usz" => usize_length(c),
        k => panic!("harness: no case kind {}", k),
    }
}

fn encoded<T: Item>(c: &V, x: &T, b: &[u8], st: &mut Stats) -> Result<bool, String> {
    st.encodes += 1;
    let e = x.enc().map_err(|e| format!("encoding {} failed: {:?}", short(x), e))?;
    if e != b {
        if let Some(kb) = c.get("kb") {
            if e == kb.bytes() {
                st.known.push(("K1".into(), short(x)));
                return Ok(false);
            }
        }
        return Err(format!("{} is encoded as {} instead of {}", short(x), hex(&e), hex(b)));
    }
    Ok(true)
}

/// value <-> bytes, exactly
fn roundtrip<T: Item>(c: &V, st: &mut Stats) -> Res {
    let b = c.at("b").bytes();
    let v = c.at("v");
    st.decodes += 1;
    let (n, y) = decode::<T>(&b, id(c))?.map_err(|e| format!("decoding {} failed: {:?}", hex(&b), e))?;
    ensure!(n == b.len(), "decoding {} leaves {} bytes", hex(&b), b.len() - n);
    is_value(v, &y, st)?;
    if let Some(r) = T::slice(&b) {
        let z = r.map_err(|e| format!("converting {} failed: {:?}", hex(&b), e))?;
        ensure!(z == y, "conversion gives {} instead of {}", short(&z), short(&y));
    }
    if let Some(x) = T::build(v) {
        if encoded(c, &x, &b, st)? {
            let into = x.enc_into();
            if let Some(r) = into {
                ensure!(r.as_ref() == Ok(&b), "conversion to bytes gives {:?}", r);
            }
            // the kind of an action alone makes its operation code
            if let Some(a) = (&x as &dyn std::any::Any).downcast_ref::<Action>() {
                for n in [0, 1, 34, 63, 255] {
                    encoded(c, &build::reopcode(a, n), &b, st)?;
                }
            }
        }
    } else {
        encoded(c, &y, &b, st)?;
    }
    Ok(())
}

/// only written
fn put<T: Item>(c: &V, st: &mut Stats) -> Res {
    if let Some(x) = T::build(c.at("v")) {
        st.built += 1;
        encoded(c, &x, &c.at("b").bytes(), st)?;
    }
    Ok(())
}

/// a value just made is in sync: it is what its encoding means and there is nothing to update
fn fresh<T: Item>(c: &V, st: &mut Stats) -> Res {
    let v = c.at("v");
    let b = c.at("b").bytes();
    let (_, y) = decode::<T>(&b, id(c))?.map_err(|e| format!("decoding {} failed: {:?}", hex(&b), e))?;
    let made = match build::constructed(|| T::build(v)) {
        Some(x) => x,
        // there is no constructor for a query with a mask of no bytes
        None if c.at("t").str() == "Query" => return Ok(()),
        None => y.clone(),
    };
    ensure!(made == y, "{} is constructed, not {}", short(&made), short(&y));
    if let Some(given) = T::build(v) {
        st.built += 1;
        ensure!(made == given, "{} is constructed, not {}", short(&made), short(&given));
    }
    in_sync(made, &b, st)
}

fn in_sync<T: Item>(x: T, b: &[u8], st: &mut Stats) -> Res {
    let mut u = x.clone();
    if let Some(r) = u.update() {
        r.map_err(|e| format!("updating {} failed: {:?}", short(&x), e))?;
        ensure!(u == x, "updating {} makes it {}", short(&x), short(&u));
    }
    st.encodes += 2;
    for z in [&x, &u] {
        let e = z.enc().map_err(|e| format!("encoding {} failed: {:?}", short(z), e))?;
        ensure!(e == b, "{} is encoded as {} instead of {}", short(z), hex(&e), hex(b));
    }
    Ok(())
}

/// the default value is what its encoding means
fn empty<T: Item>(st: &mut Stats) -> Res {
    let x = match T::empty() {
        Some(x) => x,
        None => return Ok(()),
    };
    let b = x.enc().map_err(|e| format!("encoding the default {} failed: {:?}", short(&x), e))?;
    st.decodes += 1;
    let (n, y) = decode::<T>(&b, 0xff)?.map_err(|e| format!("decoding the default, {}, failed: {:?}", hex(&b), e))?;
    ensure!(n == b.len() && x == y, "the default {} comes back as {}", short(&x), short(&y));
    in_sync(x, &b, st)
}

/// what any input means
fn dec<T: Item>(c: &V, st: &mut Stats) -> Res {
    let b = c.at("in").bytes();
    st.decodes += 1;
    let d = decode::<T>(&b, id(c))?;
    let want = c.at("r").str();
    let strict = T::slice(&b);
    match (&d, want) {
        (Ok((n, x)), "ok") => {
            let m = c.at("n").int() as usize;
            ensure!(*n == m, "decoding {} takes {} bytes instead of {}", hex(&b), n, m);
            if let Some(v) = c.get("v") {
                is_value(v, x, st)?;
            }
            if let Some(r) = strict {
                if m == b.len() {
                    ensure!(r.as_ref() == Ok(x), "conversion of {} gives {}", hex(&b), short(&r));
                } else {
                    ensure!(r.is_err(), "conversion of {} accepts {} bytes too many", hex(&b), b.len() - m);
                }
            }
        }
        (Err(e), "ok") => return Err(format!("decoding {} failed: {:?}", hex(&b), e)),
        (Ok((n, x)), _) => {
            return Err(format!("{} is accepted as {} ({} bytes), it should not be", hex(&b), short(x), n))
        }
        (Err(e), w) => {
            if c.has("must") {
                ensure!(class(&d) == w, "decoding {} reports {:?} instead of incomplete data", hex(&b), e);
            }
            if let Some(r) = strict {
                ensure!(r.is_err(), "conversion of {} gives {}", hex(&b), short(&r));
            }
        }
    }
    Ok(())
}

/// contents of a file of some length, whatever follows
fn part(c: &V, st: &mut Stats) -> Res {
    let b = c.at("in").bytes();
    let len = c.at("len").int() as u32;
    let fid = || dash7::file::FileId::try_from(id(c)).unwrap();
    st.decodes += 2;
    let d = dash7::file::File::from_bytes((&b, 0), fid(), len);
    let mut s = Stream::new(b.clone(), 0);
    let r = {
        let mut r = Reader::new(&mut s);
        dash7::file::File::from_reader_with_ctx(&mut r, (fid(), len)).map(|x| (r.bits_read, x))
    };
    match (d, r, c.at("r").str()) {
        (Ok(((rest, odd), x)), Ok((bits, y)), "ok") => {
            is_value(c.at("v"), &x, st)?;
            ensure!(x == y, "{} bytes of {} are read as {} or as {}", len, hex(&b), short(&x), short(&y));
            let n = len as usize;
            ensure!(
                odd == 0 && rest == &b[n..] && bits == 8 * n && s.pos == n,
                "{} bytes of {}: {} are left over, {} bits and {} bytes read", len, hex(&b), hex(rest), bits, s.pos
            );
        }
        (Err(_), Err(_), w) if w != "ok" => {}
        (d, r, w) => return Err(format!("{} bytes of {}: decoded {}, read {}, should be {}", len, hex(&b), short(&d), short(&r), w)),
    }
    Ok(())
}

/// every proper prefix is incomplete (for commands: unless it ends between two actions)
fn cut<T: Item>(c: &V, st: &mut Stats) -> Res {
    let b = c.at("b").bytes();
    let ends: Option<Vec<usize>> = c.get("ends").map(|e| e.arr().iter().map(|x| x.int() as usize).collect());
    for k in 0..b.len() {
        let p = &b[..k];
        st.decodes += 1;
        let d = decode::<T>(p, id(c))?;
        if let Some(es) = &ends {
            let before = if k == 0 { Some(0) } else { es.iter().position(|e| *e == k).map(|i| i + 1) };
            if let Some(i) = before {
                let v = V::Arr(c.at("v").arr()[..i].to_vec());
                match &d {
                    Ok((n, x)) => {
                        ensure!(*n == k, "prefix {} takes {} bytes", hex(p), n);
                        is_value(&v, x, st)?;
                    }
                    Err(e) => {
                        return Err(format!("the first {} actions of a command, {}, are refused: {:?}", i, hex(p), e))
                    }
                }
                continue;
            }
        }
        ensure!(
            class(&d) == "inc",
            "{} cut to {} bytes is not reported as incomplete but: {}",
            hex(&b),
            k,
            short(&d)
        );
        if let Some(r) = T::slice(p) {
            ensure!(class(&r) == "inc", "{} cut to {} bytes is converted to {}", hex(&b), k, short(&r));
        }
        let mut s = Stream::new(p.to_vec(), 0);
        let r = T::reader(&mut s, id(c), k);
        ensure!(class(&r) == "inc", "{} cut to {} bytes is read as {}", hex(&b), k, short(&r));
    }
    Ok(())
}

/// what follows an item is left alone
fn tail<T: Item>(c: &V, st: &mut Stats) -> Res {
    let b = c.at("b").bytes();
    series::<T>(c, &b, c.get("series").map(|n| n.int() as usize).unwrap_or(300), st)?;
    let mut tails: Vec<Vec<u8>> = c.at("tails").arr().iter().map(|t| t.bytes()).collect();
    // so much that this is the length of all of it
    for total in c.get("totals").map(|t| t.arr().to_vec()).unwrap_or_default() {
        let n = (total.int() as usize).saturating_sub(b.len());
        tails.push((0..n).map(|i| (i * 7 + n) as u8).collect());
    }
    for t in tails {
        let mut whole = b.clone();
        whole.extend_from_slice(&t);
        st.decodes += 1;
        let (n, x) =
            decode::<T>(&whole, id(c))?.map_err(|e| format!("decoding {} failed: {:?}", hex(&whole), e))?;
        ensure!(n == b.len(), "decoding {} takes {} bytes instead of {}", hex(&whole), n, b.len());
        is_value(c.at("v"), &x, st)?;
        if let Some(r) = T::slice(&whole) {
            ensure!(
                r.is_err() == !t.is_empty(),
                "strict conversion of {} with {} bytes too many: {}",
                hex(&whole),
                t.len(),
                short(&r)
            );
        }
        let mut s = Stream::new(whole.clone(), 0);
        let (bits, y) =
            T::reader(&mut s, id(c), whole.len()).map_err(|e| format!("reading {} failed: {:?}", hex(&whole), e))?;
        ensure!(bits == 8 * b.len(), "reading {} takes {} bits instead of {}", hex(&whole), bits, 8 * b.len());
        ensure!(y == x, "reading gives {} instead of {}", short(&y), short(&x));
        ensure!(s.pos == b.len(), "the stream is left at {} instead of {}", s.pos, b.len());
        // an item that does not start with the input
        for k in [1, t.len(), 2 * t.len() + 1] {
            let k = k.min(120); // deku skips up to 128 bytes
            let mut data = vec![0xEE; k];
            data.extend_from_slice(&whole);
            let (rest, odd, z) = T::bytes_at(&data, id(c), k)
                .map_err(|e| format!("decoding {} behind {} bytes failed: {:?}", hex(&whole), k, e))?;
            ensure!(z == x, "behind {} bytes {} is {} instead of {}", k, hex(&whole), short(&z), short(&x));
            ensure!(
                rest == &t[..] && odd == 0,
                "decoding {} behind {} bytes leaves {} (bit {}) instead of {}",
                hex(&whole), k, hex(rest), odd, hex(&t)
            );
        }
    }
    Ok(())
}

/// one reader and one writer for many items, one behind the other
fn series<T: Item>(c: &V, b: &[u8], total: usize, st: &mut Stats) -> Res {
    if b.is_empty() {
        return Ok(());
    }
    let x = decode::<T>(b, id(c))?.map_err(|e| format!("decoding {} failed: {:?}", hex(b), e))?.1;
    let times = 2 + total / b.len();
    let all = b.repeat(times);
    let mut s = Stream::new(all.clone(), 0);
    {
        let mut r = Reader::new(&mut s);
        for i in 0..times {
            st.decodes += 1;
            let y = T::step(&mut r, id(c), b.len()).map_err(|e| format!("reading {} for the {}. time failed: {:?}", hex(b), i + 1, e))?;
            ensure!(y == x, "the {}. {} is read as {} instead of {}", i + 1, hex(b), short(&y), short(&x));
            ensure!(r.bits_read == 8 * b.len() * (i + 1), "having read {} {} times {} bits count as read", hex(b), i + 1, r.bits_read);
        }
    }
    ensure!(s.pos == all.len(), "{} of {} times {} are read", s.pos, times, hex(b));
    let once = x.enc().map_err(|e| format!("encoding {} failed: {:?}", short(&x), e))?;
    let mut w = Sink::new();
    {
        let mut writer = Writer::new(&mut w);
        for i in 0..times {
            st.encodes += 1;
            x.put(&mut writer).map_err(|e| format!("writing {} for the {}. time failed: {:?}", short(&x), i + 1, e))?;
        }
        writer.finalize().map_err(|e| format!("writing {} {} times fails in the end: {:?}", short(&x), times, e))?;
    }
    ensure!(w.out == once.repeat(times), "{} written {} times is {}", short(&x), times, hex(&w.out));
    Ok(())
}

/// all values of one byte: refused or accepted, up to where, and how they are written again
fn sweep<T: Item>(c: &V, st: &mut Stats) -> Res {
    let mut b = c.at("b").bytes();
    let pos = c.at("pos").int() as usize;
    let cls = c.at("cls").arr();
    let table = |k: &str| -> std::collections::HashMap<i64, Vec<u8>> {
        c.at(k).arr().iter().map(|e| (e.arr()[0].int(), e.arr()[1].bytes())).collect()
    };
    let (canon, kb) = (table("canon"), table("kb"));
    let judged = |what: &str| c.at("judge").arr().iter().any(|j| j.str() == what);
    for x in 0..256usize {
        b[pos] = x as u8;
        st.decodes += 1;
        let d = decode::<T>(&b, id(c))?;
        let want = cls[x].int(); // -1 undefined, -2 incomplete, otherwise bytes taken
        match (&d, want) {
            (Ok((n, v)), w) if w >= 0 => {
                if *n as i64 != w {
                    if judged("count") {
                        return Err(format!("{} takes {} bytes instead of {}: {}", hex(&b), n, w, short(v)));
                    }
                } else if judged("again") {
                    st.encodes += 1;
                    let e = v.enc().map_err(|e| format!("encoding {} failed: {:?}", short(v), e))?;
                    let full = b[..*n].to_vec();
                    let want = canon.get(&(x as i64)).unwrap_or(&full);
                    if e != *want {
                        if kb.get(&(x as i64)) == Some(&e) {
                            st.known.push(("K1".into(), short(v)));
                        } else {
                            return Err(format!("{} ({}) is written again as {}", hex(&b), short(v), hex(&e)));
                        }
                    }
                }
            }
            (Ok((_, v)), w) => {
                if judged(if w == -2 { "incomplete" } else { "codes" }) {
                    return Err(format!("{} is accepted as {}", hex(&b), short(v)));
                }
            }
            (Err(e), w) if w >= 0 => {
                if judged("codes") {
                    return Err(format!("{} is refused: {:?}", hex(&b), e));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// decode, encode, decode, encode
fn stable<T: Item>(c: &V, st: &mut Stats) -> Res {
    let b = c.at("in").bytes();
    let canon = c.at("b").bytes();
    st.decodes += 1;
    let (_, x) = decode::<T>(&b, id(c))?.map_err(|e| format!("decoding {} failed: {:?}", hex(&b), e))?;
    if !encoded(c, &x, &canon, st)? {
        return Ok(());
    }
    st.decodes += 1;
    let (n, y) =
        decode::<T>(&canon, id(c))?.map_err(|e| format!("decoding the encoding {} failed: {:?}", hex(&canon), e))?;
    ensure!(n == canon.len(), "decoding the encoding {} leaves {} bytes", hex(&canon), canon.len() - n);
    ensure!(x == y, "{} comes back as {}", short(&x), short(&y));
    encoded(c, &y, &canon, st)?;
    Ok(())
}

pub fn kind(s: &str) -> ErrorKind {
    match s {
        "BrokenPipe" => ErrorKind::BrokenPipe,
        "TimedOut" => ErrorKind::TimedOut,
        "WouldBlock" => ErrorKind::WouldBlock,
        "PermissionDenied" => ErrorKind::PermissionDenied,
        "ConnectionReset" => ErrorKind::ConnectionReset,
        "UnexpectedEof" => ErrorKind::UnexpectedEof,
        "WriteZero" => ErrorKind::WriteZero,
        "InvalidData" => ErrorKind::InvalidData,
        "NotConnected" => ErrorKind::NotConnected,
        _ => ErrorKind::Other,
    }
}

/// the same item from any reader
fn reading<T: Item>(c: &V, st: &mut Stats) -> Res {
    let b = c.at("b").bytes();
    let pre = c.at("pre").bytes();
    let mut data = pre.clone();
    data.extend_from_slice(&b);
    data.extend_from_slice(&c.at("post").bytes());
    let len = data.len() - pre.len();
    let mut s = Stream::new(data.clone(), pre.len());
    s.chunks = c.at("chunks").arr().iter().map(|x| x.int() as usize).collect();
    s.interrupts = c.at("intr").bool();
    let fault = c.at("fault").int();
    if fault >= 0 {
        s.fault = Some((pre.len() + fault as usize, kind(c.at("kind").str())));
    }
    st.decodes += 1;
    let r = T::reader(&mut s, id(c), len);
    let at = format!(
        "{} at {} in chunks {:?}, failing at {}",
        hex(&data),
        pre.len(),
        s.chunks,
        fault
    );
    match c.at("r").str() {
        "ok" => {
            let n = c.at("n").int() as usize;
            let (bits, x) = r.map_err(|e| format!("reading {} failed: {:?}", at, e))?;
            is_value(c.at("v"), &x, st)?;
            ensure!(bits == 8 * n, "reading {} counts {} bits instead of {}", at, bits, 8 * n);
            ensure!(s.pos == pre.len() + n, "reading {} leaves the stream at {}", at, s.pos);
            // and the slice has the same
            let (m, y) = decode::<T>(&data[pre.len()..], id(c))?
                .map_err(|e| format!("decoding {} failed: {:?}", hex(&data[pre.len()..]), e))?;
            ensure!(m == n && x == y, "the slice gives {} and the reader {}", short(&y), short(&x));
            // and so it is when asked to skip what comes before
            let k = pre.len();
            st.decodes += 2;
            let mut s = Stream::new(data.clone(), 0);
            s.chunks = c.at("chunks").arr().iter().map(|x| x.int() as usize).collect();
            s.interrupts = c.at("intr").bool();
            let (bits, x) = T::reader_at(&mut s, id(c), len, k)
                .map_err(|e| format!("reading {} skipping {} failed: {:?}", hex(&data), k, e))?;
            ensure!(x == y, "skipping {} of {} the reader gives {} instead of {}", k, hex(&data), short(&x), short(&y));
            ensure!(bits == 8 * (k + n), "reading {} skipping {} counts {} bits", hex(&data), k, bits);
            ensure!(s.pos == k + n, "reading {} skipping {} leaves the stream at {}", hex(&data), k, s.pos);
            let (rest, odd, x) = T::bytes_at(&data, id(c), k)
                .map_err(|e| format!("decoding {} skipping {} failed: {:?}", hex(&data), k, e))?;
            ensure!(x == y, "skipping {} of {} the slice gives {} instead of {}", k, hex(&data), short(&x), short(&y));
            ensure!(
                odd == 0 && rest == &data[k + n..],
                "decoding {} skipping {} leaves {} (bit {})",
                hex(&data),
                k,
                hex(rest),
                odd
            );
        }
        _ => {
            if let Ok((_, x)) = r {
                return Err(format!("reading {} gives {} instead of an error", at, short(&x)));
            }
        }
    }
    Ok(())
}

/// the same bytes into any writer
fn writing<T: Item>(c: &V, st: &mut Stats) -> Res {
    let b = c.at("b").bytes();
    let x = match T::build(c.at("v")) {
        Some(x) => x,
        None => {
            st.decodes += 1;
            decode::<T>(&b, id(c))?.map_err(|e| format!("decoding {} failed: {:?}", hex(&b), e))?.1
        }
    };
    if let Some(r) = x.enc_bits() {
        ensure!(r.as_ref() == Ok(&(b.clone(), 8 * b.len())), "the bits of {} are {:?}", short(&x), r);
    }
    for limit in c.at("limits").arr() {
        let mut w = Sink::new();
        w.chunks = c.at("chunks").arr().iter().map(|x| x.int() as usize).collect();
        let l = limit.int();
        if l >= 0 {
            w.limit = Some((l as usize, kind(c.at("kind").str())));
        }
        st.encodes += 1;
        let r = x.write(&mut w);
        if l < 0 || l as usize >= b.len() {
            ensure!(r.is_ok(), "writing {} failed: {:?}", short(&x), r);
            ensure!(w.out == b, "{} is written as {} instead of {}", short(&x), hex(&w.out), hex(&b));
        } else {
            ensure!(r.is_err(), "writing {} to a writer that fails after {} bytes succeeds", short(&x), l);
            ensure!(b.starts_with(&w.out), "{} is written as {}", short(&x), hex(&w.out));
        }
        // a buffer of that size does as well
        let size = if l < 0 { b.len() + 3 } else { l as usize };
        let mut buf = vec![0xA5u8; size];
        if let Some(r) = x.enc_slice(&mut buf) {
            if size < b.len() {
                ensure!(r.is_err(), "{} bytes hold the {} of {}", size, b.len(), short(&x));
            } else {
                ensure!(r.as_ref() == Ok(&b.len()), "{} put into {} bytes gives {:?}", short(&x), size, r);
                ensure!(buf[..b.len()] == b[..], "{} is put as {} instead of {}", short(&x), hex(&buf), hex(&b));
                ensure!(buf[b.len()..].iter().all(|x| *x == 0xA5), "{} takes more than its bytes: {}", short(&x), hex(&buf));
            }
        }
    }
    Ok(())
}

/// a value fits its field or is refused
fn fit<T: Item>(c: &V, st: &mut Stats) -> Res {
    let x = match T::build(c.at("v")) {
        Some(x) => x,
        None => return Ok(()),
    };
    if c.at("t").str() == "VarInt" {
        let n = c.at("v").u32();
        for ceil in [false, true] {
            let ok = c.at("ok").bool();
            ensure!(VarInt::new(n, ceil).is_ok() == ok, "a duration of {} is {:?}", n, VarInt::new(n, ceil));
            ensure!(VarInt::is_valid(n) == ok, "a duration of {} is{} valid", n, if ok { " not" } else { "" });
            let e = DekuContainerWrite::to_bytes(&VarInt::new_unchecked(n, ceil));
            ensure!(e.is_ok() == ok, "a duration of {} (up: {}) is encoded as {:?}", n, ceil, e);
        }
    }
    st.encodes += 1;
    let r = x.enc();
    if c.at("ok").bool() {
        let b = c.at("b").bytes();
        ensure!(r.as_ref() == Ok(&b), "{} fits but is encoded as {:?} instead of {}", short(&x), r, hex(&b));
    } else {
        ensure!(r.is_err(), "{} does not fit but is encoded as {}", short(&x), hex(&r.clone().unwrap_or_default()));
        if let Some(r) = x.enc_into() {
            ensure!(r.is_err(), "{} does not fit but is converted to {:?}", short(&x), r);
        }
        let mut w = Sink::new();
        ensure!(x.write(&mut w).is_err(), "{} does not fit but is written as {}", short(&x), hex(&w.out));
    }
    Ok(())
}

/// a stream of actions: all at once, one by one, and action by action encoding
fn cmd(c: &V, st: &mut Stats) -> Res {
    let b = c.at("in").bytes();
    let v = c.at("v");
    let n = c.at("n").int() as usize;
    st.decodes += 1;
    let (m, x) = decode::<Command>(&b, 0)?.map_err(|e| format!("decoding {} failed: {:?}", hex(&b), e))?;
    ensure!(m == n, "decoding {} takes {} bytes instead of {}", hex(&b), m, n);
    ensure!(
        x.actions.len() == v.arr().len(),
        "{} holds {} actions instead of {}: {}",
        hex(&b),
        x.actions.len(),
        v.arr().len(),
        short(&x)
    );
    is_value(v, &x, st)?;
    let strict = Command::try_from(b.as_slice());
    if n == b.len() {
        ensure!(strict.as_ref() == Ok(&x), "conversion of {} gives {}", hex(&b), short(&strict));
    } else {
        ensure!(strict.is_err(), "conversion of {} ignores {} bytes", hex(&b), b.len() - n);
    }
    let mut s = Stream::new(b.clone(), 0);
    let (bits, y) = Command::from_reader((&mut s, 0)).map_err(|e| format!("reading {} failed: {:?}", hex(&b), e))?;
    ensure!(bits == 8 * n && y == x, "reading {} gives {} ({} bits)", hex(&b), short(&y), bits);
    // one action after the other
    let mut p = 0;
    for (i, e) in c.at("ends").arr().iter().enumerate() {
        let (k, a) = decode::<Action>(&b[p..], 0)?
            .map_err(|e| format!("decoding action {} at {} of {} failed: {:?}", i, p, hex(&b), e))?;
        ensure!(p + k == e.int() as usize, "action {} of {} ends at {} instead of {}", i, hex(&b), p + k, e.int());
        ensure!(a == x.actions[i], "action {} is {} alone and {} in its command", i, short(&a), short(&x.actions[i]));
        p += k;
    }
    // the encoding is the concatenation of the encodings
    if c.has("canon") {
        let mut cat = vec![];
        for a in &x.actions {
            cat.extend(DekuContainerWrite::to_bytes(a).map_err(|e| format!("encoding {} failed: {:?}", short(a), e))?);
        }
        st.encodes += 1;
        let e = x.to_bytes().map_err(|e| format!("encoding {} failed: {:?}", short(&x), e))?;
        ensure!(e == cat, "{} is encoded as {}, its actions as {}", short(&x), hex(&e), hex(&cat));
        encoded(c, &x, &b[..n], st)?;
        if let Some(w) = Command::build(v) {
            encoded(c, &w, &b[..n], st)?;
        }
    }
    Ok(())
}

/// a command sent over and over is so many copies of it
fn many(c: &V, st: &mut Stats) -> Res {
    let b = c.at("b").bytes();
    let times = c.at("times").int() as usize;
    let (m, x) = decode::<Command>(&b, 0)?.map_err(|e| format!("decoding {} failed: {:?}", hex(&b), e))?;
    ensure!(m == b.len(), "decoding {} takes {} bytes instead of {}", hex(&b), m, b.len());
    is_value(c.at("v"), &x, st)?;
    let all = b.repeat(times);
    let n = x.actions.len();
    let y = Command { actions: (0..n * times).map(|i| x.actions[i % n].clone()).collect() };
    st.decodes += 2;
    let (m, z) = decode::<Command>(&all, 0)?.map_err(|e| format!("decoding {} times {} failed: {:?}", times, hex(&b), e))?;
    ensure!(m == all.len(), "decoding {} times {} takes {} bytes instead of {}", times, hex(&b), m, all.len());
    ensure!(z.actions.len() == n * times, "{} times {} holds {} actions", times, hex(&b), z.actions.len());
    ensure!(z == y, "{} times {} is something else", times, hex(&b));
    ensure!(Command::try_from(all.as_slice()).as_ref() == Ok(&y), "converting {} times {} gives something else", times, hex(&b));
    let mut s = Stream::new(all.clone(), 0);
    let (bits, z) = Command::from_reader((&mut s, 0)).map_err(|e| format!("reading {} times {} failed: {:?}", times, hex(&b), e))?;
    ensure!(bits == 8 * all.len() && z == y, "reading {} times {} gives something else", times, hex(&b));
    st.encodes += 1;
    let e = y.to_bytes().map_err(|e| format!("encoding {} times {} failed: {:?}", times, hex(&b), e))?;
    ensure!(e == all, "{} times {} is encoded as {} bytes", times, hex(&b), e.len());
    Ok(())
}

/// an operand of millions of bytes
fn huge(c: &V, st: &mut Stats) -> Res {
    let (n, fill) = (c.at("n").int() as usize, c.at("fill").u8());
    let f = c.at("f").str();
    let what = format!("{} of {} bytes", f, n);
    let header = ActionHeader { group: false, response: true };
    let offset = FileOffset { file_id: c.at("file_id").u8(), offset: c.at("offset").u32().into() };
    let bytes = vec![fill; n];
    let data = |code| FileData::new(header.clone(), offset.clone(), dash7::file::File::Other(bytes.clone()), code);
    let x = match f {
        "WriteFileData" => Action::WriteFileData(data(OpCode::WRITE_FILE_DATA)),
        "WriteFileDataFlush" => Action::WriteFileDataFlush(data(OpCode::WRITE_FILE_DATA_FLUSH)),
        "ReturnFileData" => Action::ReturnFileData(data(OpCode::RETURN_FILE_DATA)),
        _ => Action::ActionQuery(ActionQuery {
            header: header.clone(),
            opcode: OpCode::ACTION_QUERY,
            query: Query::ComparisonWithValue(ComparisonWithValue::new(
                ArithmeticQueryParams { signed: false, comparison_type: ArithmeticComparisonType::Equal },
                vec![],
                bytes.clone(),
                offset.clone(),
            )),
        }),
    };
    let mut b = c.at("head").bytes();
    b.resize(b.len() + n, fill);
    b.extend_from_slice(&c.at("tail").bytes());
    st.encodes += 1;
    let e = x.enc().map_err(|e| format!("encoding {} failed: {:?}", what, e))?;
    ensure!(e == b, "{} is encoded as {} instead of {}", what, hex(&e), hex(&b));
    st.decodes += 3;
    let (m, y) = decode::<Action>(&b, 0)?.map_err(|e| format!("decoding {} failed: {:?}", what, e))?;
    ensure!(m == b.len() && x == y, "{} is decoded to something else, {} bytes of {}", what, m, b.len());
    match decode::<Command>(&b[..b.len() - 1], 0)? {
        Err(DekuError::Incomplete(_)) => {}
        Err(e) => return Err(format!("{} without its last byte is refused with {:?}", what, e)),
        Ok((m, _)) => return Err(format!("{} without its last byte is a command of {} bytes", what, m)),
    }
    b.push(0);
    let z = Command::try_from(&b[..]).map_err(|e| format!("decoding {} and a nop failed: {:?}", what, e))?;
    ensure!(z.actions.len() == 2 && z.actions[0] == x, "{} and a nop are {} actions", what, z.actions.len());
    ensure!(z.to_bytes().as_ref() == Ok(&b), "{} and a nop are encoded otherwise", what);
    Ok(())
}

fn pick(c: &V, k: &str) -> Option<usize> {
    match c.at(k).int() {
        0 => None,
        i => Some(i as usize - 1),
    }
}

/// a command of constructed actions, or decoded ones where construction is impossible
fn assemble(c: &V) -> Result<Command, String> {
    let mut actions = vec![];
    for (v, b) in c.at("v").arr().iter().zip(c.at("bs").arr()) {
        actions.push(match build::action(v) {
            Some(a) => a,
            None => {
                let b = b.bytes();
                decode::<Action>(&b, 0)?.map_err(|e| format!("decoding {} failed: {:?}", hex(&b), e))?.1
            }
        });
    }
    Ok(Command { actions })
}

fn inspect(c: &V, _st: &mut Stats) -> Res {
    let v = c.at("v");
    let x = assemble(c)?;
    let acts = v.arr();
    let req = pick(c, "req").map(|i| build::request_tag(&acts[i].arr()[1]));
    ensure!(x.request_tag() == req.as_ref(), "request tag of {} is {:?}", short(&x), x.request_tag());
    ensure!(x.request_id() == req.as_ref().map(|t| t.id), "request id of {} is {:?}", short(&x), x.request_id());
    let rsp = pick(c, "resp").map(|i| build::response_tag(&acts[i].arr()[1]));
    ensure!(x.response_tag() == rsp.as_ref(), "response tag of {} is {:?}", short(&x), x.response_tag());
    ensure!(x.response_id() == rsp.as_ref().map(|t| t.id), "response id of {} is {:?}", short(&x), x.response_id());
    let tag = match c.at("tag").int() {
        -1 => None,
        i => Some(i as u8),
    };
    ensure!(x.tag_id() == tag, "tag id of {} is {:?} instead of {:?}", short(&x), x.tag_id(), tag);
    let ifs = pick(c, "ifs").map(|i| build::interface_status(acts[i].arr()[1].at("status")));
    ensure!(
        x.interface_status() == ifs.as_ref(),
        "interface status of {} is {:?}",
        short(&x),
        x.interface_status()
    );
    ensure!(
        x.is_last_response() == c.at("last").bool(),
        "{} is{} the last response",
        short(&x),
        if x.is_last_response() { "" } else { " not" }
    );
    let rest: Vec<&Action> = c.at("rest").arr().iter().map(|i| &x.actions[i.int() as usize - 1]).collect();
    ensure!(
        x.actions_without_interface_status() == rest,
        "the actions of {} without interface statuses are {}",
        short(&x),
        short(&x.actions_without_interface_status())
    );
    Ok(())
}

fn words(s: &str) -> Vec<String> {
    s.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| !w.is_empty()).map(|w| w.to_lowercase()).collect()
}

/// The text of a command: a line with tag and state, a line per action, the interface status.
fn show(c: &V, st: &mut Stats) -> Res {
    let v = c.at("v");
    let x = assemble(c)?;
    let text = format!("{}", x);
    let (first, rest) = match text.find(')') {
        Some(p) => text.split_at(p + 1),
        None => (text.as_str(), ""),
    };
    let first = words(first);
    let has = |w: &str| first.iter().any(|x| x == w);
    let tag = c.at("tag").int();
    let numbers: Vec<i64> = first.iter().filter_map(|w| w.parse().ok()).collect();
    if tag >= 0 {
        ensure!(numbers == vec![tag], "the tag {} is not shown: {:?}", tag, text);
    } else {
        ensure!(numbers.is_empty() && !has("tag"), "a tag is made up: {:?}", text);
    }
    let state = c.at("state").str();
    let ok = match state {
        "executing" => has("executing") && !has("completed") && !has("error"),
        "completed" => has("completed") && !has("executing") && has("without"),
        _ => has("completed") && !has("executing") && has("with") && !has("without") && has("error"),
    };
    ensure!(ok, "not shown as {}: {:?}", state, text);
    let body: Vec<&str> = rest.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
    let mut body = body.into_iter().peekable();
    let want = c.at("lines").arr();
    if !want.is_empty() {
        // a caption
        if body.peek().map(|l| l.ends_with(':')).unwrap_or(false) {
            body.next();
        }
        for i in want {
            let i = i.int() as usize - 1;
            let line = body.next().ok_or_else(|| format!("action {} is not shown: {:?}", i, text))?;
            ensure!(line == format!("{:?}", x.actions[i]), "line {:?} does not show {:?}", line, x.actions[i]);
            st.shown += 1;
            dbg::shows(&v.arr()[i], line)?;
        }
    }
    if let Some(i) = pick(c, "ifs") {
        let line = body.next().ok_or_else(|| format!("the interface status is not shown: {:?}", text))?;
        let s = v.arr()[i].arr()[1].at("status");
        let shown = format!("{}", build::interface_status(s));
        ensure!(line.ends_with(shown.trim()), "line {:?} does not show the interface status {:?}", line, shown);
        match s.at("interface_type").int() {
            215 => {
                // every field by its name, in order
                let mut at = 0;
                for f in c.at("fields").arr() {
                    let name = format!("{}: ", f.str());
                    let p = shown[at..]
                        .find(&name)
                        .ok_or_else(|| format!("{} is not shown in {:?}", f.str(), shown))?;
                    at += p + name.len();
                }
                let tidy = shown.trim().trim_end_matches('}').trim().trim_end_matches(',').to_string() + " }";
                st.shown += 1;
                dbg::shows(s.at("status"), &tidy)?;
                ensure!(dbg::parse(&tidy).is_some(), "the interface status cannot be read: {:?}", shown);
            }
            0 => ensure!(shown.contains("Host"), "host status shown as {:?}", shown),
            1 => ensure!(shown.contains("Serial"), "serial status shown as {:?}", shown),
            _ => {
                let bytes = format!("{:?}", s.at("status").bytes());
                ensure!(shown.contains(&bytes), "status {} shown as {:?}", bytes, shown);
            }
        }
    }
    if let Some(line) = body.next() {
        return Err(format!("line {:?} is made up: {:?}", line, text));
    }
    Ok(())
}

fn updated<T: DekuUpdate + PartialEq + Clone + Debug>(x: &mut T) -> Res {
    x.update().map_err(|e| format!("updating {} failed: {:?}", short(x), e))?;
    let once = x.clone();
    x.update().map_err(|e| format!("updating {} again failed: {:?}", short(x), e))?;
    ensure!(*x == once, "updating twice gives {} and once {}", short(x), short(&once));
    Ok(())
}

/// Applies a history of changes and updates; `want` after it
fn update(c: &V, st: &mut Stats) -> Res {
    let t = c.at("t").str();
    let ops = c.at("ops").arr();
    let b = c.at("b").bytes();
    let want = c.at("v");
    let b0 = c.at("b0").bytes();
    // the start is a constructed value or, if that is impossible, a decoded one
    macro_rules! start {
        ($t:ty) => {
            match <$t>::build(c.at("v0")) {
                Some(x) => x,
                None => decode::<$t>(&b0, 0)?.map_err(|e| format!("decoding {} failed: {:?}", hex(&b0), e))?.1,
            }
        };
    }
    macro_rules! finish {
        ($t:ty, $x:expr) => {{
            let x: $t = $x;
            encoded(c, &x, &b, st)?;
            let (n, y) =
                decode::<$t>(&b, c.get("id").map(|v| v.u8()).unwrap_or(0))?.map_err(|e| format!("decoding {} failed: {:?}", hex(&b), e))?;
            ensure!(n == b.len() && y == x, "{} comes back as {}", short(&x), short(&y));
            is_value(want, &x, st)?;
            Ok(())
        }};
    }
    match t {
        "Addressee" => {
            let mut x = start!(Addressee);
            for o in ops {
                let p = &o.arr()[1];
                match o.arr()[0].str() {
                    "address" => x.address = build::address(p.arr()[0].str(), &p.arr()[1]),
                    "nls" => x.nls_state = build::nls_state(p.arr()[0].str(), &p.arr()[1]),
                    "access_class" => x.access_class = build::access_class(p),
                    "update" => updated(&mut x)?,
                    s => panic!("harness: op {}", s),
                }
            }
            finish!(Addressee, x)
        }
        "IndirectForward" => {
            let mut x = match start!(Action) {
                Action::IndirectForward(x) => x,
                _ => panic!("harness: indirect forward"),
            };
            for o in ops {
                let p = &o.arr()[1];
                match o.arr()[0].str() {
                    "configuration" => x.configuration = p.arr().first().map(build::indirect),
                    "response" => x.header.response = p.bool(),
                    "update" => updated(&mut x)?,
                    s => panic!("harness: op {}", s),
                }
            }
            finish!(Action, Action::IndirectForward(x))
        }
        "PhyStatus" => {
            let mut x = start!(dash7::file::PhyStatus);
            for o in ops {
                let p = &o.arr()[1];
                match o.arr()[0].str() {
                    "list" => x.channel_status = p.arr().iter().map(build::channel_status).collect(),
                    "push" => x.channel_status.push(build::channel_status(p)),
                    "pop" => {
                        x.channel_status.pop();
                    }
                    "up_time" => x.up_time = p.u32(),
                    "update" => updated(&mut x)?,
                    s => panic!("harness: op {}", s),
                }
            }
            finish!(dash7::file::PhyStatus, x)
        }
        "Query" => {
            let mut q = start!(Query);
            for o in ops {
                let p = &o.arr()[1];
                let op = o.arr()[0].str();
                macro_rules! common {
                    ($x:expr) => {
                        match op {
                            "mask" => $x.mask = p.bytes(),
                            "update" => updated($x)?,
                            s => panic!("harness: op {}", s),
                        }
                    };
                }
                match &mut q {
                    Query::NonVoid(x) => updated(x)?,
                    Query::ComparisonWithZero(x) => common!(x),
                    Query::ComparisonWithValue(x) => {
                        if op == "value" {
                            x.value = p.bytes()
                        } else {
                            common!(x)
                        }
                    }
                    Query::ComparisonWithOtherFile(x) => common!(x),
                    Query::BitmapRangeComparison(x) => common!(x),
                    Query::StringTokenSearch(x) => {
                        if op == "value" {
                            x.value = p.bytes()
                        } else {
                            common!(x)
                        }
                    }
                }
            }
            finish!(Query, q)
        }
        s => panic!("harness: update {}", s),
    }
}

/// an operation code of its own: six bits
fn opcode(c: &V, st: &mut Stats) -> Res {
    use dash7::app::action::OpCode;
    let n = c.at("n").u8();
    st.encodes += 1;
    let r = DekuContainerWrite::to_bytes(&OpCode(n));
    if c.at("ok").bool() {
        ensure!(r.as_ref() == Ok(&c.at("b").bytes()), "operation code {} is encoded as {:?}", n, r);
    } else {
        ensure!(r.is_err(), "operation code {} does not fit but is encoded as {:?}", n, r);
    }
    Ok(())
}

fn status_code(c: &V) -> Res {
    let n = c.at("n").u8();
    ensure!(
        StatusCode(n).is_err() == c.at("err").bool(),
        "status code {:#x} is{} an error",
        n,
        if StatusCode(n).is_err() { "" } else { " not" }
    );
    Ok(())
}

/// lengths made from sizes of memory: <<high part, low part>> of 32 bits
fn usize_length(c: &V) -> Res {
    let n = (c.at("hi").int() as usize) << 32 | c.at("lo").be() as usize;
    let l: Length = n.into();
    let r = DekuContainerWrite::to_bytes(&l);
    if c.at("ok").bool() {
        ensure!(r.as_ref() == Ok(&c.at("b").bytes()), "length {} is encoded as {:?}", n, r);
        let back: usize = l.into();
        ensure!(back == n, "length {} is {}", n, back);
    } else {
        ensure!(r.is_err(), "length {} does not fit but is encoded as {:?}", n, r);
    }
    Ok(())
}
