//! Records what the library makes of arbitrary inputs.
use crate::cases::decode;
use crate::io::Stream;
use crate::item::Item;
use values::json::V;
use crate::{guarded, with_item, Progress};
use dash7::app::action::Action;
use deku::prelude::*;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn byte(&mut self) -> u8 {
        const PICKS: [u8; 20] =
            [0, 1, 2, 3, 4, 0x20, 0x22, 0x32, 0x33, 0x3f, 0x40, 0x41, 0x62, 0x7f, 0x80, 0xc0, 0xd7, 0xfe, 0xff, 9];
        if self.below(3) == 0 {
            PICKS[self.below(PICKS.len())]
        } else {
            self.next() as u8
        }
    }
}

struct Base {
    t: String,
    id: u8,
    b: Vec<u8>,
}

fn bases(path: &str) -> Vec<Base> {
    BufReader::new(File::open(path).expect("harness: bases"))
        .lines()
        .map(|l| {
            let v = V::parse(&l.expect("harness: line")).expect("harness: base");
            Base { t: v.at("t").str().to_string(), id: v.get("id").map(|i| i.u8()).unwrap_or(0), b: v.at("b").bytes() }
        })
        .collect()
}

/// numbers that deserve to be tried
fn hints() -> &'static [u32] {
    static HINTS: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    HINTS.get_or_init(|| {
        let given = std::env::var("CONFORM_HINTS").unwrap_or_default();
        given.split(',').filter_map(|x| x.parse().ok()).collect()
    })
}

fn hint(r: &mut Rng) -> Option<u32> {
    let h = hints();
    if h.is_empty() || r.below(3) > 0 { None } else { Some(h[r.below(h.len())]) }
}

fn mutate(r: &mut Rng, b: &mut Vec<u8>, other: &[u8]) {
    for _ in 0..1 + r.below(3) {
        let n = b.len();
        match r.below(12) {
            10 | 11 if n > 0 => {
                // a length of any size in place of a byte
                let i = r.below(n);
                let value: u32 = match r.below(6) {
                    0 => b[i] as u32 & 0x3f,
                    1 => r.below(80) as u32,
                    2 => (n - i) as u32 + r.below(3) as u32,
                    3 => [63, 64, 255, 256, 16383, 16384, 65535, 65536][r.below(8)],
                    4 => [1 << 22, 1 << 24, 1 << 29, (1 << 30) - 1, 0x1fff_fff8][r.below(5)],
                    _ => b[i] as u32,
                };
                let value = hint(r).unwrap_or(value);
                let bytes = value.to_be_bytes();
                let least = if value < 64 { 1 } else if value < 1 << 14 { 2 } else if value < 1 << 22 { 3 } else { 4 };
                let size = least + r.below(5 - least);
                let mut l = bytes[4 - size..].to_vec();
                l[0] |= ((size - 1) as u8) << 6;
                b.splice(i..i + 1, l);
            }
            0..=3 if n > 0 => {
                let i = if r.below(2) == 0 { r.below(n.min(8)) } else { r.below(n) };
                b[i] = r.byte();
                if let Some(h) = hint(r) {
                    b[i] = h as u8;
                }
            }
            4 if n > 0 => {
                let i = r.below(n);
                b[i] ^= 1 << r.below(8);
            }
            5 => b.truncate(r.below(n + 1)),
            6 => {
                let i = r.below(n + 1);
                let x = r.byte();
                b.insert(i, x);
            }
            7 if n > 0 => {
                b.remove(r.below(n));
            }
            8 => b.extend_from_slice(&other[..r.below(other.len() + 1)]),
            _ => {
                b.truncate(r.below(n + 1));
                b.extend_from_slice(&other[r.below(other.len() + 1)..]);
            }
        }
    }
    b.truncate(400);
}

fn input(r: &mut Rng, bs: &[Base], i: usize) -> Vec<u8> {
    if r.below(12) == 0 {
        return (0..r.below(24)).map(|_| r.byte()).collect();
    }
    let mut b = bs[i].b.clone();
    let o = r.below(bs.len());
    if r.below(10) > 0 {
        mutate(r, &mut b, &bs[o].b);
    }
    b
}

/// what decoding gives: bytes taken and the encoding of the value, or nothing
fn observe<T: Item>(b: &[u8], id: u8) -> Result<Option<(usize, Option<Vec<u8>>)>, String> {
    let d = decode::<T>(b, id)?;
    // the other ways of decoding have to come to an end, too
    let mut s = Stream::new(b.to_vec(), 0);
    let read = T::reader(&mut s, id, b.len());
    if read.is_ok() && s.pos > b.len() {
        return Err("the reader is left behind the end of its data".into());
    }
    let _ = T::slice(b);
    match d {
        Err(_) => Ok(None),
        Ok((n, x)) => Ok(Some((n, x.enc().ok()))),
    }
}

fn put(out: &mut impl Write, t: &str, id: u8, b: &[u8], rest: &str) {
    writeln!(out, "{{\"t\":\"{}\",\"id\":{},\"in\":{},{}}}", t, id, values::json::bytes_json(b).render(), rest)
        .expect("harness: trace");
}

pub fn record(base: &str, seed: u64, n: usize, out: &str, progress: &Progress) {
    let bs = bases(base);
    let mut out = BufWriter::new(File::create(out).expect("harness: trace"));
    let mut r = Rng::new(seed);
    for k in 0..n {
        let i = r.below(bs.len());
        let b = input(&mut r, &bs, i);
        let t = bs[i].t.as_str();
        let id = if t == "File" && r.below(4) == 0 { r.byte() } else { bs[i].id };
        // the input is on record before it is tried: a crash leaves it as the last line
        put(&mut out, t, id, &b, "\"r\":\"crash\"");
        out.flush().expect("harness: trace");
        progress.at(k as u64);
        let o = guarded(|| with_item!(t, observe(&b, id)));
        let rest = match o {
            Err(p) => {
                let mut s = String::from("\"r\":\"panic\",\"msg\":");
                values::json::quote(&p, &mut s);
                s
            }
            Ok(Err(e)) => {
                let mut s = String::from("\"r\":\"remainder\",\"msg\":");
                values::json::quote(&e, &mut s);
                s
            }
            Ok(Ok(None)) => "\"r\":\"err\"".to_string(),
            Ok(Ok(Some((m, None)))) => format!("\"r\":\"ok\",\"n\":{},\"enc\":false,\"rb\":[]", m),
            Ok(Ok(Some((m, Some(rb))))) => {
                format!("\"r\":\"ok\",\"n\":{},\"enc\":true,\"rb\":{}", m, values::json::bytes_json(&rb).render())
            }
        };
        put(&mut out, t, id, &b, &rest);
    }
}

/// Actions received one by one from a stream that is cut into chunks, and may fail.
pub fn sessions(base: &str, seed: u64, n: usize, out: &str, progress: &Progress) {
    let bs: Vec<Base> = bases(base).into_iter().filter(|b| b.t == "Command").collect();
    let mut out = BufWriter::new(File::create(out).expect("harness: trace"));
    let mut r = Rng::new(seed ^ 0x5eed);
    for k in 0..n {
        let i = r.below(bs.len());
        let mut b = bs[i].b.clone();
        if r.below(2) == 0 {
            b.extend_from_slice(&bs[r.below(bs.len())].b);
        }
        if r.below(2) == 0 {
            let o = r.below(bs.len());
            mutate(&mut r, &mut b, &bs[o].b);
        }
        let mut s = Stream::new(b.clone(), 0);
        s.chunks = (0..r.below(4)).map(|_| 1 + r.below(5)).collect();
        s.interrupts = r.below(3) == 0;
        let fault = if r.below(3) == 0 { Some(r.below(b.len() + 1)) } else { None };
        s.fault = fault.map(|f| (f, crate::cases::kind(["BrokenPipe", "TimedOut", "Other"][r.below(3)])));
        writeln!(
            out,
            "{{\"e\":\"start\",\"stream\":{},\"fault\":{}}}",
            values::json::bytes_json(&b).render(),
            fault.map(|f| f as i64).unwrap_or(-1)
        )
        .expect("harness: trace");
        out.flush().expect("harness: trace");
        progress.at(k as u64);
        let mut reader = Reader::new(&mut s);
        loop {
            let start = reader.bits_read;
            if start >= 8 * b.len() {
                writeln!(out, "{{\"e\":\"end\",\"pos\":{}}}", start / 8).expect("harness: trace");
                break;
            }
            match guarded(|| Action::from_reader_with_ctx(&mut reader, ())) {
                Err(p) => {
                    let mut q = String::new();
                    values::json::quote(&p, &mut q);
                    writeln!(out, "{{\"e\":\"panic\",\"msg\":{}}}", q).expect("harness: trace");
                    break;
                }
                Ok(Err(_)) => {
                    writeln!(out, "{{\"e\":\"fail\",\"pos\":{}}}", start / 8).expect("harness: trace");
                    break;
                }
                Ok(Ok(a)) => {
                    let name = format!("{:?}", a);
                    let name = name.split(|c: char| !c.is_ascii_alphanumeric()).next().unwrap_or("").to_string();
                    let (pos, odd) = (reader.bits_read / 8, reader.bits_read % 8);
                    let rb = DekuContainerWrite::to_bytes(&a);
                    writeln!(
                        out,
                        "{{\"e\":\"action\",\"pos\":{},\"odd\":{},\"name\":\"{}\",\"enc\":{},\"rb\":{}}}",
                        pos,
                        odd,
                        name,
                        rb.is_ok(),
                        values::json::bytes_json(&rb.unwrap_or_default()).render()
                    )
                    .expect("harness: trace");
                    if matches!(a, Action::IndirectForward(_)) {
                        writeln!(out, "{{\"e\":\"end\",\"pos\":{}}}", pos).expect("harness: trace");
                        break;
                    }
                }
            }
        }
    }
}
