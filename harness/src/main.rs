//! Conformance harness: replays the behaviours of the TLA+ specification in the library and records what
//! the library does for the specification to judge.  Prints nothing: output during coding is a finding.
mod build;
mod cases;
use values::json;
mod io;
mod item;
mod noise;
mod record;
mod tables;
mod together;

use json::V;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static TICK: AtomicU64 = AtomicU64::new(0);
static PANIC: Mutex<String> = Mutex::new(String::new());

/// the step being executed, for the runner to find after a crash or hang
pub struct Progress(File);
impl Progress {
    pub fn new(path: &str) -> Self {
        Progress(File::create(path).expect("harness: state file"))
    }
    pub fn at(&self, i: u64) {
        TICK.store(i + 1, Ordering::Relaxed);
        let _ = self.0.write_at(format!("{:<20}", i).as_bytes(), 0);
    }
}

/// the next step of something that needs no bookkeeping
pub fn tick() {
    TICK.fetch_add(1, Ordering::Relaxed);
}

/// runs a step; a panic is an error
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone())
}

fn lines(path: &str) -> impl Iterator<Item = String> {
    BufReader::new(File::open(path).expect("harness: cases")).lines().map(|l| l.expect("harness: line"))
}

fn replay(path: &str, out: &str, state: &str) {
    let progress = Progress::new(state);
    let mut out = BufWriter::new(File::create(out).expect("harness: report"));
    let mut st = cases::Stats::default();
    let (mut n, mut failed) = (0u64, 0u64);
    let unfit = noise::unfit();
    let mut last: Vec<u8> = vec![];
    noise::elsewhere();
    for line in lines(path) {
        let c = V::parse(&line).unwrap_or_else(|e| panic!("harness: case {}: {}", n, e));
        progress.at(n);
        if n % 3 == 1 {
            noise::disturb(n as usize / 3, &last, &unfit);
            *noise::OTHER.lock().unwrap() = last[..last.len().min(400)].to_vec();
        }
        last = ["b", "in"].iter().find_map(|k| c.get(k)).map(|b| b.bytes()).unwrap_or_default();
        let known = st.known.len();
        let r = match guarded(|| cases::run(&c, &mut st)) {
            Ok(r) => r.map_err(|e| ("mismatch", e)),
            Err(p) if p.contains("harness:") => Err(("internal", p)),
            Err(p) => Err(("panic", format!("panicked: {}", p))),
        };
        if let Err((kind, msg)) = r {
            failed += 1;
            if failed <= 25 {
                let mut s = String::from("{\"i\":");
                s.push_str(&n.to_string());
                s.push_str(",\"kind\":\"");
                s.push_str(kind);
                s.push_str("\",\"msg\":");
                json::quote(&msg, &mut s);
                s.push_str(",\"case\":");
                s.push_str(&line);
                s.push('}');
                writeln!(out, "{}", s).expect("harness: report");
            }
        }
        for (f, what) in &st.known[known..] {
            let mut s = format!("{{\"known\":\"{}\",\"i\":{},\"what\":", f, n);
            json::quote(what, &mut s);
            s.push('}');
            writeln!(out, "{}", s).expect("harness: report");
        }
        n += 1;
    }
    writeln!(
        out,
        "{{\"done\":true,\"cases\":{},\"failed\":{},\"built\":{},\"shown\":{},\"encodes\":{},\"decodes\":{}}}",
        n, failed, st.built, st.shown, st.encodes, st.decodes
    )
    .expect("harness: report");
}

/// how the library prints the item of a kind in some bytes
fn prints(cases: &str, out: &str) {
    use dash7::{app::command::Command, file::{File as DashFile, FileId}, link};
    let mut out = BufWriter::new(File::create(out).expect("harness: texts"));
    for line in BufReader::new(File::open(cases).expect("harness: cases")).lines() {
        let c = json::V::parse(&line.expect("harness: line")).expect("harness: case");
        tick();
        let b = c.at("in").bytes();
        let text = guarded(|| match c.at("kind").str() {
            "fg" => link::ForegroundFrame::try_from(&b[..]).map(|x| format!("{:?}", x)).ok(),
            "bg" => link::BackgroundFrame::try_from(&b[..]).map(|x| format!("{:?}", x)).ok(),
            "alp" => Command::try_from(&b[..]).map(|x| format!("{}", x)).ok(),
            "file" => {
                let id = FileId::try_from(c.at("id").u8()).ok()?;
                DashFile::from_bytes((&b[..], 0), id, b.len() as u32).map(|x| format!("{:?}", x)).ok()
            }
            _ => None,
        })
        .unwrap_or(None);
        let mut s = String::from("{\"ok\":");
        s.push_str(if text.is_some() { "true" } else { "false" });
        s.push_str(",\"text\":");
        json::quote(&text.unwrap_or_default(), &mut s);
        s.push('}');
        writeln!(out, "{}", s).expect("harness: texts");
    }
}

/// seconds of processor time this process used
fn busy() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let ticks = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (ticks(11) + ticks(12)) / 100.0
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = m + &at;
    }));
    // a step that does not end is reported by exit code
    std::thread::spawn(|| {
        // in processor time, so that a busy machine makes nothing look endless; what waits for ever uses none
        let (mut last, mut since, mut used) = (0, Instant::now(), busy());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let t = TICK.load(Ordering::Relaxed);
            if t != last {
                (last, since, used) = (t, Instant::now(), busy());
            } else if t > 0 && (busy() - used > 60.0 || since.elapsed() > Duration::from_secs(150) && busy() - used < 0.5) {
                std::process::exit(97);
            }
        }
    });
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().skip(1).map(|s| s.as_str()).collect();
    let r = guarded(|| match a[..] {
        ["replay", cases, out, state] => replay(cases, out, state),
        ["record", bases, seed, n, out, state] => {
            record::record(bases, seed.parse().unwrap(), n.parse().unwrap(), out, &Progress::new(state))
        }
        ["sessions", bases, seed, n, out, state] => {
            record::sessions(bases, seed.parse().unwrap(), n.parse().unwrap(), out, &Progress::new(state))
        }
        ["lengths", full, out] => tables::lengths(full == "full", out),
        ["varints", out] => tables::varints(out),
        ["ids", out] => tables::ids(out),
        ["prints", cases, out] => prints(cases, out),
        _ => panic!("harness: usage"),
    });
    if let Err(e) = r {
        let _ = std::fs::write(format!("{}.internal", a.last().unwrap_or(&"harness")), e);
        std::process::exit(96);
    }
}
