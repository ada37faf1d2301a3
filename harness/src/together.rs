//! Histories of the specification's `Together`: two users code at the same time, taking turns as told, or one of
//! them codes all it has to in the middle of an item of the other.
use crate::cases::{decode, ensure, hex, is_value, short, Res, Stats};
use crate::io::{Gate, Sink, Stream};
use crate::item::Item;
use crate::with_item;
use dash7::app::command::Command;
use std::cell::RefCell;
use std::fmt::Write;
use std::io::ErrorKind;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};
use values::json::V;

/// whose turn it is
struct Turns {
    now: Mutex<(usize, [bool; 2])>,
    changed: Condvar,
    sched: Vec<usize>,
}

impl Turns {
    fn wait(&self, me: usize) {
        let mut g = self.now.lock().unwrap();
        loop {
            while g.0 < self.sched.len() && g.1[self.sched[g.0]] {
                g.0 += 1;
            }
            if g.0 >= self.sched.len() || self.sched[g.0] == me {
                return;
            }
            g = self.changed.wait(g).unwrap();
        }
    }
    fn pass(&self) {
        self.now.lock().unwrap().0 += 1;
        self.changed.notify_all();
    }
    fn leave(&self, me: usize) {
        self.now.lock().unwrap().1[me] = true;
        self.changed.notify_all();
    }
}

/// takes text, and something happens meanwhile
struct Pen(String, Gate);

impl Write for Pen {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.1.at.map(|at| self.0.len() >= at).unwrap_or(false) {
            self.1.now();
        }
        self.0.push_str(s);
        Ok(())
    }
}

fn job<T: Item>(j: &V, text: &str, gate: Gate, st: &mut Stats) -> Res {
    let id = j.at("id").u8();
    let b = j.at("b").bytes();
    let cut = j.at("cut").int() as usize;
    let value = |st: &mut Stats| -> Result<T, String> {
        match T::build(j.at("v")) {
            Some(x) => Ok(x),
            None => {
                st.decodes += 1;
                Ok(decode::<T>(&b, id)?.map_err(|e| format!("decoding {} failed: {:?}", hex(&b), e))?.1)
            }
        }
    };
    match j.at("op").str() {
        "rd" => {
            st.decodes += 2;
            let mut s = Stream::new(b.clone(), 0);
            s.gate = Some(gate);
            let r = T::reader(&mut s, id, b.len());
            s.gate.as_mut().unwrap().now();
            let (bits, x) = r.map_err(|e| format!("reading {} failed: {:?}", hex(&b), e))?;
            is_value(j.at("v"), &x, st)?;
            ensure!(bits == 8 * b.len() && s.pos == b.len(), "reading {} takes {} bits, {} bytes", hex(&b), bits, s.pos);
            let (n, y) = decode::<T>(&b, id)?.map_err(|e| format!("decoding {} failed: {:?}", hex(&b), e))?;
            ensure!(n == b.len() && x == y, "decoding {} gives {} instead of {}", hex(&b), short(&y), short(&x));
        }
        "cut" => {
            st.decodes += 2;
            let mut s = Stream::new(b[..cut].to_vec(), 0);
            s.gate = Some(gate);
            let r = T::reader(&mut s, id, cut);
            s.gate.as_mut().unwrap().now();
            ensure!(r.is_err(), "{} cut to {} bytes is read as {}", hex(&b), cut, short(&r));
            let d = decode::<T>(&b[..cut], id)?;
            ensure!(d.is_err(), "{} cut to {} bytes is decoded as {}", hex(&b), cut, short(&d));
        }
        "wr" => {
            let x = value(st)?;
            st.encodes += 2;
            let mut w = Sink::new();
            w.gate = Some(gate);
            let r = x.write(&mut w);
            w.gate.as_mut().unwrap().now();
            ensure!(r.is_ok(), "writing {} failed: {:?}", short(&x), r);
            ensure!(w.out == b, "{} is written as {} instead of {}", short(&x), hex(&w.out), hex(&b));
            let e = x.enc().map_err(|e| format!("encoding {} failed: {:?}", short(&x), e))?;
            ensure!(e == b, "{} is encoded as {} instead of {}", short(&x), hex(&e), hex(&b));
        }
        "full" => {
            let x = value(st)?;
            st.encodes += 1;
            let mut w = Sink::new();
            w.limit = Some((cut, if cut % 2 == 0 { ErrorKind::WriteZero } else { ErrorKind::Other }));
            w.gate = Some(gate);
            let r = x.write(&mut w);
            w.gate.as_mut().unwrap().now();
            ensure!(r.is_err(), "writing {} to a writer that fails after {} bytes succeeds", short(&x), cut);
            ensure!(b.starts_with(&w.out), "{} is written as {}", short(&x), hex(&w.out));
        }
        "tx" => {
            let x = value(st)?;
            let mut p = Pen(String::new(), gate);
            let c = (&x as &dyn std::any::Any).downcast_ref::<Command>().expect("harness: a command");
            let r = write!(p, "{}", c);
            p.1.now();
            ensure!(r.is_ok() && p.0 == text, "{} is shown as {:?} instead of {:?}", short(c), p.0, text);
        }
        o => panic!("harness: no operation {}", o),
    }
    Ok(())
}

fn one(j: &V, text: &str, gate: Gate, st: &mut Stats) -> Res {
    with_item!(j.at("t").str(), job(j, text, gate, st))
}

fn all(jobs: &[(V, String)], mut gate: impl FnMut(usize) -> Gate, st: &mut Stats) -> Res {
    for (i, (j, text)) in jobs.iter().enumerate() {
        one(j, text, gate(i), st).map_err(|e| format!("{} ({} of it): {}", j.at("op").str(), i + 1, e))?;
    }
    Ok(())
}

fn never() -> Gate {
    Gate { at: None, open: Box::new(|| ()) }
}

pub fn together(c: &V, st: &mut Stats) -> Res {
    let users: Vec<Vec<(V, String)>> = c
        .at("users")
        .arr()
        .iter()
        .map(|u| {
            u.arr()
                .iter()
                .map(|j| {
                    // the text while nothing else is going on
                    let text = match j.at("op").str() {
                        "tx" => Command::try_from(&j.at("b").bytes()[..]).map(|x| x.to_string()).unwrap_or_default(),
                        _ => String::new(),
                    };
                    (j.clone(), text)
                })
                .collect()
        })
        .collect();
    let sched: Vec<usize> = c.at("sched").arr().iter().map(|x| x.int() as usize - 1).collect();
    let bound = |j: &V| j.at("bound").int() as usize;

    let turns = Arc::new(Turns { now: Mutex::new((0, [false; 2])), changed: Condvar::new(), sched: sched.clone() });
    let threads: Vec<_> = users
        .iter()
        .cloned()
        .enumerate()
        .map(|(me, jobs)| {
            let turns = turns.clone();
            std::thread::spawn(move || {
                let mut st = Stats::default();
                turns.wait(me);
                let r = crate::guarded(|| {
                    all(
                        &jobs,
                        |i| {
                            if i > 0 {
                                turns.pass();
                                turns.wait(me);
                            }
                            let t = turns.clone();
                            Gate {
                                at: Some(bound(&jobs[i].0)),
                                open: Box::new(move || {
                                    t.pass();
                                    t.wait(me);
                                }),
                            }
                        },
                        &mut st,
                    )
                });
                turns.leave(me);
                (r.unwrap_or_else(|p| Err(format!("panicked: {}", p))), st)
            })
        })
        .collect();
    let mut res = Ok(());
    for (u, t) in threads.into_iter().enumerate() {
        let (r, s) = t.join().map_err(|_| "a thread ended early".to_string())?;
        st.built += s.built;
        st.shown += s.shown;
        st.encodes += s.encodes;
        st.decodes += s.decodes;
        res = res.and(r.map_err(|e| format!("taking turns {:?}, user {}: {}", c.at("sched").arr().iter().map(|x| x.int()).collect::<Vec<_>>(), u + 1, e)));
    }
    res?;
    crate::tick();

    if c.at("nest").bool() {
        let outer = sched[0];
        let k = sched.iter().position(|u| *u != outer).unwrap();
        let inner: Rc<RefCell<(Res, Stats)>> = Rc::new(RefCell::new((Ok(()), Stats::default())));
        let theirs = Rc::new(users[1 - outer].clone());
        all(
            &users[outer],
            |i| {
                if i != k / 2 {
                    return never();
                }
                let (inner, theirs) = (inner.clone(), theirs.clone());
                Gate {
                    at: Some(bound(&users[outer][i].0)),
                    open: Box::new(move || {
                        let mut g = inner.borrow_mut();
                        let mut s = Stats::default();
                        g.0 = all(&theirs, |_| never(), &mut s);
                        g.1 = s;
                    }),
                }
            },
            st,
        )
        .map_err(|e| format!("while its stream codes something else, {}", e))?;
        let g = inner.borrow();
        st.encodes += g.1.encodes;
        st.decodes += g.1.decodes;
        st.built += g.1.built;
        st.shown += g.1.shown;
        g.0.clone().map_err(|e| format!("in the middle of something else, {}", e))?;
    }
    Ok(())
}
