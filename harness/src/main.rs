//! `conform season`: see season.rs.
//! `conform serve`: performs the calls TLC sends on stdin (one frame per call) on the real
//! library and answers with [st |-> "ok" | "err" | "panic", out |-> ...].
mod season;
mod sys;
mod val;

use std::io::{self, BufReader};
use std::panic::{catch_unwind, AssertUnwindSafe};
use val::{proto, Val};

/// All the calls at the same time, each in a thread of its own and `reps` times over: what each
/// one gave, or that it did not always give the same.
fn at_once(calls: &[Val], reps: usize) -> Val {
    let gate = std::sync::Barrier::new(calls.len());
    let outs = std::thread::scope(|s| {
        let threads: Vec<_> = calls
            .iter()
            .map(|c| {
                let gate = &gate;
                s.spawn(move || {
                    gate.wait();
                    let first = perform(c);
                    for _ in 1..reps {
                        if perform(c) != first {
                            return Val::rec(vec![("st", Val::s("varies")), ("out", Val::s(""))]);
                        }
                    }
                    first
                })
            })
            .collect();
        threads.into_iter().map(|t| t.join().unwrap_or_else(|_| proto("thread"))).collect()
    });
    Val::rec(vec![("st", Val::s("ok")), ("out", Val::Seq(outs))])
}

pub fn perform(c: &Val) -> Val {
    if c.get("op").str() == "together" {
        return at_once(c.get("calls").seq(), c.get("reps").usize());
    }
    let r = catch_unwind(AssertUnwindSafe(|| {
        let op = c.get("op").str();
        let res = if c.has("sys") {
            let sys = c.get("sys").str();
            if c.get("via").str() == "trait" {
                sys::trait_call(sys, op, c)
            } else {
                sys::fn_call(sys, op, c)
            }
        } else {
            sys::crate_call(op, c)
        };
        res.unwrap_or_else(|| proto(&format!("unknown call {c:?}")))
    }));
    match r {
        Ok(Ok(v)) => Val::rec(vec![("st", Val::s("ok")), ("out", v)]),
        Ok(Err(v)) => Val::rec(vec![("st", Val::s("err")), ("out", v)]),
        Err(p) => {
            let msg = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string()))
                .unwrap_or_default();
            Val::rec(vec![("st", Val::s("panic")), ("out", Val::s(&msg))])
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    match std::env::args().nth(1).as_deref() {
        Some("serve") => {
            let mut inp = BufReader::with_capacity(1 << 16, io::stdin().lock());
            let mut out = io::stdout().lock();
            while let Some(c) = val::read_frame(&mut inp).unwrap_or_else(|e| proto(&e.to_string())) {
                if val::write_frame(&mut out, &perform(&c)).is_err() {
                    return;
                }
            }
        }
        Some("season") => {
            let arg = |i: usize| std::env::args().nth(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or_else(|| proto("usage"));
            let mut out = io::BufWriter::new(io::stdout().lock());
            season::run(arg(2), arg(3) as usize, arg(4) as usize, &mut out);
        }
        _ => proto("usage: conform serve | conform season SEED SEASONS STEPS"),
    }
}
