//! C06: a failing sink is reported, and never left with anything but the start of the message.

use super::common::*;
use crate::codec::*;
use crate::gen::*;
use crate::io::*;
use crate::kinds::*;
use crate::model as m;
use crate::rt::*;
use deku::prelude::*;
use deku::writer::Writer;
use std::io::ErrorKind;

const FULL: [ErrorKind; 4] = [ErrorKind::StorageFull, ErrorKind::QuotaExceeded, ErrorKind::FileTooLarge, ErrorKind::Other];

pub fn run(w: &World) -> Res {
    match w.draw(7) {
        0 => refused(w),
        1 => broken_pipe(w),
        2 => in_a_row(w),
        _ => sinks(w),
    }
}

fn sinks(w: &World) -> Res {
    let mix = if w.draw(3) == 0 { Mix::WIRE } else { Mix::SEND }.vast(w);
    let i = g_item(w, &mix);
    // what was built, or else what was received: that may have another form on the wire (see C08)
    let built = i.sent.is_some();
    let v = match i.sent {
        Some(v) => v,
        None => match i.kind.read_bytes(&i.bytes)? {
            Ok((_, v)) => v,
            Err(_) => return Ok(()),
        },
    };
    let mut clean = Sink::new(w, Plan::none());
    if let Err(e) = v.write_to(&mut clean)? {
        return violation("send", format!("{} cannot be written: {e:?}", v.dbg()));
    }
    let (whole, ops) = (clean.data, clean.ops);
    w.note_bytes("data", &whole);
    if built && !i.forgets_id {
        ensure!(whole == i.bytes, "whole", "{} was written as {}, not {}", v.dbg(), hex(&whole), hex(&i.bytes));
    }
    let points: Vec<u64> = if ops <= 60 { (0..ops).collect() } else { (0..24).map(|_| w.draw(ops)).collect() };
    let awkward = w.chance(1, 3);
    let stay = g_bool(w);
    for k in points {
        let mut plan = if awkward { Plan::awkward(w) } else { Plan::none() };
        plan.fail_at = Some((k, w.pick(&HARD)));
        plan.stay_failed = stay;
        one(w, &*v, &whole, Sink::new(w, plan), "operation", k)?;
    }
    let n = whole.len() as u64;
    let rooms: Vec<u64> = if n <= 16 { (0..=n).collect() } else { (0..8).map(|_| w.draw(n + 1)).collect() };
    for room in rooms {
        let mut s = Sink::new(w, if awkward { Plan::awkward(w) } else { Plan::none() });
        s.room = Some(room);
        s.full = if g_bool(w) { Full::Zero } else { Full::Kind(w.pick(&FULL)) };
        one(w, &*v, &whole, s, "byte", room)?;
    }
    // and nothing of all that is left in the value
    let mut s = Sink::new(w, Plan::awkward(w));
    let r = v.write_to(&mut s)?;
    ensure!(r.is_ok() && s.data == whole, "after", "after failures, {} was written as {}: {r:?}", v.dbg(), hex(&s.data));
    Ok(())
}

fn one(w: &World, v: &dyn Obj, whole: &[u8], mut s: Sink, what: &str, k: u64) -> Res {
    let got = v.write_to(&mut s)?;
    match (s.failed, got) {
        (Some(kind), Ok(())) => {
            return violation(
                "hidden",
                format!("{what} {k} failed with {kind:?}, but {} was reported as written: {} of {}", v.dbg(), hex(&s.data), hex(whole)),
            )
        }
        (Some(kind), Err(e)) => {
            ensure!(e == DekuError::Io(kind), "other error", "{what} {k} failed with {kind:?}, reported as {e:?}, for {}", v.dbg());
            w.count("failures reported");
        }
        (None, Ok(())) => ensure!(s.data == whole, "whole", "{} was written as {}, not {}", v.dbg(), hex(&s.data), hex(whole)),
        (None, Err(e)) => return violation("invented", format!("nothing failed, but {} gave {e:?}", v.dbg())),
    }
    ensure!(
        whole.starts_with(&s.data),
        "not a prefix",
        "{what} {k} failed for {}: the sink has {}, which is not the start of {}",
        v.dbg(),
        hex(&s.data),
        hex(whole)
    );
    Ok(())
}

/// Different things through one writer, among bytes of something else
fn in_a_row(w: &World) -> Res {
    let mix = if g_bool(w) { Mix::WIRE } else { Mix::SEND };
    let mut parts = vec![];
    let mut whole = vec![];
    for _ in 0..w.range(1, 5) {
        let n = w.draw(3) as usize;
        let gap = w.bytes(n);
        let i = g_item(w, &mix);
        let Some(v) = i.sent else { continue };
        if i.forgets_id {
            continue;
        }
        whole.extend(&gap);
        whole.extend(&i.bytes);
        parts.push((gap, v));
    }
    w.note_bytes("data", &whole);
    let mut plan = Plan::awkward(w);
    if g_bool(w) {
        plan.fail_at = Some((w.draw(3 * whole.len() as u64 + 1), w.pick(&HARD)));
    }
    let mut s = Sink::new(w, plan);
    let got = guard("Writer", || -> Result<(), DekuError> {
        let out: &mut dyn WS = &mut s;
        let mut out = Writer::new(out);
        for (gap, v) in &parts {
            for b in gap {
                b.to_writer(&mut out, ())?;
            }
            v.write_with(&mut out)?;
        }
        out.finalize()
    })?;
    match (s.failed, got) {
        (Some(kind), Err(e)) => {
            ensure!(e == DekuError::Io(kind), "other error", "{kind:?} was reported as {e:?}, for {}", hex(&whole));
            w.count("failures reported");
        }
        (None, Ok(())) => ensure!(s.data == whole, "whole", "{} was written as {}", hex(&whole), hex(&s.data)),
        (Some(kind), Ok(())) => return violation("hidden", format!("{kind:?} was not reported, with {} of {}", hex(&s.data), hex(&whole))),
        (None, Err(e)) => return violation("invented", format!("nothing failed, but {} gave {e:?}", hex(&whole))),
    }
    ensure!(whole.starts_with(&s.data), "not a prefix", "{} is not the start of {}", hex(&s.data), hex(&whole));
    w.count("rows");
    Ok(())
}

/// Values that the format has no room for are not sent as something else
fn refused(w: &World) -> Res {
    let mut acts = g_cmd(w, &Mix::SEND);
    acts.retain(|a| a.norm().is_ok());
    let good = m::enc_cmd(&acts);
    let Some(mut cmd) = crate::bridge::cmd(&acts) else { return Ok(()) };
    let bad = too_much(w);
    w.note_bytes("good", &good);
    cmd.actions.push(bad);
    let mut s = Sink::new(w, Plan::awkward(w));
    let got = encode_to(&cmd, &mut s)?;
    ensure!(got.is_err(), "altered", "{cmd:?} has no form in the protocol, but was sent as {}", hex(&s.data));
    let got = encode(&cmd)?;
    ensure!(got.is_err(), "altered", "{cmd:?} has no form in the protocol, but was encoded as {got:?}");
    w.count("refused");
    Ok(())
}

/// The receiver goes away while several parties send
fn broken_pipe(w: &World) -> Res {
    let n = w.range(1, 4);
    w.core().preempt = w.pick(&[200, 1000]);
    let mut jobs: Jobs = vec![];
    for _ in 0..n {
        let l = letter(w, &Mix::SEND);
        let fails = w.draw(3) > 0;
        let at = w.draw(l.bytes.len() as u64 + 2);
        let kind = w.pick(&[ErrorKind::BrokenPipe, ErrorKind::ConnectionReset, ErrorKind::TimedOut]);
        let mut plan = Plan::awkward(w);
        if fails {
            plan.fail_at = Some((at, kind));
            plan.stay_failed = true;
        }
        let w = w.clone();
        jobs.push(Box::new(move || {
            let mut s = Sink::new(&w, plan);
            let got = encode_to(&l.sent, &mut s)?;
            match (s.failed, got) {
                (Some(k), Err(e)) if e == DekuError::Io(k) => {
                    ensure!(l.bytes.starts_with(&s.data), "not a prefix", "{} left {}", hex(&l.bytes), hex(&s.data));
                }
                (None, Ok(())) => ensure!(s.data == l.bytes, "whole", "{} left {}", hex(&l.bytes), hex(&s.data)),
                (failed, got) => {
                    return violation("hidden", format!("{failed:?} was reported as {got:?}, with {} of {}", hex(&s.data), hex(&l.bytes)))
                }
            }
            w.count("connections");
            Ok(())
        }));
    }
    w.run_tasks(jobs)
}
