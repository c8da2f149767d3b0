//! C04: what ends early is reported as such, and can be completed.

use super::common::*;
use crate::codec::*;
use crate::gen::*;
use crate::io::*;
use crate::kinds::*;
use crate::model::{self as m};
use crate::net::Sim;
use crate::rt::*;

pub fn run(w: &World) -> Res {
    match w.draw(4) {
        0 => reassemble(w),
        1 => hang_up(w),
        _ => prefixes(w),
    }
}

fn prefixes(w: &World) -> Res {
    let mix = if g_bool(w) { Mix::WIRE } else { Mix::SEND }.vast(w);
    let i = g_item(w, &mix);
    w.note_bytes("data", &i.bytes);
    let n = i.bytes.len() as u64;
    if i.kind.read_bytes(&i.bytes)?.is_err() {
        w.count("not readable");
        return Ok(());
    }
    let points: Vec<u64> = if n <= 48 { (0..n).collect() } else { (0..24).map(|_| w.draw(n)).collect() };
    let awkward = w.chance(1, 3);
    for c in points {
        let c = c as usize;
        w.fault("fault.truncated", c as u64);
        let plan = if awkward { Plan::awkward(w) } else { Plan::none() };
        let mut s = Source::new(w, &i.bytes[..c], plan);
        let got = i.kind.read(&mut s)?;
        if i.cuts.contains(&c) {
            // whole actions of a command
            match got {
                Ok((bits, v)) => {
                    ensure!(bits == c * 8, "length", "{} took {bits} bits", hex(&i.bytes[..c]));
                    if !i.forgets_id {
                        let b = v.to_bytes()?;
                        ensure!(
                            b.as_deref() == Ok(&i.bytes[..c]) || b.as_ref().is_ok_and(|b| m_same(b, &i.bytes[..c])),
                            "prefix",
                            "the first {c} bytes of {} were read as {}",
                            hex(&i.bytes),
                            v.dbg()
                        );
                    }
                }
                Err(e) => {
                    return violation("prefix", format!("the first {c} bytes of {} are whole actions, but gave {e:?}", hex(&i.bytes)))
                }
            }
        } else {
            match got {
                Err(e) if is_incomplete(&e) => {}
                Err(e) => {
                    return violation(
                        "not incomplete",
                        format!("the first {c} bytes of {} {} gave {e:?}", i.kind.name(), hex(&i.bytes)),
                    )
                }
                Ok((_, v)) => {
                    return violation(
                        "accepted",
                        format!("the first {c} bytes of {} {} were read as {}", i.kind.name(), hex(&i.bytes), v.dbg()),
                    )
                }
            }
        }
        w.count("prefixes");
    }
    Ok(())
}

/// Same for a receiver
fn m_same(a: &[u8], b: &[u8]) -> bool {
    match (m::dec_cmd(a), m::dec_cmd(b)) {
        (Ok(a), Ok(b)) => a == b,
        _ => false,
    }
}

/// A receiver that tries again with every fragment, over connections that break off
fn reassemble(w: &World) -> Res {
    enum E {
        Connect,
        Fragment(u64, Vec<u8>),
        Lost(u64),
        Closed(u64),
    }
    let l = letter(w, &Mix::SEND);
    let whole = l.bytes.clone();
    w.note_bytes("data", &whole);
    let ends: Vec<usize> = {
        let mut e = vec![0];
        e.extend(m::bounds(&l.acts));
        e
    };
    let mut sim = Sim::new(w);
    let mut breaks = w.draw(4);
    let mut conn = 0u64;
    let mut buf: Vec<u8> = vec![];
    sim.after(0, E::Connect);
    while let Some(e) = sim.next() {
        ensure!(sim.steps < 20_000 + 8 * whole.len() as u64, "livelock", "never complete");
        match e {
            E::Connect => {
                conn += 1;
                buf.clear();
                let end = if breaks > 0 { w.draw(whole.len() as u64 + 1) as usize } else { whole.len() };
                let mut at = 0;
                let mut t = 0;
                while at < end {
                    let n = 1 + w.draw(w.pick(&[1, 4, 64])).min((end - at) as u64 - 1) as usize;
                    t += 1 + w.draw(1000);
                    sim.after(t, E::Fragment(conn, whole[at..at + n].to_vec()));
                    at += n;
                }
                if breaks > 0 {
                    breaks -= 1;
                    sim.after(t + 1, E::Lost(conn));
                } else {
                    sim.after(t + 1, E::Closed(conn));
                }
            }
            E::Fragment(c, data) if c == conn => {
                buf.extend_from_slice(&data);
                w.mark("fragment", buf.len() as u64, c);
                match decode(&buf)? {
                    Ok(cmd) => {
                        let k = ends.iter().position(|e| *e == buf.len());
                        let Some(k) = k else {
                            return violation("accepted", format!("the first {} bytes of {} were read as {cmd:?}", buf.len(), hex(&whole)));
                        };
                        ensure!(
                            cmd.actions[..] == l.arrives.actions[..k],
                            "prefix",
                            "the first {} bytes of {} were read as {cmd:?}",
                            buf.len(),
                            hex(&whole)
                        );
                    }
                    Err(e) => {
                        ensure!(
                            is_incomplete(&e) && !ends.contains(&buf.len()),
                            "not incomplete",
                            "the first {} bytes of {} gave {e:?}",
                            buf.len(),
                            hex(&whole)
                        );
                    }
                }
            }
            E::Lost(c) if c == conn => {
                w.fault("fault.connection_broken", buf.len() as u64);
                sim.after(1 + w.draw(5000), E::Connect);
            }
            E::Closed(c) if c == conn => match decode(&buf)? {
                Ok(cmd) => {
                    ensure!(cmd == l.arrives, "differs", "{} was read as {cmd:?}", hex(&buf));
                    w.count("completed");
                    return Ok(());
                }
                Err(e) => return violation("lost", format!("all of {} gave {e:?}", hex(&buf))),
            },
            _ => {}
        }
    }
    violation("livelock", "never complete")
}

/// The other side goes away without a word: the end of the stream
fn hang_up(w: &World) -> Res {
    let n = w.range(1, 4);
    w.core().preempt = w.pick(&[200, 1000]);
    let mut jobs: Jobs = vec![];
    for _ in 0..n {
        let pipe = Pipe::new(w, w.pick(&[0, 50, 5000]));
        let l = letter(w, &Mix::SEND);
        let at = w.draw(l.bytes.len() as u64 + 1) as usize;
        let (tx, rx) = (Plan::awkward(w), Plan::awkward(w));
        let bytes = l.bytes.clone();
        {
            let (w, pipe) = (w.clone(), pipe.clone());
            jobs.push(Box::new(move || {
                use std::io::Write;
                let mut out = PipeWriter::new(&pipe, tx);
                let _ = out.write_all(&bytes[..at]);
                w.fault("fault.hang_up", at as u64);
                pipe.close();
                Ok(())
            }));
        }
        let w = w.clone();
        jobs.push(Box::new(move || {
            let mut input = PipeReader::new(&pipe, rx);
            let got = decode_from(&mut input)?;
            if w.aborted().is_some() {
                return Ok(());
            }
            let mut ends = vec![0];
            ends.extend(m::bounds(&l.acts));
            match (ends.iter().position(|e| *e == at), got) {
                (Some(k), Ok((bits, c))) if c.actions[..] == l.arrives.actions[..k] && bits == at * 8 => Ok(()),
                (None, Err(e)) if is_incomplete(&e) => Ok(()),
                (_, got) => violation("hang up", format!("the other side left after {at} bytes of {}: {got:?}", hex(&l.bytes))),
            }
        }));
    }
    w.run_tasks(jobs)
}
