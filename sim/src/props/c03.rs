//! C03: a failing source is reported as that failure.

use super::common::*;
use crate::codec::*;
use crate::gen::*;
use crate::io::*;
use crate::kinds::*;
use crate::rt::*;
use deku::prelude::*;

pub fn run(w: &World) -> Res {
    if w.draw(4) == 0 {
        return cut(w);
    }
    let mix = if g_bool(w) { Mix::WIRE } else { Mix::SEND }.vast(w);
    let i = g_item(w, &mix);
    w.note_bytes("data", &i.bytes);
    let mut clean = Source::new(w, &i.bytes, Plan::none());
    let Ok((bits, want)) = i.kind.read(&mut clean)? else {
        w.count("not readable");
        return Ok(());
    };
    let ops = clean.ops;
    // every operation once, if there are not too many
    let points: Vec<u64> =
        if ops <= 60 { (0..ops).collect() } else { (0..24).map(|_| w.draw(ops)).collect() };
    let awkward = w.chance(1, 3);
    let stay = g_bool(w);
    let fixed = w.pick(&HARD);
    for k in points {
        let mut plan = if awkward { Plan::awkward(w) } else { Plan::none() };
        let kind = if w.chance(1, 8) { w.pick(&HARD) } else { fixed };
        plan.fail_at = Some((k, kind));
        plan.stay_failed = stay;
        let mut s = Source::new(w, &i.bytes, plan);
        let got = i.kind.read(&mut s)?;
        match (s.failed, got) {
            (Some((what, kind)), Ok((_, v))) => {
                return violation(
                    "hidden",
                    format!("operation {k}, a {what}, failed with {kind:?}, yet {} was read as {}", hex(&i.bytes), v.dbg()),
                )
            }
            (Some((what, kind)), Err(e)) => {
                ensure!(
                    e == DekuError::Io(kind),
                    "other error",
                    "operation {k}, a {what} for {} {}, failed with {kind:?}, and was reported as {e:?}",
                    i.kind.name(),
                    hex(&i.bytes)
                );
                w.count("failures reported");
            }
            (None, Ok((b, v))) => {
                ensure!(v.same(&*want) && b == bits, "differs", "{} was read as {}", hex(&i.bytes), v.dbg());
            }
            (None, Err(e)) => {
                return violation("invented", format!("no operation failed, yet {} gave {e:?}", hex(&i.bytes)))
            }
        }
        // once the source works again, nothing of the failure is left
        s.plan = Plan::none();
        s.pos = 0;
        match i.kind.read(&mut s)? {
            Ok((b, v)) => ensure!(
                v.same(&*want) && b == bits,
                "after",
                "after a failure at operation {k}, {} was read as {}",
                hex(&i.bytes),
                v.dbg()
            ),
            Err(e) => return violation("after", format!("after a failure at operation {k}, {} gave {e:?}", hex(&i.bytes))),
        }
    }
    Ok(())
}

/// A connection breaks while others go on
fn cut(w: &World) -> Res {
    let n = w.range(1, 4);
    w.core().preempt = w.pick(&[200, 1000]);
    let mut jobs: Jobs = vec![];
    for _ in 0..n {
        let pipe = Pipe::new(w, w.pick(&[0, 50, 5000]));
        let l = letter(w, &Mix::SEND);
        let at = w.draw(l.bytes.len() as u64 + 1) as usize;
        let broken = w.draw(3) > 0;
        let kind = w.pick(&HARD);
        let plan = Plan::awkward(w);
        let rx = Plan::awkward(w);
        let bytes = l.bytes.clone();
        {
            let (w, pipe) = (w.clone(), pipe.clone());
            jobs.push(Box::new(move || {
                let mut out = PipeWriter::new(&pipe, plan);
                let end = if broken { at } else { bytes.len() };
                use std::io::Write;
                if out.write_all(&bytes[..end]).is_err() {
                    return Ok(());
                }
                if broken {
                    w.fault("fault.connection_broken", end as u64);
                    pipe.cut(kind);
                } else {
                    pipe.close();
                }
                Ok(())
            }));
        }
        {
            let w = w.clone();
            jobs.push(Box::new(move || {
                let mut input = PipeReader::new(&pipe, rx);
                let got = decode_from(&mut input)?;
                if w.aborted().is_some() {
                    return Ok(());
                }
                if broken {
                    match got {
                        Err(DekuError::Io(k)) if k == kind => {}
                        // an indirect forward ends a command, and what is behind it need not be looked for
                        Ok((_, c)) if !input.saw_cut && c == l.arrives => {}
                        other => {
                            return violation(
                                "hidden",
                                format!("the connection broke ({kind:?}) after {at} bytes of {}, and was reported as {other:?}", hex(&l.bytes)),
                            )
                        }
                    }
                } else {
                    match got {
                        Ok((_, c)) if c == l.arrives => {}
                        other => {
                            return violation("bystander", format!("{} came in over a good connection as {other:?}", hex(&l.bytes)))
                        }
                    }
                }
                w.count("connections");
                Ok(())
            }));
        }
    }
    w.run_tasks(jobs)
}
