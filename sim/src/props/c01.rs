//! C01: a command that crosses a byte stream arrives as it was sent.

use super::common::*;
use crate::codec::*;
use crate::gen::*;
use crate::io::*;
use crate::kinds::{g_item, Item};
use crate::rt::*;
use dash7::app::command::Command;

pub fn run(w: &World) -> Res {
    match w.draw(5) {
        0 | 1 => quick(w),
        2 => parts(w),
        _ => links(w),
    }
}

/// One party, a sink and then a source
fn quick(w: &World) -> Res {
    let mix = Mix::SEND.vast(w);
    let n = w.range(1, 4);
    for _ in 0..n {
        let l = letter(w, &mix);
        let mut sink = Sink::new(w, Plan::awkward(w));
        if let Err(e) = encode_to(&l.sent, &mut sink)? {
            return violation("send", format!("{:?} cannot be sent: {e:?}", l.sent));
        }
        w.note_bytes("sent", &sink.data);
        let whole = encode_ok(&l.sent)?;
        ensure!(
            whole == sink.data,
            "send",
            "{:?} as bytes is {}, but the stream got {}",
            l.sent,
            hex(&whole),
            hex(&sink.data)
        );
        let mut source = Source::new(w, &sink.data, Plan::awkward(w));
        received(w, &l, decode_from(&mut source)?, sink.data.len())?;
        let again = decode(&sink.data)?;
        received(w, &l, again.map(|c| (sink.data.len() * 8, c)), sink.data.len())?;
    }
    Ok(())
}

/// The things that commands are made of, and files, on their own
fn parts(w: &World) -> Res {
    let n = w.range(1, 6);
    for _ in 0..n {
        let Item { kind, sent, expect, .. } = g_item(w, &Mix::SEND);
        let (Some(sent), Some(expect)) = (sent, expect) else { continue };
        let mut sink = Sink::new(w, Plan::awkward(w));
        if let Err(e) = sent.write_to(&mut sink)? {
            return violation("send", format!("{} {} cannot be sent: {e:?}", kind.name(), sent.dbg()));
        }
        w.note_bytes("sent", &sink.data);
        let mut source = Source::new(w, &sink.data, Plan::awkward(w));
        match kind.read(&mut source)? {
            Ok((bits, got)) => {
                ensure!(
                    got.same(&*expect),
                    "differs",
                    "sent {} ({}), received {}",
                    expect.dbg(),
                    hex(&sink.data),
                    got.dbg()
                );
                ensure!(bits == sink.data.len() * 8, "length", "{} took {bits} bits of {}", got.dbg(), hex(&sink.data));
                w.count("values");
            }
            Err(e) => {
                return violation("lost", format!("sent {} ({}), received {e:?}", expect.dbg(), hex(&sink.data)))
            }
        }
    }
    Ok(())
}

fn received(w: &World, l: &Letter, got: L<(usize, Command)>, len: usize) -> Res {
    match got {
        Ok((bits, cmd)) => {
            ensure!(cmd == l.arrives, "differs", "sent {:?}, received {cmd:?}", l.arrives);
            ensure!(bits == len * 8, "length", "{cmd:?} took {bits} bits of {len} bytes");
            w.count("commands");
            Ok(())
        }
        Err(e) => violation("lost", format!("sent {:?} ({}), received {e:?}", l.arrives, hex(&l.bytes))),
    }
}

/// Several connections at once, each with its own delays
fn links(w: &World) -> Res {
    let n = w.range(1, 4);
    w.core().preempt = w.pick(&[100, 400, 1000]);
    let mut jobs: Jobs = vec![];
    for _ in 0..n {
        let pipe = Pipe::new(w, w.pick(&[0, 50, 5000]));
        let letter = letter(w, &Mix::SEND);
        w.note_bytes("letter", &letter.bytes);
        let cmd = letter.sent.clone();
        let len = std::sync::Arc::new(std::sync::Mutex::new(0usize));
        let (tx, rx) = (Plan::awkward(w), Plan::awkward(w));
        let linger = w.chance(1, 4);
        {
            let (w, pipe, len) = (w.clone(), pipe.clone(), len.clone());
            jobs.push(Box::new(move || {
                let mut out = PipeWriter::new(&pipe, tx);
                if let Err(e) = encode_to(&cmd, &mut out)? {
                    return violation("send", format!("{cmd:?} cannot be sent: {e:?}"));
                }
                *len.lock().unwrap() = pipe.st.lock().unwrap().sent as usize;
                if linger {
                    w.sleep(10_000);
                }
                pipe.close();
                Ok(())
            }));
        }
        {
            let w = w.clone();
            jobs.push(Box::new(move || {
                let mut input = PipeReader::new(&pipe, rx);
                let got = decode_from(&mut input)?;
                let len = *len.lock().unwrap();
                received(&w, &letter, got, len)
            }));
        }
    }
    w.run_tasks(jobs)
}
