//! C05: reading takes exactly the bytes of what is read.

use super::common::*;
use crate::codec::*;
use crate::gen::*;
use crate::io::*;
use crate::kinds::*;
use crate::model::{self as m, Act};
use crate::rt::*;
use dash7::app::action::Action;
use dash7::app::command::Command;
use dash7::file::File;
use dash7::link::{BackgroundFrame, ForegroundFrame};
use deku::prelude::*;
use deku::ctx::{BitSize, Endian};
use deku::reader::Reader;
use std::io::Write;

pub fn run(w: &World) -> Res {
    match w.draw(8) {
        0 | 1 => one_by_one(w),
        2 => in_a_row(w),
        3 => trailing(w),
        4 => in_between(w),
        5 => at_offset(w),
        _ => lockstep(w),
    }
}

fn mixes(w: &World) -> Mix {
    if g_bool(w) { Mix::WIRE } else { Mix::SEND }.vast(w)
}

fn junk(w: &World) -> Vec<u8> {
    let n = w.draw(12) as usize;
    w.bytes(n)
}

/// Different things back to back on one stream
fn one_by_one(w: &World) -> Res {
    let mix = mixes(w);
    let n = w.range(1, 6);
    let mut items = vec![];
    for _ in 0..n {
        let i = g_item(w, &mix);
        if i.greedy || i.kind.read_bytes(&i.bytes)?.is_err() {
            continue;
        }
        items.push(i);
    }
    let mut data: Vec<u8> = items.iter().flat_map(|i| i.bytes.clone()).collect();
    data.extend(junk(w));
    w.note_bytes("data", &data);
    let mut s = Source::new(w, &data, Plan::awkward(w));
    let mut at = 0;
    for i in &items {
        s.high = s.pos;
        let got = i.kind.read(&mut s)?;
        let (bits, v) = match got {
            Ok(x) => x,
            Err(e) => {
                return violation("refused", format!("{} {} in front of other data: {e:?}", i.kind.name(), hex(&i.bytes)))
            }
        };
        at += i.bytes.len();
        ensure!(bits == i.bytes.len() * 8, "bits", "{} {} was counted as {bits} bits", i.kind.name(), hex(&i.bytes));
        ensure!(
            s.pos == at as u64,
            "position",
            "{} ends at {at}, but the stream was left at {}, for {}",
            v.dbg(),
            s.pos,
            hex(&data)
        );
        if let Some(x) = &i.expect {
            ensure!(v.same(&**x), "differs", "{} was read as {}", x.dbg(), v.dbg());
        }
        // a command that ends with an indirect forward looks whether there is more
        let peek = (i.kind.name() == "Command") as u64;
        ensure!(
            s.high <= at as u64 + peek,
            "beyond",
            "{} bytes were taken for {}, which ends at {at}",
            s.high,
            v.dbg()
        );
        w.count("values");
    }
    Ok(())
}

/// Different things through one reader, among bytes of something else
fn in_between(w: &World) -> Res {
    let mix = mixes(w);
    let mut bits = m::BitW::default();
    let mut parts = vec![];
    for _ in 0..w.range(1, 5) {
        let gap = 8 * w.draw(3);
        let fill = w.draw(1 << gap);
        let i = g_item(w, &mix);
        if i.greedy || i.kind.read_bytes(&i.bytes)?.is_err() {
            continue;
        }
        bits.bits(fill, gap as u8);
        i.bytes.iter().for_each(|b| bits.bits(*b as u64, 8));
        parts.push((gap as usize, fill, i));
    }
    let mut data = bits.done();
    data.extend(junk(w));
    w.note_bytes("data", &data);
    let mut s = Source::new(w, &data, Plan::awkward(w));
    guard("Reader", || {
        let mut input: &mut dyn RS = &mut s;
        let mut r = Reader::new(&mut input);
        let mut at = 0;
        for (gap, fill, i) in &parts {
            for (n, shift) in [(gap.saturating_sub(8), 8.min(*gap)), (8.min(*gap), 0)] {
                let want = (fill >> shift) & ((1 << n) - 1);
                let got = match n {
                    0 => Ok(0),
                    n => <u8 as DekuReader<_>>::from_reader_with_ctx(&mut r, (Endian::Big, BitSize(n))),
                };
                ensure!(got == Ok(want as u8), "beside", "{n} bits at {at} are {want}, but were read as {got:?}, for {}", hex(&data));
                at += n;
            }
            let v = match i.kind.read_with(&mut r) {
                Ok(v) => v,
                Err(e) => return violation("refused", format!("{} {} at bit {at} of {}: {e:?}", i.kind.name(), hex(&i.bytes), hex(&data))),
            };
            if let Some(x) = &i.expect {
                ensure!(v.same(&**x), "differs", "{} at bit {at} of {} was read as {}", x.dbg(), hex(&data), v.dbg());
            }
            at += i.bytes.len() * 8;
            ensure!(r.bits_read == at, "bits", "{} ends at bit {at} of {}, not {}", v.dbg(), hex(&data), r.bits_read);
            w.count("values");
        }
        Ok(())
    })?
}

/// Something that does not begin where the input begins
fn at_offset(w: &World) -> Res {
    let mix = mixes(w);
    let front = w.draw(6) as usize;
    let extra = junk(w);
    let mut data = w.bytes(front);
    let what = w.draw(if m::WZ { 5 } else { 6 });
    let acts = match what {
        0 | 1 => vec![g_act(w, &mix)],
        2 | 3 => g_cmd(w, &Mix { after_indirect: false, ..mix }),
        _ => vec![],
    };
    if norm_cmd(&acts).is_none() {
        return Ok(());
    }
    data.extend(match what {
        5 => fg_frame(w).0,
        4 => bg_frame(w).0,
        _ => m::enc_cmd(&acts),
    });
    let end = data.len();
    // a command that can go on takes what there is
    if !matches!(what, 2 | 3) || matches!(acts.last(), Some(Act::Indirect(..))) {
        data.extend(&extra);
    }
    w.note_bytes("data", &data);
    let input = (&data[..], front * 8);
    let mut s = Source::new(w, &data, Plan::awkward(w));
    let bits = |n: usize| Ok(n);
    let rest = |(r, bit): (&[u8], usize)| Err((r.len(), bit));
    // how many bits were read, or what is left
    let got: Result<Result<usize, (usize, usize)>, DekuError> = guard("reading at an offset", || match what {
        0 => <Action as DekuContainerRead>::from_reader((&mut s, front * 8)).map(|(n, _)| bits(n)),
        1 => <Action as DekuContainerRead>::from_bytes(input).map(|(r, _)| rest(r)),
        2 => Command::from_reader((&mut s, front * 8)).map(|(n, _)| bits(n)),
        3 => Command::from_bytes(input).map(|(r, _)| rest(r)),
        4 => BackgroundFrame::from_bytes(input).map(|(r, _)| rest(r)),
        _ => ForegroundFrame::from_bytes(input).map(|(r, _)| rest(r)),
    })?;
    let want = match what {
        0 | 2 => Ok(end * 8),
        _ => Err((data.len() - end, 0)),
    };
    ensure!(got == Ok(want), "offset", "what is at byte {front} of {} ends at {end}, but reading it gave {got:?}", hex(&data));
    w.count("at offset");
    Ok(())
}

/// Many of one kind through one reader
fn in_a_row(w: &World) -> Res {
    let mix = mixes(w);
    let mut acts = vec![];
    let n = w.range(1, 7);
    for _ in 0..n {
        let a = g_act(w, &mix);
        if a.norm().is_ok() {
            acts.push(a);
        }
    }
    let mut data = m::enc_cmd(&acts);
    let len = data.len();
    data.extend(junk(w));
    w.note_bytes("data", &data);
    let mut s = Source::new(w, &data, Plan::awkward(w));
    let kind = item_act(&Act::Nop(Default::default())).kind;
    let (got, err) = guard("Reader", || kind.read_many(&mut s, acts.len()))?;
    ensure!(err.is_none(), "refused", "{} of {} actions of {}, then {err:?}", got.len(), acts.len(), hex(&data));
    for (g, a) in got.iter().zip(&acts) {
        let lib = g.any().downcast_ref::<Action>().expect("action");
        let a = a.norm().expect("checked");
        ensure!(same_act(lib, &a)?, "differs", "{a:?} was read as {lib:?}, in {}", hex(&data));
        w.count("values");
    }
    ensure!(
        s.pos == len as u64 && s.high <= len as u64,
        "position",
        "{} actions end at {len}, but the stream was left at {} and read up to {}, for {}",
        acts.len(),
        s.pos,
        s.high,
        hex(&data)
    );
    Ok(())
}

/// Slices: what is left is told exactly, and a conversion that has no way to tell refuses it
fn trailing(w: &World) -> Res {
    let mix = mixes(w);
    let extra = junk(w);
    match w.draw(5) {
        0 => {
            let a = g_act(w, &mix);
            if a.norm().is_err() {
                return Ok(());
            }
            let mut data = a.enc();
            let len = data.len();
            data.extend(&extra);
            w.note_bytes("data", &data);
            match guard("Action::from_bytes", || <Action as DekuContainerRead>::from_bytes((&data, 0)))? {
                Ok(((rest, bit), _)) => ensure!(
                    rest == &data[len..] && bit == 0,
                    "rest",
                    "{a:?} ends at {len} of {}, but {} bytes and {bit} bits are left",
                    hex(&data),
                    rest.len()
                ),
                Err(e) => return violation("refused", format!("{} gave {e:?}", hex(&data))),
            }
            let whole = guard("Action::try_from", || Action::try_from(&data[..]))?;
            ensure!(
                whole.is_ok() == extra.is_empty(),
                "trailing",
                "an action of {len} bytes in {} gave {whole:?}",
                hex(&data)
            );
        }
        1 | 2 => {
            // the rest after an indirect forward belongs to whoever knows that interface
            let mut acts = g_cmd(w, &Mix { after_indirect: false, ..mix });
            if !matches!(acts.last(), Some(Act::Indirect(..))) {
                acts.push(Act::Indirect(g_bool(w), if g_bool(w) { Some(g_indif(w, &mix)) } else { None }));
            }
            if norm_cmd(&acts).is_none() {
                return Ok(());
            }
            let mut data = m::enc_cmd(&acts);
            let len = data.len();
            data.extend(&extra);
            w.note_bytes("data", &data);
            match guard("Command::from_bytes", || Command::from_bytes((&data, 0)))? {
                Ok(((rest, bit), c)) => {
                    ensure!(
                        rest == &data[len..] && bit == 0,
                        "rest",
                        "the command ends at {len} of {}, but {} bytes and {bit} bits are left",
                        hex(&data),
                        rest.len()
                    );
                    ensure!(c.actions.len() == acts.len(), "differs", "{acts:?} was read as {c:?}");
                }
                Err(e) => return violation("refused", format!("{} gave {e:?}", hex(&data))),
            }
            let whole = decode(&data)?;
            ensure!(whole.is_ok() == extra.is_empty(), "trailing", "{len} bytes of {} gave {whole:?}", hex(&data));
        }
        3 => {
            let id = g_typed_id(w);
            let f = g_typed_file(w, id, &mix);
            let mut data = f.enc();
            let len = data.len();
            data.extend(&extra);
            w.note_bytes("data", &data);
            match guard("File::from_bytes", || File::from_bytes((&data, 0), file_id(id), len as u32))? {
                Ok(((rest, bit), _)) => ensure!(
                    rest == &data[len..] && bit == 0,
                    "rest",
                    "file {id} ends at {len} of {}, but {} bytes and {bit} bits are left",
                    hex(&data),
                    rest.len()
                ),
                Err(e) => return violation("refused", format!("file {id}: {} gave {e:?}", hex(&data))),
            }
        }
        _ => {
            let fg = !m::WZ && g_bool(w);
            let mut data = if fg { fg_frame(w).0 } else { bg_frame(w).0 };
            let len = data.len();
            data.extend(&extra);
            w.note_bytes("data", &data);
            let ok = if fg {
                guard("ForegroundFrame::try_from", || ForegroundFrame::try_from(&data[..]).map(|_| ()))?
            } else {
                guard("BackgroundFrame::try_from", || BackgroundFrame::try_from(&data[..]).map(|_| ()))?
            };
            ensure!(ok.is_ok() == extra.is_empty(), "trailing", "a frame of {len} bytes in {} gave {ok:?}", hex(&data));
        }
    }
    w.count("slices");
    Ok(())
}

/// A conversation over an open stream: the next action is only sent after the last one was understood
fn lockstep(w: &World) -> Res {
    w.core().preempt = w.pick(&[200, 1000]);
    let pairs = w.range(1, 3);
    let mut jobs: Jobs = vec![];
    for _ in 0..pairs {
        let there = Pipe::new(w, w.pick(&[0, 50, 5000]));
        let back = Pipe::new(w, w.pick(&[0, 50, 5000]));
        let n = w.range(1, 5);
        let mut acts = vec![];
        for _ in 0..n {
            let a = g_act(w, &Mix::SEND);
            let Ok(norm) = a.norm() else { continue };
            let (Some(sent), Some(arrives)) = (crate::bridge::act(&a), crate::bridge::act(&norm)) else { continue };
            acts.push((sent, arrives));
        }
        let plans = [Plan::awkward(w), Plan::awkward(w), Plan::awkward(w)];
        let (a, b) = (acts.clone(), acts);
        {
            let (there, back) = (there.clone(), back.clone());
            let plan = plans[0].clone();
            let rx = plans[1].clone();
            let w = w.clone();
            jobs.push(Box::new(move || {
                let mut out = PipeWriter::new(&there, plan);
                let mut acks = PipeReader::new(&back, rx);
                for (sent, _) in &a {
                    if let Err(e) = encode_act_to(sent, &mut out)? {
                        if w.aborted().is_some() {
                            return Ok(());
                        }
                        return violation("send", format!("{sent:?} cannot be sent: {e:?}"));
                    }
                    // the answer is a response tag
                    match decode_act_from(&mut acks)? {
                        Ok((16, Action::ResponseTag(_))) => {}
                        _ if w.aborted().is_some() => return Ok(()),
                        other => return violation("answer", format!("a response tag came in as {other:?}")),
                    }
                }
                there.close();
                Ok(())
            }));
        }
        {
            let plan = plans[2].clone();
            let w = w.clone();
            jobs.push(Box::new(move || {
                let mut input = PipeReader::new(&there, plan);
                for (k, (_, want)) in b.iter().enumerate() {
                    match decode_act_from(&mut input)? {
                        Ok((_, got)) => ensure!(got == *want, "differs", "{want:?} came in as {got:?}"),
                        Err(_) if w.aborted().is_some() => return Ok(()),
                        Err(e) => return violation("refused", format!("{want:?} gave {e:?}")),
                    }
                    w.count("values");
                    w.mark("step", k as u64, input.pos);
                    let tag = Act::ResponseTag { eop: true, err: false, id: k as u8 }.enc();
                    let mut out = PipeWriter::new(&back, Plan::none());
                    let _ = out.write_all(&tag);
                }
                Ok(())
            }));
        }
    }
    match w.run_tasks(jobs) {
        Err(v) if v.class == "deadlock" => violation(
            "deadlock",
            "the receiver wants bytes beyond the action it was sent, and the sender waits for its answer",
        ),
        r => r,
    }
}
