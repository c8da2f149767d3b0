//! C10: decoding and encoding depend on nothing but their input.

use super::common::*;
use crate::gen::*;
use crate::io::*;
use crate::kinds::*;
use crate::net::mutate;
use crate::rt::*;
use dash7::app::action::Action;
use dash7::app::command::Command;
use dash7::link::{BackgroundFrame, ForegroundFrame};
use deku::prelude::*;
use std::io::{Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub fn run(w: &World) -> Res {
    crate::sys::watch();
    match w.draw(13) {
        0..=2 => history(w),
        3..=5 => nested(w),
        6..=8 => together(w),
        9..=11 => alike(w),
        _ => in_place(w),
    }
}

/// Something to read, good or bad, and what it gives
#[derive(Clone)]
struct Job {
    kind: Kind,
    data: Vec<u8>,
    want: Seen,
    /// What else can be made of the data
    ways: Option<String>,
}

/// All conversions of a slice, and what the library says about what it makes of it
fn ways(data: &[u8]) -> Res<String> {
    guard("TryFrom", || {
        let cmd = Command::try_from(data);
        let about = cmd.as_ref().ok().map(|c| {
            let again = (Vec::<u8>::try_from(c.clone()), c.to_bytes());
            let tags = (c.tag_id(), c.request_id(), c.response_id(), c.is_last_response());
            format!("{c} {again:?} {tags:?} {:?} {:?}", c.interface_status(), c.actions_without_interface_status())
        });
        let prefix = (Command::from_bytes((data, 0)), Action::from_bytes((data, 0)));
        format!(
            "{cmd:?} {about:?} {prefix:?} {:?} {:?} {:?}",
            Action::try_from(data),
            ForegroundFrame::try_from(data),
            BackgroundFrame::try_from(data)
        )
    })
}

#[derive(Clone, PartialEq, Debug)]
enum Seen {
    Value { text: String, bits: usize, bytes: Result<Vec<u8>, DekuError> },
    Error(DekuError),
}

fn seen(got: Result<(usize, Box<dyn Obj>), DekuError>, to: Option<&mut Sink>) -> Res<Seen> {
    Ok(match got {
        Ok((bits, v)) => {
            let bytes = match to {
                Some(s) => v.write_to(s)?.map(|_| s.data.clone()),
                None => v.to_bytes()?,
            };
            Seen::Value { text: guard("Debug", || v.dbg())?, bits, bytes }
        }
        Err(e) => Seen::Error(e),
    })
}

fn job(w: &World) -> Res<Job> {
    let i = g_item(w, if g_bool(w) { &Mix::WIRE } else { &Mix::SEND });
    let mut data = i.bytes;
    if w.draw(3) == 0 {
        mutate(w, &mut data);
        w.fault("fault.corrupt", data.len() as u64);
    }
    let want = seen(i.kind.read_bytes(&data)?, None)?;
    w.note_bytes(i.kind.name(), &data);
    let ways = if data.len() < 300 && w.draw(3) == 0 { Some(ways(&data)?) } else { None };
    Ok(Job { kind: i.kind, data, want, ways })
}

fn check(j: &Job, got: &Seen, when: &str) -> Res {
    ensure!(
        *got == j.want,
        "depends",
        "{} {} gave {:?} on its own, but {got:?} {when}",
        j.kind.name(),
        hex(&j.data),
        j.want
    );
    if let Some(want) = &j.ways {
        let got = ways(&j.data)?;
        ensure!(got == *want, "depends", "{} was understood as {want}, but as {got} {when}", hex(&j.data));
    }
    Ok(())
}

/// The same input before and after all kinds of other calls
fn history(w: &World) -> Res {
    let jobs: Vec<Job> = (0..w.range(2, 4)).map(|_| job(w)).collect::<Res<_>>()?;
    let n = w.range(4, 20);
    for _ in 0..n {
        let j = &jobs[w.draw(jobs.len() as u64) as usize];
        match w.draw(7) {
            0 | 1 => {
                let mut s = Source::new(w, &j.data, Plan::awkward(w));
                let mut out = Sink::new(w, Plan::awkward(w));
                let got = seen(j.kind.read(&mut s)?, Some(&mut out))?;
                check(j, &got, "after other calls")?;
                w.count("decodes");
            }
            2 => {
                // a source that fails
                let mut plan = Plan::awkward(w);
                plan.fail_at = Some((w.draw(12), w.pick(&HARD)));
                plan.stay_failed = true;
                let mut s = Source::new(w, &j.data, plan);
                let _ = j.kind.read(&mut s)?;
            }
            3 => {
                // a sink that fails
                if let Ok((_, v)) = j.kind.read_bytes(&j.data)? {
                    let mut plan = Plan::none();
                    plan.fail_at = Some((w.draw(12), w.pick(&HARD)));
                    plan.stay_failed = true;
                    let mut s = Sink::new(w, plan);
                    let _ = v.write_to(&mut s)?;
                }
            }
            4 => {
                // a value that cannot be written, alone or behind a good one
                let mut acts = match j.want {
                    Seen::Value { .. } => j.kind.read_bytes(&j.data)?.ok(),
                    _ => None,
                }
                .and_then(|(_, v)| v.any().downcast_ref::<Command>().map(|c| c.actions.clone()))
                .unwrap_or_default();
                acts.push(too_much(w));
                let mut s = Sink::new(w, Plan::awkward(w));
                let _ = crate::codec::encode_to(&Command::new(acts), &mut s)?;
                w.count("refused writes");
            }
            5 => {
                // a sink that ends the call in the middle
                if let Ok((_, v)) = j.kind.read_bytes(&j.data)? {
                    let mut s = QuitSink { s: Sink::new(w, Plan::none()), left: w.draw(8) };
                    let r = catch_unwind(AssertUnwindSafe(|| v.write(&mut s)));
                    if r.is_err() {
                        let msg = last_panic();
                        ensure!(msg.starts_with("sink quits"), "panic", "{} panicked: {msg}", j.kind.name());
                        w.fault("fault.unwind", 1);
                    }
                }
            }
            _ => {
                // a source that ends the call in the middle
                let mut s = Quits { s: Source::new(w, &j.data, Plan::none()), left: w.draw(10) };
                let r = catch_unwind(AssertUnwindSafe(|| j.kind.read_raw(&mut s)));
                if r.is_err() {
                    let msg = last_panic();
                    ensure!(msg.starts_with("source quits"), "panic", "{} panicked: {msg}", j.kind.name());
                    w.fault("fault.unwind", 0);
                }
            }
        }
    }
    for j in &jobs {
        check(j, &seen(j.kind.read_bytes(&j.data)?, None)?, "in the end")?;
    }
    Ok(())
}

/// Values that a user built and that differ little, written and read in turns
fn alike(w: &World) -> Res {
    let n = w.range(1, 3);
    let mut items = vec![];
    for _ in 0..n {
        let (a, b) = w.twins(|| g_item(w, &Mix::SEND));
        items.extend([a, b]);
    }
    // what each gives is seen when it is its turn for the first time
    let mut wrote: Vec<Option<Result<Vec<u8>, DekuError>>> = vec![None; items.len()];
    let mut read: Vec<Option<Seen>> = vec![None; items.len()];
    for i in &items {
        w.note_bytes(i.kind.name(), &i.bytes);
    }
    for _ in 0..w.range(4, 16) {
        let k = w.draw(items.len() as u64) as usize;
        let i = &items[k];
        match &i.sent {
            Some(sent) if w.draw(3) < 2 => {
                let mut s = Sink::new(w, Plan::awkward(w));
                let got = sent.write_to(&mut s)?.map(|_| s.data.clone());
                let want = wrote[k].get_or_insert(got.clone());
                ensure!(*want == got, "depends", "{} was written as {want:?}, and after other calls as {got:?}", sent.dbg());
                w.count("encodes");
            }
            _ => {
                let mut s = Source::new(w, &i.bytes, Plan::awkward(w));
                let got = seen(i.kind.read(&mut s)?, None)?;
                let want = read[k].get_or_insert(got.clone());
                ensure!(
                    *want == got,
                    "depends",
                    "{} {} gave {want:?}, and after other calls {got:?}",
                    i.kind.name(),
                    hex(&i.bytes)
                );
                w.count("decodes");
            }
        }
    }
    Ok(())
}

/// One buffer and one value, used for one message after the other
fn in_place(w: &World) -> Res {
    let (a, b) = w.twins(|| letter(w, &Mix { big: 300, ..Mix::SEND }));
    let mut letters = vec![a, b];
    letters.extend((0..w.draw(3)).map(|_| letter(w, &Mix { big: 300, ..Mix::SEND })));
    let wants: Vec<String> = letters.iter().map(|l| ways(&l.bytes)).collect::<Res<_>>()?;
    let texts: Vec<String> = letters.iter().map(|l| guard("Display", || l.sent.to_string())).collect::<Res<_>>()?;
    let room = letters.iter().map(|l| l.bytes.len()).max().unwrap_or(0);
    letters.iter().for_each(|l| w.note_bytes("letter", &l.bytes));
    let mut buf = Vec::with_capacity(room + 8);
    let mut slot = Box::new(Command::new(Vec::with_capacity(letters.iter().map(|l| l.acts.len()).max().unwrap_or(0))));
    for _ in 0..w.range(3, 12) {
        let k = w.draw(letters.len() as u64) as usize;
        let l = &letters[k];
        if g_bool(w) {
            let at = w.draw(8) as usize;
            buf.clear();
            buf.resize(at, 0xC0);
            buf.extend_from_slice(&l.bytes);
            let got = ways(&buf[at..])?;
            ensure!(got == wants[k], "depends", "{} was understood as {}, but as {got} in a buffer that had another", hex(&l.bytes), wants[k]);
            w.count("decodes");
        } else {
            slot.actions.clear();
            slot.actions.extend(l.sent.actions.iter().cloned());
            let got = guard("Command::to_bytes", || slot.to_bytes())?;
            ensure!(got.as_ref() == Ok(&l.bytes), "depends", "{slot:?} was written as {got:?} instead of {}", hex(&l.bytes));
            let text = guard("Display", || slot.to_string())?;
            ensure!(text == texts[k], "depends", "{:?} was shown as {text:?}, in the place of another", texts[k]);
            w.count("encodes");
        }
    }
    Ok(())
}

struct Quits {
    s: Source,
    left: u64,
}

impl Quits {
    fn tick(&mut self) {
        if self.left == 0 {
            panic!("source quits");
        }
        self.left -= 1;
    }
}

impl Read for Quits {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.tick();
        self.s.read(buf)
    }
}

impl Seek for Quits {
    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
        self.tick();
        self.s.seek(pos)
    }
}

struct QuitSink {
    s: Sink,
    left: u64,
}

impl Write for QuitSink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            panic!("sink quits");
        }
        self.left -= 1;
        self.s.write(buf)
    }

    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl Seek for QuitSink {
    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
        self.s.seek(pos)
    }
}

/// A sink that uses the library itself
struct LayeredSink {
    s: Sink,
    inner: Vec<Job>,
    failed: Option<Violation>,
}

impl Write for LayeredSink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let w = self.s.w.clone();
        if self.failed.is_none() && w.chance(1, 3) {
            let k = w.draw(self.inner.len() as u64) as usize;
            let j = self.inner[k].clone();
            w.mark("nested", k as u64, 9);
            w.count("nested encodes");
            let mut s = Source::new(&w, &j.data, Plan::none());
            let r = j.kind.read(&mut s).and_then(|got| check(&j, &seen(got, None)?, "inside of an encode"));
            self.failed = r.err();
        }
        self.s.write(buf)
    }

    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl Seek for LayeredSink {
    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
        self.s.seek(pos)
    }
}

/// A source that uses the library itself, to any depth
struct Layered {
    s: Source,
    inner: Vec<Job>,
    failed: Option<Violation>,
}

impl Layered {
    fn work(&mut self) {
        if self.failed.is_some() || self.inner.is_empty() || !self.s.w.chance(1, 3) {
            return;
        }
        let w = self.s.w.clone();
        let k = w.draw(self.inner.len() as u64) as usize;
        let j = self.inner[k].clone();
        let deeper = if w.chance(1, 4) { self.inner[k + 1..].to_vec() } else { vec![] };
        w.mark("nested", k as u64, deeper.len() as u64);
        w.count("nested decodes");
        let mut s = Layered { s: Source::new(&w, &j.data, Plan::none()), inner: deeper, failed: None };
        let r = j.kind.read(&mut s).and_then(|got| check(&j, &seen(got, None)?, "inside of another decode"));
        self.failed = r.err().or(s.failed.take());
    }
}

impl Read for Layered {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.work();
        self.s.read(buf)
    }
}

impl Seek for Layered {
    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
        self.work();
        self.s.seek(pos)
    }
}

fn nested(w: &World) -> Res {
    let outer = job(w)?;
    let inner: Vec<Job> = (0..w.range(1, 3)).map(|_| job(w)).collect::<Res<_>>()?;
    let mut s = Layered { s: Source::new(w, &outer.data, Plan::awkward(w)), inner: inner.clone(), failed: None };
    let got = outer.kind.read(&mut s)?;
    if let (Ok((_, v)), Seen::Value { bytes: Ok(want), .. }) = (&got, &outer.want) {
        let mut s = LayeredSink { s: Sink::new(w, Plan::awkward(w)), inner, failed: None };
        let r = v.write_to(&mut s)?;
        if let Some(v) = s.failed.take() {
            return Err(v);
        }
        ensure!(
            r.is_ok() && s.s.data == *want,
            "depends",
            "{} is written as {} on its own, but as {} ({r:?}) with other calls inside of it",
            v.dbg(),
            hex(want),
            hex(&s.s.data)
        );
    }
    if let Some(v) = s.failed.take() {
        return Err(v);
    }
    check(&outer, &seen(got, None)?, "with other decodes inside of it")
}

/// Tasks that switch at any i/o operation, on values of their own and on a shared one
fn together(w: &World) -> Res {
    w.core().preempt = w.pick(&[100, 400, 1000]);
    let n = w.range(2, 6);
    let shared = letter(w, &Mix::SEND);
    w.note_bytes("shared", &shared.bytes);
    let shared = Arc::new((shared.sent, shared.bytes));
    let mut tasks: Jobs = vec![];
    for _ in 0..n {
        let mine: Vec<Job> = (0..w.range(1, 3)).map(|_| job(w)).collect::<Res<_>>()?;
        let plans: Vec<(Plan, Plan)> = mine.iter().map(|_| (Plan::awkward(w), Plan::awkward(w))).collect();
        let last = Plan::awkward(w);
        let shared = shared.clone();
        let w = w.clone();
        tasks.push(Box::new(move || {
            for (j, (rx, tx)) in mine.iter().zip(plans) {
                let mut s = Source::new(&w, &j.data, rx);
                let mut out = Sink::new(&w, tx);
                let got = seen(j.kind.read(&mut s)?, Some(&mut out))?;
                check(j, &got, "next to other tasks")?;
                w.count("decodes");
            }
            let mut out = Sink::new(&w, last);
            let r = crate::codec::encode_to(&shared.0, &mut out)?;
            ensure!(
                r.is_ok() && out.data == shared.1,
                "shared",
                "{} was sent by several tasks, by one of them as {}: {r:?}",
                hex(&shared.1),
                hex(&out.data)
            );
            Ok(())
        }));
    }
    w.run_tasks(tasks)
}
