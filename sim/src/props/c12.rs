//! C12: a read that fails leaves nothing behind, and a value is released exactly once.

use crate::gen::*;
use crate::io::HARD;
use crate::kinds::*;
use crate::meter::metered;
use crate::net::mutate;
use crate::rt::*;
use super::common::too_much;
use dash7::app::action::Action;
use dash7::app::command::Command;
use deku::prelude::*;
use std::io::{Cursor, Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn run(w: &World) -> Res {
    #[cfg(dash7_verif)]
    if w.draw(2) == 0 {
        return arrays::run(w);
    }
    leaks(w)
}

/// How a source or sink ends. Does not touch the world, so that all memory in between is the library's.
#[derive(Clone, Copy, Debug)]
pub enum End {
    Never,
    Error(u64, ErrorKind),
    Panic(u64),
}

pub struct Bare<'a> {
    pub data: Cursor<&'a [u8]>,
    pub end: End,
    pub ops: u64,
}

impl Bare<'_> {
    fn op(&mut self) -> Result<()> {
        self.ops += 1;
        match self.end {
            End::Error(at, kind) if self.ops > at => Err(Error::from(kind)),
            End::Panic(at) if self.ops > at => panic!("source quits"),
            _ => Ok(()),
        }
    }
}

impl Read for Bare<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.op()?;
        self.data.read(buf)
    }
}

impl Seek for Bare<'_> {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
        self.op()?;
        self.data.seek(pos)
    }
}

struct Drain {
    end: End,
    ops: u64,
    len: u64,
}

impl Write for Drain {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.ops += 1;
        match self.end {
            End::Error(at, kind) if self.ops > at => return Err(Error::from(kind)),
            End::Panic(at) if self.ops > at => panic!("sink quits"),
            _ => {}
        }
        self.len += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

impl Seek for Drain {
    fn seek(&mut self, _: SeekFrom) -> Result<u64> {
        Ok(self.len)
    }
}

fn g_end(w: &World, max: u64) -> End {
    let end = match w.draw(4) {
        0 => End::Never,
        1 | 2 => End::Error(w.draw(max), w.pick(&HARD)),
        _ => End::Panic(w.draw(max)),
    };
    match end {
        End::Error(at, _) => w.fault("fault.read_error", at),
        End::Panic(at) => w.fault("fault.unwind", at),
        End::Never => {}
    }
    end
}

/// What is still held after a read and, if that works, a write
fn held(kind: &Kind, data: &[u8], rx: End, tx: End) -> (i64, Option<String>) {
    let (unexpected, used) = metered(|| {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut s = Bare { data: Cursor::new(data), end: rx, ops: 0 };
            if let Ok((_, v)) = kind.read_raw(&mut s) {
                let mut d = Drain { end: tx, ops: 0, len: 0 };
                let _ = v.write(&mut d);
            }
        }));
        let quit = match r {
            Ok(()) => true,
            Err(_) => {
                let m = last_panic();
                m.starts_with("source quits") || m.starts_with("sink quits")
            }
        };
        quit
    });
    (used.net, (!unexpected).then(|| "the library panicked".to_string()))
}

/// What is still held after a write that is refused
fn refused(w: &World) -> Res {
    let mut acts: Vec<Action> = (0..w.draw(2)).filter_map(|_| crate::bridge::act(&g_act(w, &Mix::SEND))).collect();
    acts.push(too_much(w));
    let cmd = Command::new(acts);
    let tx = g_end(w, 24);
    let once = || {
        let (ok, used) = metered(|| {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut d = Drain { end: tx, ops: 0, len: 0 };
                let mut out = Writer::new(&mut d);
                DekuWriter::to_writer(&cmd, &mut out, 0).is_err()
            }));
            r.unwrap_or_else(|_| last_panic().starts_with("sink quits"))
        });
        (used.net, ok)
    };
    let (net, ok) = once();
    ensure!(ok, "panic", "writing {cmd:?} did not fail");
    if net != 0 {
        let (again, third) = (once().0, once().0);
        ensure!(again == 0 || third == 0, "leak", "the refused write of {cmd:?} with {tx:?} keeps {third} bytes of memory");
    }
    w.count("refused writes");
    Ok(())
}

fn leaks(w: &World) -> Res {
    if w.draw(8) == 1 {
        return refused(w);
    }
    for _ in 0..w.range(1, 4) {
        let i = g_item(w, if g_bool(w) { &Mix::WIRE } else { &Mix::SEND });
        let mut data = i.bytes.clone();
        match w.draw(4) {
            0 => {
                mutate(w, &mut data);
                w.fault("fault.corrupt", data.len() as u64);
            }
            1 => {
                data.truncate(w.draw(data.len() as u64 + 1) as usize);
                w.fault("fault.truncated", data.len() as u64);
            }
            _ => {}
        }
        w.note_bytes(i.kind.name(), &data);
        let max = 3 * data.len() as u64 + 4;
        let (rx, tx) = (g_end(w, max), g_end(w, max));
        let (net, panicked) = held(&i.kind, &data, rx, tx);
        if let Some(p) = panicked {
            return violation("panic", format!("{p}: {} {} with {rx:?}, {tx:?}", i.kind.name(), hex(&data)));
        }
        if net != 0 {
            // what is set up once is not lost
            let (again, _) = held(&i.kind, &data, rx, tx);
            let (third, _) = held(&i.kind, &data, rx, tx);
            ensure!(
                again == 0 || third == 0,
                "leak",
                "{} {} with {rx:?}, {tx:?} keeps {third} bytes of memory",
                i.kind.name(),
                hex(&data)
            );
        }
        w.count("decodes");
    }
    Ok(())
}

#[cfg(dash7_verif)]
mod arrays {
    use super::*;
    use deku::reader::Reader;
    use std::cell::RefCell;
    use std::collections::BTreeMap;

    #[derive(Default)]
    struct Ledger {
        next: u64,
        /// How often each element was released
        drops: BTreeMap<u64, u32>,
        /// Releases of something that never was an element
        wild: u32,
    }

    thread_local! {
        static LEDGER: RefCell<Ledger> = RefCell::default();
    }

    const GOOD: u64 = 0x600D_600D_600D_600D;

    /// An element that owns something
    #[derive(Debug)]
    struct Element {
        tag: u64,
        id: u64,
        byte: u8,
        owned: Box<u8>,
    }

    impl Drop for Element {
        fn drop(&mut self) {
            LEDGER.with(|l| {
                let mut l = l.borrow_mut();
                if self.tag != GOOD {
                    l.wild += 1;
                    // not ours: whatever it points to is left alone
                    std::mem::forget(std::mem::replace(&mut self.owned, Box::new(0)));
                    return;
                }
                *l.drops.entry(self.id).or_insert(0) += 1;
                if l.drops[&self.id] > 1 {
                    std::mem::forget(std::mem::replace(&mut self.owned, Box::new(0)));
                }
            })
        }
    }

    impl<'a> DekuReader<'a> for Element {
        fn from_reader_with_ctx<R: Read + Seek>(r: &mut Reader<R>, _: ()) -> std::result::Result<Self, DekuError> {
            let byte = <u8 as DekuReader<'_, ()>>::from_reader_with_ctx(r, ())?;
            match byte {
                0xFF => return Err(DekuError::Parse("bad element".into())),
                0xFE => panic!("element quits"),
                _ => {}
            }
            let id = LEDGER.with(|l| {
                let mut l = l.borrow_mut();
                l.next += 1;
                let id = l.next;
                l.drops.insert(id, 0);
                id
            });
            Ok(Element { tag: GOOD, id, byte, owned: Box::new(byte) })
        }
    }

    fn one<const N: usize>(w: &World) -> Res {
        let n = N as u64;
        let mut data: Vec<u8> = (0..N).map(|i| i as u8 % 200).collect();
        let at = w.draw(n + 1);
        let mut end = End::Never;
        let how = w.draw(6);
        match how {
            0 => {}
            1 => {
                data.truncate(at as usize);
                w.fault("fault.truncated", at);
            }
            2 => {
                end = End::Error(at, w.pick(&HARD));
                w.fault("fault.read_error", at);
            }
            3 => {
                end = End::Panic(at);
                w.fault("fault.unwind", at);
            }
            4 if at < n => {
                data[at as usize] = 0xFF;
                w.fault("fault.corrupt", at);
            }
            _ if at < n => {
                data[at as usize] = 0xFE;
                w.fault("fault.unwind", at);
            }
            _ => {}
        }
        w.mark("array", n, how * 100 + at);
        LEDGER.with(|l| *l.borrow_mut() = Ledger::default());
        let mut s = Bare { data: Cursor::new(&data), end, ops: 0 };
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut r = Reader::new(&mut s);
            dash7::verif::array_from_reader::<_, Element, N>(&mut r)
        }));
        let what = format!("an array of {N}, ended by {how} at element {at}");
        let live = |want: u32| -> Res {
            LEDGER.with(|l| {
                let l = l.borrow();
                ensure!(l.wild == 0, "wild", "{what}: {} releases of nothing", l.wild);
                for (id, n) in &l.drops {
                    ensure!(*n == want, "balance", "{what}: element {id} was released {n} times, not {want}");
                }
                Ok(())
            })
        };
        match r {
            Ok(Ok(a)) => {
                ensure!(data.len() == N, "invented", "{what}: an array from {} bytes", data.len());
                live(0)?;
                for (i, e) in a.iter().enumerate() {
                    ensure!(
                        e.tag == GOOD && e.byte == data[i] && *e.owned == data[i] && e.id == i as u64 + 1,
                        "order",
                        "{what}: element {i} is {e:?}"
                    );
                }
                drop(a);
                live(1)?;
            }
            Ok(Err(e)) => {
                ensure!(how != 0, "invented", "{what}: {e:?}");
                live(1)?;
            }
            Err(_) => {
                let m = last_panic();
                ensure!(m.starts_with("source quits") || m.starts_with("element quits"), "panic", "{what}: {m}");
                live(1)?;
            }
        }
        w.count("arrays");
        Ok(())
    }

    pub fn run(w: &World) -> Res {
        for _ in 0..w.range(1, 6) {
            match w.draw(7) {
                0 => one::<1>(w)?,
                1 => one::<0>(w)?,
                2 => one::<2>(w)?,
                3 => one::<4>(w)?,
                4 => one::<8>(w)?,
                5 => one::<13>(w)?,
                _ => one::<64>(w)?,
            }
        }
        Ok(())
    }
}
