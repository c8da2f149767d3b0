//! C14: files of a device arrive whole, or as what they are.

use crate::bridge;
use crate::codec::*;
use crate::gen::*;
use crate::kinds::*;
use crate::model::{self as m, Act, Hd};
use crate::net::*;
use crate::rt::*;
use dash7::app::action::{Action, OpCode};
use dash7::app::operation::{ActionHeader, FileData, FileOffset, ReadFileData, RequestTag, RequestTagHeader};
use dash7::app::command::Command;
use dash7::file::File;

enum E {
    /// The next step of the writing client, or the same once more if there was no answer by now
    Write(u64),
    /// The next step of the reading client
    Read(u64),
    /// From or to a client, with the number that the transport gave to the request
    Device(usize, u64, Vec<u8>),
    Client(usize, u64, Vec<u8>),
    Crash,
    Restart,
}

struct Writer {
    /// Versions still to be written, and how far the first is
    todo: Vec<m::File>,
    at: usize,
    chunk: usize,
    tag: u8,
    seq: u64,
}

struct Reader {
    got: Vec<u8>,
    chunk: usize,
    tag: u8,
    seq: u64,
    rounds: u32,
}

fn tag(id: u8) -> Action {
    Action::RequestTag(RequestTag { header: RequestTagHeader { end_of_packet: true }, opcode: OpCode::REQUEST_TAG, id })
}

/// The bytes in a data action: a user has no access to them but this
fn data_of(a: &Action) -> Res<(u8, u32, Vec<u8>)> {
    let mut out = std::io::Cursor::new(vec![]);
    if let Err(e) = encode_act_to(a, &mut out)? {
        return violation("answer", format!("{a:?} cannot be written: {e:?}"));
    }
    let b = out.into_inner();
    let mut r = m::BitR::new(&b[1..]);
    let mut f = || -> Result<(u8, u32, Vec<u8>), m::Bad> {
        let id = r.u8()?;
        let off = m::dec_len(&mut r)?;
        let n = m::dec_len(&mut r)?;
        Ok((id, off, r.raw(n as usize)?))
    };
    match f() {
        Ok(x) => Ok(x),
        Err(e) => violation("answer", format!("{a:?} was written as {}: {e:?}", hex(&b))),
    }
}

/// What the library takes an image for is what the bytes say
fn interpret(w: &World, id: u8, img: &[u8]) -> Res<Option<File>> {
    let lib = guard("File::from_bytes", || {
        File::from_bytes((img, 0), file_id(id), img.len() as u32).map(|(r, f)| (r.0.len(), f))
    })?;
    let mut r = m::BitR::new(img);
    let reference = if m::is_typed(id) {
        m::File::dec_typed(&mut r, id)
    } else {
        Ok(m::File::Raw(img.to_vec()))
    };
    match (lib, reference) {
        (Ok((rest, f)), Ok(want)) => {
            let left = if m::is_typed(id) { r.left() } else { 0 };
            ensure!(rest == left, "rest", "file {id}: {left} bytes of {} are left, not {rest}", hex(img));
            ensure!(f == bridge::file(&want), "differs", "file {id}: {} is {want:?}, but was read as {f:?}", hex(img));
            if let Some((file, own)) = profile(&f) {
                ensure!(file == own && id == 0x20 + own, "differs", "file {id} was read as profile {file}, which says that it is {own}");
            }
            if let Some(own) = own_id(&f) {
                ensure!(id == own, "differs", "file {id} was read as file {own}");
            }
            w.count("images read");
            Ok(Some(f))
        }
        (Err(_), Err(_)) => {
            w.count("images refused");
            Ok(None)
        }
        (lib, want) => violation("differs", format!("file {id}: {} is {want:?}, but was read as {lib:?}", hex(img))),
    }
}

pub fn run(w: &World) -> Res {
    // by its name, a client finds the file that has this name
    let name = w.pick(&NAMED_FILES);
    let number: u8 = guard("FileId::into", || file_id(name).into())?;
    ensure!(number == name, "name", "file {name} is called {:?}, which is file {number}", file_id(name));
    let id = if w.draw(4) == 0 { g_untyped_id(w) } else { g_typed_id(w) };
    let big = !m::is_typed(id) && w.draw(8) == 7;
    let versions: Vec<m::File> = (0..w.range(1, 3))
        .map(|_| {
            if m::is_typed(id) {
                g_typed_file(w, id, &Mix::SEND)
            } else {
                let n = if big { w.range(300, 18_000) } else { w.range(1, 100) } as usize;
                m::File::Raw(if big { w.bytes(n) } else { g_untyped_bytes(w, id, n) })
            }
        })
        .collect();
    let last = versions.last().unwrap().clone();
    let last_bytes = last.enc();
    for v in &versions {
        w.note_bytes("version", &v.enc());
    }
    let calm = 300_000;
    let air = Air::random(w, calm);
    let lib_device = g_bool(w);
    let mut sim = Sim::new(w);
    let mut up = true;
    // the flash of the device: all that survives
    let mut flash: Vec<u8> = if g_bool(w) {
        vec![w.pick(&[0u8, 0xFF]); last_bytes.len()]
    } else if m::is_typed(id) {
        g_typed_file(w, id, &Mix::WIRE).enc()
    } else {
        vec![]
    };
    let mut seen = 0;
    let sizes = if big { vec![255u64, 1000, 4000, 17_000] } else { vec![1u64, 3, 8, 20, 64, 255, 1000] };
    let mut wr = Writer { todo: versions.clone(), at: 0, chunk: w.pick(&sizes) as usize, tag: 0, seq: 1 };
    let mut rd = Reader { got: vec![], chunk: w.pick(&sizes) as usize, tag: 0x80, seq: 1, rounds: 0 };
    sim.after(0, E::Write(1));
    sim.after(w.draw(30_000), E::Read(1));
    for _ in 0..w.draw(4) {
        sim.after(w.draw(calm), E::Crash);
    }
    // what is left to do after the last fault, if every part is a byte and every message takes as long as it can
    let parts = versions.iter().map(|v| v.enc().len() as u64 + 1).sum::<u64>() + flash.len() as u64 + last_bytes.len() as u64 + 40;
    let (most_steps, most_time) = (40_000 + 40 * parts, calm + 200_000 + parts * (4 * air.max_delay + 20_000));
    while let Some(e) = sim.next() {
        ensure!(sim.steps < most_steps, "livelock", "{} steps", sim.steps);
        ensure!(w.now() < most_time, "livelock", "not written long after the last fault");
        match e {
            E::Write(n) => {
                if n != wr.seq {
                    continue;
                }
                let Some(v) = wr.todo.first() else { continue };
                let bytes = v.enc();
                // the client writes what the library makes of its file
                let lib = item_file(id, v).sent.expect("can be built").to_bytes()?;
                ensure!(lib.as_ref() == Ok(&bytes), "format", "file {id}: {v:?} is {}, but was written as {lib:?}", hex(&bytes));
                let end = (wr.at + wr.chunk).min(bytes.len());
                let whole = wr.at == 0 && end == bytes.len();
                let content = if whole && w.draw(2) == 0 {
                    bridge::file(v)
                } else {
                    File::Other(bytes[wr.at..end].to_vec())
                };
                let cmd = Command::new(vec![
                    tag(wr.tag),
                    Action::WriteFileData(FileData::new(
                        ActionHeader::new(false, true),
                        FileOffset { file_id: id, offset: (wr.at as u32).into() },
                        content,
                        OpCode::WRITE_FILE_DATA,
                    )),
                ]);
                let data = encode_ok(&cmd)?;
                w.note_bytes("write", &data);
                for (t, d) in air.carry(w, 0, 1, &data) {
                    sim.after(t, E::Device(0, wr.seq, d));
                }
                sim.after(2 * air.max_delay + 10_000, E::Write(wr.seq));
            }
            E::Read(n) => {
                if n != rd.seq {
                    continue;
                }
                let done = wr.todo.is_empty();
                if done && rd.rounds > 0 {
                    continue;
                }
                let cmd = Command::new(vec![
                    tag(rd.tag),
                    Action::ReadFileData(ReadFileData {
                        header: ActionHeader::new(false, true),
                        opcode: OpCode::READ_FILE_DATA,
                        offset: FileOffset { file_id: id, offset: (rd.got.len() as u32).into() },
                        length: (rd.chunk as u32).into(),
                    }),
                ]);
                let data = encode_ok(&cmd)?;
                for (t, d) in air.carry(w, 2, 1, &data) {
                    sim.after(t, E::Device(2, rd.seq, d));
                }
                sim.after(2 * air.max_delay + 10_000, E::Read(rd.seq));
            }
            E::Device(from, seq, data) => {
                if !up {
                    continue;
                }
                // a request that was answered long ago
                if from == 0 && seq < seen {
                    w.count("stale requests");
                    continue;
                }
                let (acts, _) = match m::dec_cmd(&data) {
                    Ok(x) => x,
                    Err(e) => return violation("format", format!("a device cannot read {}: {e:?}", hex(&data))),
                };
                let writes: Vec<(u8, u32, Vec<u8>)> = if lib_device {
                    let c = match decode(&data)? {
                        Ok(c) => c,
                        Err(e) => return violation("refused", format!("{} gave {e:?}", hex(&data))),
                    };
                    let mut x = vec![];
                    for a in &c.actions {
                        if matches!(a, Action::WriteFileData(_)) {
                            x.push(data_of(a)?);
                        }
                    }
                    x
                } else {
                    acts.iter()
                        .filter_map(|a| match a {
                            Act::Data(4, _, off, f) => Some((off.0, off.1, f.enc())),
                            _ => None,
                        })
                        .collect()
                };
                let mut reply = vec![];
                for a in &acts {
                    match a {
                        Act::RequestTag { id, .. } => reply.push(Act::ResponseTag { eop: true, err: false, id: *id }),
                        Act::ReadData(_, (f, off), n) if *f == id => {
                            let a = (*off as usize).min(flash.len());
                            let b = (a + *n as usize).min(flash.len());
                            let part = flash[a..b].to_vec();
                            // a device sends what it has, by whatever name
                            reply.push(Act::Data(32, Hd::default(), (id, *off), m::File::Raw(part)));
                        }
                        _ => {}
                    }
                }
                let mut crash = false;
                for (f, off, content) in writes {
                    ensure!(f == id, "answer", "written to file {f}, not {id}");
                    let off = off as usize;
                    let mut n = content.len();
                    if w.now() < calm && w.chance(1, 12) {
                        // the power fails in the middle of it
                        n = w.draw(n as u64 + 1) as usize;
                        crash = true;
                        w.fault("fault.torn_write", n as u64);
                    }
                    if flash.len() < off + n {
                        flash.resize(off + n, 0xFF);
                    }
                    flash[off..off + n].copy_from_slice(&content[..n]);
                    w.mark("flash", off as u64, n as u64);
                }
                if crash {
                    up = false;
                    w.fault("fault.crash", 1);
                    sim.after(1 + w.draw(40_000), E::Restart);
                    continue;
                }
                if from == 0 {
                    seen = seq;
                }
                let data = m::enc_cmd(&reply);
                for (t, d) in air.carry(w, 1, from, &data) {
                    sim.after(t, E::Client(from, seq, d));
                }
            }
            E::Client(who, seq, data) => {
                if seq != if who == 0 { wr.seq } else { rd.seq } {
                    continue;
                }
                // what a reply says at the very start of a system file may be refused, if it is none
                let c = match (decode(&data)?, m::dec_cmd(&data)) {
                    (Ok(c), Ok(_)) => c,
                    (Err(_), Err(_)) => {
                        // read on in another way
                        ensure!(who == 2, "refused", "{} gave an error", hex(&data));
                        w.count("refused replies");
                        rd.chunk = (rd.chunk / 2).max(1);
                        rd.seq += 1;
                        sim.after(1, E::Read(rd.seq));
                        continue;
                    }
                    (lib, want) => {
                        return violation("differs", format!("{} is {want:?}, but was read as {lib:?}", hex(&data)))
                    }
                };
                if who == 0 {
                    ensure!(c.response_id() == Some(wr.tag), "answer", "{c:?} answers request {}", wr.tag);
                    if !wr.todo.is_empty() {
                        let n = wr.todo[0].enc().len();
                        wr.at = (wr.at + wr.chunk).min(n);
                        if wr.at == n {
                            wr.todo.remove(0);
                            wr.at = 0;
                            wr.chunk = w.pick(&sizes) as usize;
                            if wr.todo.is_empty() {
                                // the reader starts over, to see the end of it
                                rd.got.clear();
                                rd.tag = 0x80 | (rd.tag.wrapping_add(1) & 0x7F);
                                rd.seq += 1;
                                rd.rounds = 0;
                                sim.after(1, E::Read(rd.seq));
                            }
                        }
                        wr.tag = (wr.tag + 1) & 0x7F;
                        wr.seq += 1;
                        sim.after(1, E::Write(wr.seq));
                    }
                    continue;
                }
                ensure!(c.response_id() == Some(rd.tag), "answer", "{c:?} answers request {}", rd.tag);
                let mut part = vec![];
                for a in c.actions_without_interface_status() {
                    if matches!(a, Action::ReturnFileData(_)) {
                        let (f, off, d) = data_of(a)?;
                        ensure!(f == id && off as usize == rd.got.len(), "answer", "asked for {id} at {}, got {f} at {off}", rd.got.len());
                        part = d;
                    }
                }
                rd.tag = 0x80 | (rd.tag.wrapping_add(1) & 0x7F);
                rd.seq += 1;
                let end = part.len() < rd.chunk;
                rd.got.extend(part);
                if end {
                    let f = interpret(w, id, &rd.got)?;
                    if wr.todo.is_empty() {
                        // nobody writes any more: this is the last version, whatever happened on the way
                        let want = bridge::file(&last.norm(id).unwrap_or(last.clone()));
                        // (a time has more than one form on the wire, and what passes through a value may take
                        // another: there, what it says is what counts)
                        ensure!(
                            rd.got.starts_with(&last_bytes) || m::is_typed(id) && rd.got.len() >= last_bytes.len(),
                            "lost",
                            "file {id} is {} after {} was written",
                            hex(&rd.got),
                            hex(&last_bytes)
                        );
                        if m::is_typed(id) || rd.got.len() == last_bytes.len() {
                            ensure!(f.as_ref() == Some(&want), "differs", "file {id}: {want:?} was read back as {f:?}");
                        }
                        rd.rounds += 1;
                        w.count("files");
                    }
                    rd.got.clear();
                    rd.chunk = w.pick(&sizes) as usize;
                }
                sim.after(1, E::Read(rd.seq));
            }
            E::Crash => {
                if up {
                    up = false;
                    w.fault("fault.crash", 1);
                    sim.after(1 + w.draw(40_000), E::Restart);
                }
            }
            E::Restart => up = true,
        }
    }
    ensure!(wr.todo.is_empty() && rd.rounds > 0, "progress", "written: {}, read back: {}", wr.todo.is_empty(), rd.rounds > 0);
    Ok(())
}
