use crate::bridge;
use crate::codec::*;
use crate::gen::*;
use crate::model::{self as m, enc_cmd, Act};
use crate::rt::*;
use dash7::app::action::{Action, OpCode};
use dash7::app::command::Command;
use dash7::app::operation::{InterfaceStatusOperation, Status};
use dash7::session::{InterfaceStatus, InterfaceType};
use deku::prelude::*;

pub type Jobs = Vec<Box<dyn FnOnce() -> Res + Send>>;

pub struct Letter {
    pub acts: Vec<Act>,
    pub norm: Vec<Act>,
    pub sent: Command,
    pub arrives: Command,
    pub bytes: Vec<u8>,
}

pub fn letter_of(acts: Vec<Act>) -> Option<Letter> {
    // what cannot be received is not sent
    let norm = norm_cmd(&acts)?;
    let (sent, arrives) = (bridge::cmd(&acts)?, bridge::cmd(&norm)?);
    let bytes = enc_cmd(&acts);
    Some(Letter { acts, norm, sent, arrives, bytes })
}

/// A command, what the receiver has to see, and the bytes in between as the reference has them
pub fn letter(w: &World, mix: &Mix) -> Letter {
    for _ in 0..50 {
        if let Some(mut l) = letter_of(g_cmd(w, mix)) {
            if w.draw(8) == 1 {
                let code = w.draw(64) as u8;
                l.sent.actions.iter_mut().for_each(|a| bridge::relabel(a, code));
            }
            return l;
        }
    }
    letter_of(vec![]).unwrap()
}

/// What a receiver gets for an action of the reference. None if its user could not build that.
pub fn act_rx(a: &Act) -> Option<Action> {
    if let Act::StatusIf(m::IfStatus::Other(_, d)) = a {
        let s = InterfaceStatusOperation {
            interface_type: InterfaceType::Unknown,
            status: InterfaceStatus::Other(d.clone()),
        };
        let s: Status = s.into();
        return Some(Action::Status(s.into()));
    }
    bridge::act(a)
}

/// Whether the library got the same out of some bytes as the reference
pub fn same_act(lib: &Action, a: &Act) -> Res<bool> {
    match act_rx(a) {
        Some(x) => Ok(*lib == x),
        None if bridge::same_tx(lib, a) == Some(false) => Ok(false),
        None => {
            let mut out = std::io::Cursor::new(vec![]);
            match encode_act_to(lib, &mut out)? {
                Ok(()) => Ok(out.into_inner() == a.enc()),
                Err(_) => Ok(false),
            }
        }
    }
}

/// All ways to send a command send the same
pub fn all_ways_out(cmd: &Command, bytes: &[u8]) -> Res {
    let whole = guard("Vec::try_from", || Vec::<u8>::try_from(cmd.clone()))?;
    ensure!(whole.as_deref() == Ok(bytes), "ways", "{cmd:?} is {}, but was converted to {whole:?}", hex(bytes));
    let mut at = 0;
    for a in &cmd.actions {
        let one = guard("Vec::try_from", || Vec::<u8>::try_from(a.clone()))?;
        let Ok(one) = one else { return violation("ways", format!("{a:?} was converted to {one:?}")) };
        let end = at + one.len();
        let mut room = vec![0; one.len()];
        let n = guard("Action::to_slice", || DekuContainerWrite::to_slice(a, &mut room))?;
        ensure!(n == Ok(one.len()) && room == one, "ways", "{a:?} is {}, but filled {n:?} of {}", hex(&one), hex(&room));
        if let Some(less) = one.len().checked_sub(1) {
            let n = guard("Action::to_slice", || DekuContainerWrite::to_slice(a, &mut room[..less]))?;
            ensure!(n.is_err(), "ways", "{a:?} is {}, but fits into {less} bytes: {n:?}", hex(&one));
        }
        ensure!(bytes.get(at..end) == Some(&one[..]), "ways", "{a:?} was converted to {}, at {at} of {}", hex(&one), hex(bytes));
        ensure!(
            a.deku_id() == Ok(OpCode(bytes[at] & 63)),
            "ways",
            "{a:?} has the id {:?}, but is sent as {}",
            a.deku_id(),
            bytes[at] & 63
        );
        at = end;
    }
    ensure!(at == bytes.len(), "ways", "the actions of {cmd:?} are {at} bytes, of {}", hex(bytes));
    Ok(())
}

/// All ways to read a command read the same
fn all_ways_in(data: &[u8], lib: &L<(usize, Command)>) -> Res {
    let whole = guard("Command::try_from", || Command::try_from(data))?;
    let stream = guard("Command::from_reader", || Command::from_reader((&mut std::io::Cursor::new(data), 0)))?;
    match lib {
        Ok((rest, c)) => {
            ensure!(whole.is_ok() == (*rest == 0), "ways", "{rest} bytes are behind {c:?}, but the conversion gave {whole:?}");
            ensure!(whole.as_ref().map_or(true, |x| x == c), "ways", "{} was read as {c:?} and {whole:?}", hex(data));
            ensure!(
                stream.as_ref().is_ok_and(|(bits, x)| x == c && *bits == (data.len() - rest) * 8),
                "ways",
                "{} was read as {c:?}, with {rest} bytes left, and {stream:?}",
                hex(data)
            );
        }
        Err(e) => {
            ensure!(whole.is_err(), "ways", "{} gave {e:?} and {whole:?}", hex(data));
            ensure!(stream.is_err(), "ways", "{} gave {e:?} and {stream:?}", hex(data));
        }
    }
    Ok(())
}

/// The library and the reference read the same bytes
pub fn agree(w: &World, data: &[u8], who: &str) -> Res<Option<(Command, Vec<Act>)>> {
    let lib = guard("Command::from_bytes", || Command::from_bytes((data, 0)).map(|(r, c)| (r.0.len(), r.1, c)))?;
    all_ways_in(data, &lib.as_ref().map(|(r, _, c)| (*r, c.clone())).map_err(|e| e.clone()))?;
    match (lib, m::dec_cmd(data)) {
        (Ok((rest, bit, cmd)), Ok((acts, used))) => {
            ensure!(
                cmd.actions.len() == acts.len(),
                "actions",
                "{who}: {} is {} actions, not {}: {cmd:?}",
                hex(data),
                acts.len(),
                cmd.actions.len()
            );
            for (lib, a) in cmd.actions.iter().zip(&acts) {
                ensure!(same_act(lib, a)?, "differs", "{who}: {} says {a:?}, but was read as {lib:?}", hex(data));
            }
            ensure!(
                rest == data.len() - used && bit == 0,
                "rest",
                "{who}: {} takes {used} bytes, but {rest} bytes and {bit} bits of {} are left",
                hex(data),
                data.len()
            );
            w.count("accepted");
            Ok(Some((cmd, acts)))
        }
        (Err(_), Err(_)) => {
            w.count("rejected");
            Ok(None)
        }
        (Ok((_, _, cmd)), Err(_)) => {
            violation("accepts", format!("{who}: {} is not a command, but was read as {cmd:?}", hex(data)))
        }
        (Err(e), Ok((acts, _))) => {
            violation("rejects", format!("{who}: {} says {acts:?}, but was refused: {e:?}", hex(data)))
        }
    }
}

pub fn is_incomplete(e: &DekuError) -> bool {
    matches!(e, DekuError::Incomplete(_))
}

/// Something a user can build, but that the format has no room for
pub fn too_much(w: &World) -> Action {
    use dash7::app::action::OpCode;
    use dash7::app::operation as op;
    use dash7::app::query::{self as q, Query};
    let long: u32 = match w.draw(3) {
        0 => 0x4000_0000,
        1 => u32::MAX - w.draw(3) as u32,
        _ => w.range(0x4000_0000, 0xFFFF_FFFF) as u32,
    };
    let late = match w.draw(3) {
        0 => m::VI_MAX + 1,
        1 => u32::MAX - w.draw(3) as u32,
        _ => w.range(m::VI_MAX as u64 + 1, 0xFFFF_FFFF) as u32,
    };
    w.mark("too much", long as u64, late as u64);
    match w.draw(14) {
        0 => Action::ReadFileData(op::ReadFileData {
            header: op::ActionHeader::new(false, true),
            opcode: OpCode::READ_FILE_DATA,
            offset: op::FileOffset { file_id: 1, offset: long.into() },
            length: 1u32.into(),
        }),
        1 => Action::ReadFileData(op::ReadFileData {
            header: op::ActionHeader::new(false, true),
            opcode: OpCode::READ_FILE_DATA,
            offset: op::FileOffset { file_id: 1, offset: 0u32.into() },
            length: long.into(),
        }),
        2 => {
            let mut a = g_addressee(w, &Mix::SEND);
            a.addr = m::Addr::NbId(m::VI { v: late, ceil: g_bool(w) });
            Action::IndirectForward(op::IndirectForward::new(
                false,
                Some(dash7::app::interface::IndirectInterface::Dash7(bridge::addressee(&a))),
            ))
        }
        3 => {
            // one of the scan periods of an access profile
            let id = 0x20 + w.draw(15) as u8;
            let m::File::Profile(n, mut p) = g_typed_file(w, id, &Mix::SEND) else { unreachable!() };
            p.subs[w.draw(4) as usize].1 = m::VI { v: late, ceil: g_bool(w) };
            Action::WriteFileData(op::FileData::new(
                op::ActionHeader::new(false, true),
                op::FileOffset { file_id: id, offset: 0u32.into() },
                bridge::file(&m::File::Profile(n, p)),
                OpCode::WRITE_FILE_DATA,
            ))
        }
        5 => {
            // an access class has four bits for each part
            let mut c = g_addressee(w, &Mix::SEND);
            let big = w.range(16, 255) as u8;
            if g_bool(w) {
                c.specifier = big;
            } else {
                c.mask = big;
            }
            Action::IndirectForward(op::IndirectForward::new(
                g_bool(w),
                Some(dash7::app::interface::IndirectInterface::Dash7(bridge::addressee(&c))),
            ))
        }
        6 => {
            // more channels than can be counted, or one with a number that is too high
            let m::File::Phy { up, rx, tx, duty, mut list } = g_typed_file(w, 9, &Mix::SEND) else { unreachable!() };
            if g_bool(w) {
                let n = w.pick(&[256u64, 257, 260, 300, 511, 512, 513, 768]);
                list = (0..n).map(|i| ((i % 5) as u8, 0, i as u16, i as u8)).collect();
            } else {
                let at = w.draw(list.len() as u64 + 1) as usize;
                list.insert(at, (1, 1, w.range(2048, 0xFFFF) as u16, 3));
                list.truncate(255);
                if at == 255 {
                    list[254].2 = 0x800;
                }
            }
            Action::WriteFileData(op::FileData::new(
                op::ActionHeader::new(false, true),
                op::FileOffset { file_id: 9, offset: 0u32.into() },
                bridge::file(&m::File::Phy { up, rx, tx, duty, list }),
                OpCode::WRITE_FILE_DATA,
            ))
        }
        7..=9 => {
            // a mask for something of another size, or too many errors
            let n = w.range(1, 70) as usize;
            let mut k = w.range(0, 70) as usize;
            if k == n {
                k += 1;
            }
            // no mask at all is fine, though
            k = k.max(1 + (n == 1) as usize);
            let file = op::FileOffset { file_id: g_u8(w), offset: 3u32.into() };
            let (a, b) = (w.bytes(k), w.bytes(n));
            let query = match w.draw(6) {
                0 => Query::ComparisonWithValue(q::ComparisonWithValue::new(Default::default(), a, b, file)),
                1 => Query::StringTokenSearch(q::StringTokenSearch::new(w.draw(8) as u8, a, b, file)),
                2 => {
                    let mut x = q::ComparisonWithOtherFile::new(Default::default(), a, file.clone(), file);
                    x.length = b.len().into();
                    Query::ComparisonWithOtherFile(x)
                }
                3 => {
                    let mut x = q::BitmapRangeComparison::new(Default::default(), 1, 2, a, file);
                    x.length = b.len().into();
                    Query::BitmapRangeComparison(x)
                }
                4 => {
                    let mut x = q::StringTokenSearch::new(w.draw(8) as u8, vec![], b, file);
                    x.length = a.len().into();
                    Query::StringTokenSearch(x)
                }
                _ => Query::StringTokenSearch(q::StringTokenSearch::new(w.range(8, 255) as u8, vec![], b, file)),
            };
            Action::ActionQuery(op::ActionQuery {
                header: op::ActionHeader::new(g_bool(w), g_bool(w)),
                opcode: OpCode::ACTION_QUERY,
                query,
            })
        }
        10 | 11 => {
            // keys of other sizes
            let base = m::LoraBase { adr: g_bool(w), ack: g_bool(w), port: g_u8(w), rate: g_u8(w) };
            let mut c = if g_bool(w) {
                m::IfConf::Abp { base, nsk: w.bytes(16), ask: w.bytes(16), dev: g_u32(w), net: g_u32(w) }
            } else {
                m::IfConf::Otaa { base, dev: w.bytes(8), app: w.bytes(8), key: w.bytes(16) }
            };
            let first = g_bool(w);
            let k = match &mut c {
                m::IfConf::Abp { nsk, .. } if first => nsk,
                m::IfConf::Abp { ask, .. } => ask,
                m::IfConf::Otaa { dev, .. } if first => dev,
                m::IfConf::Otaa { app, key, .. } => {
                    if g_bool(w) {
                        app
                    } else {
                        key
                    }
                }
                _ => unreachable!(),
            };
            match w.draw(3) {
                0 => k.clear(),
                1 => k.truncate(w.draw(k.len() as u64) as usize),
                _ => k.extend(w.bytes(w.range(1, 20) as usize)),
            }
            bridge::act(&Act::Forward(g_bool(w), c)).expect("can be built")
        }
        12 => {
            // says that there is something that is not there
            let on = g_bool(w);
            let mut x = op::IndirectForward::new(
                g_bool(w),
                if on { Some(dash7::app::interface::IndirectInterface::Host) } else { None },
            );
            x.header.overloaded = !on;
            Action::IndirectForward(x)
        }
        _ => {
            let mut s = g_d7status(w, &Mix::SEND);
            s.timeout = m::VI { v: late, ceil: g_bool(w) };
            bridge::act(&Act::StatusIf(m::IfStatus::D7(s))).expect("can be built")
        }
    }
}
