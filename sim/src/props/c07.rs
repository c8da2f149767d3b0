//! C07: no input makes the library panic, run on, or take memory that the input does not account for.

use super::common::*;
use crate::gen::*;
use crate::io::*;
use crate::kinds::*;
use crate::meter::metered;
use crate::net::mutate;
use crate::rt::*;
use dash7::app::action::Action;
use dash7::app::command::Command;
use dash7::file::File;
use deku::prelude::*;

fn noise(w: &World) -> Vec<u8> {
    let mut d = match w.draw(8) {
        0 => {
            let n = w.draw(64) as usize;
            w.bytes(n)
        }
        // an opcode with anything behind it
        1 => {
            let n = w.draw(80) as usize;
            let mut d = vec![w.draw(256) as u8];
            d.extend(w.bytes(n));
            d
        }
        // great promises
        2 => {
            let mut d = w.pick(&[
                vec![0x20, 0x40, 0x00],
                vec![0x20, 0x09, 0x00],
                vec![0x04, 0xFF, 0x00],
                vec![0x62, 0x55],
                vec![0x62, 0xD7],
                vec![0xA2, 0x55],
                vec![0x66, 0x55],
                vec![0x66, 0xD7],
                vec![0x08, 0x50],
                vec![0x08, 0x30],
                vec![0x08, 0x70],
                vec![0x08, 0x90],
                vec![0x08, 0xF0],
                vec![0x0B, 0x40],
            ]);
            let top = 0x40 * w.range(1, 3) as u8;
            d.push(top | w.draw(64) as u8);
            let n = w.draw(20) as usize;
            d.extend(w.bytes(n));
            d
        }
        3 => g_item(w, &Mix::WIRE).bytes,
        4 => {
            let mut a = g_item(w, &Mix::WIRE).bytes;
            let b = g_item(w, &Mix::WIRE).bytes;
            a.truncate(w.draw(a.len() as u64 + 1) as usize);
            a.extend(&b[w.draw(b.len() as u64 + 1) as usize..]);
            a
        }
        5 => {
            // many small actions
            let n = w.range(1, 200) as usize;
            let op = w.draw(256) as u8;
            vec![op; n]
        }
        _ => g_item(w, &Mix::WIRE).bytes,
    };
    if w.draw(4) > 0 {
        mutate(w, &mut d);
        w.fault("fault.corrupt", d.len() as u64);
    }
    d
}

pub fn run(w: &World) -> Res {
    let d = noise(w);
    w.note_bytes("input", &d);
    let all = all_codecs(w, d.len());
    let some = w.draw(4) > 0;
    let room = 2048 * d.len() as i64 + 256 * 1024;
    for k in &all {
        if some && k.name() != "Command" && w.draw(4) > 0 {
            continue;
        }
        let plan = if w.chance(1, 4) { Plan::awkward(w) } else { Plan::none() };
        let mut s = Source::new(w, &d, plan);
        s.cap += 64 * d.len() as u64;
        let (got, used) = metered(|| k.read(&mut s));
        let got = got?;
        ensure!(!s.over_cap, "runs on", "{} takes more than {} reads for {}", k.name(), s.cap, hex(&d));
        ensure!(
            used.peak <= room,
            "memory",
            "{} takes {} bytes of memory ({} at once) for {} bytes: {}",
            k.name(),
            used.peak,
            used.biggest,
            d.len(),
            hex(&d)
        );
        w.count("decodes");
        match got {
            Ok((bits, v)) => {
                ensure!(bits <= 8 * d.len(), "invented", "{} took {bits} bits of {}", k.name(), hex(&d));
                let (r, used) = metered(|| -> Res {
                    let text = guard("Debug", || v.dbg())?;
                    let _ = text.len();
                    let _ = v.to_bytes()?;
                    if let Some(c) = v.any().downcast_ref::<Command>() {
                        look(c)?;
                    }
                    Ok(())
                });
                r?;
                ensure!(used.peak <= 4 * room, "memory", "showing {} takes {} bytes of memory", hex(&d), used.peak);
                w.count("accepted");
            }
            Err(e) => {
                // errors can be shown, too
                guard("error", || format!("{e:?} {e}"))?;
            }
        }
    }
    slices(w, &d)
}

fn look(c: &Command) -> Res {
    guard("Command accessors", || {
        let _ = format!("{c}");
        let _ = (c.interface_status(), c.actions_without_interface_status(), c.request_tag(), c.request_id());
        let _ = (c.response_tag(), c.response_id(), c.tag_id(), c.is_last_response());
        if let Some(s) = c.interface_status() {
            let _ = format!("{s}");
        }
        for a in &c.actions {
            let _ = a.deku_id();
            let _ = Vec::<u8>::try_from(a.clone());
        }
        let _ = c.clone() == *c;
    })
}

/// The entry points for slices, at any bit
fn slices(w: &World, d: &[u8]) -> Res {
    let bit = w.draw(8) as usize;
    let id = w.draw(256) as u8;
    let len = w.pick(&[0u32, 1, 8, 64, 0xFFFF, 0x3FFF_FFFF, 0xFFFF_FFFF]);
    let room = 2048 * d.len() as i64 + 256 * 1024;
    let (r, used) = metered(|| -> Res {
        guard("Command::from_bytes", || Command::from_bytes((d, bit)).map(|_| ()).is_ok())?;
        guard("Action::from_bytes", || <Action as DekuContainerRead>::from_bytes((d, bit)).map(|_| ()).is_ok())?;
        guard("Command::try_from", || Command::try_from(d).map(|_| ()).is_ok())?;
        guard("Action::try_from", || Action::try_from(d).map(|_| ()).is_ok())?;
        guard("File::from_bytes", || File::from_bytes((d, bit), file_id(id), len).map(|_| ()).is_ok())?;
        guard("frames", || {
            let _ = dash7::link::ForegroundFrame::try_from(d);
            let _ = dash7::link::BackgroundFrame::try_from(d);
        })?;
        let mut s = Source::new(w, d, Plan::none());
        let _ = guard("Command::from_reader", || Command::from_reader((&mut s, bit)).map(|_| ()).is_ok())?;
        ensure!(!s.over_cap, "runs on", "a command from bit {bit} of {}", hex(d));
        Ok(())
    });
    r?;
    ensure!(used.peak <= room, "memory", "{} bytes of memory for {} bytes: {}", used.peak, d.len(), hex(d));
    let _ = is_incomplete(&DekuError::Parse("".into()));
    Ok(())
}
