//! C02: the library and other implementations of the protocol understand each other.

use super::common::*;
use crate::codec::*;
use crate::gen::*;
use crate::kinds::*;
use crate::model::{self as m};
use crate::net::*;
use crate::rt::*;
use dash7::session::InterfaceType;

enum E {
    Send(usize),
    Arrive { to: usize, from: usize, data: Vec<u8> },
    Crash(usize),
    Restart(usize),
}

/// Codes of four bits, which are on no wire of their own
fn half_bytes(w: &World) -> Res {
    use dash7::physical::{CsmaCaMode, NoiseFloor};
    use deku::prelude::*;
    let mode = w.draw(6) as u8;
    let lib = [CsmaCaMode::Unc, CsmaCaMode::Aind, CsmaCaMode::Raind, CsmaCaMode::Rigd].get(mode as usize).cloned();
    let data = [mode << 4 | w.draw(16) as u8];
    let got = guard("CsmaCaMode::from_bytes", || CsmaCaMode::from_bytes((&data, 0)).map(|(_, v)| v).ok())?;
    ensure!(got == lib, "name", "channel access mode {mode} is {lib:?}, not {got:?}");
    if let Some(lib) = lib {
        let out = guard("CsmaCaMode::to_bytes", || lib.to_bytes())?;
        ensure!(out.as_deref() == Ok(&[mode << 4]), "name", "channel access mode {lib:?} is {mode}, not {out:?}");
    }
    let n = g_u8(w);
    let (kind, lib) = w.pick(&[(0, NoiseFloor::Fixed(n)), (1, NoiseFloor::ForgetFactor(n))]);
    let data = [kind << 4 | n >> 4, n << 4];
    let got = guard("NoiseFloor::from_bytes", || NoiseFloor::from_bytes((&data, 0)).map(|(_, v)| v).ok())?;
    ensure!(got.as_ref() == Some(&lib), "name", "noise floor {} is {lib:?}, not {got:?}", hex(&data));
    let out = guard("NoiseFloor::to_bytes", || lib.to_bytes())?;
    ensure!(out.as_deref() == Ok(&data[..]), "name", "noise floor {lib:?} is {}, not {out:?}", hex(&data));
    Ok(())
}

pub fn run(w: &World) -> Res {
    if w.draw(4) == 0 {
        return values(w);
    }
    let (name, number) = w.pick(&[
        (InterfaceType::Host, 0u8),
        (InterfaceType::Serial, 1),
        (InterfaceType::LoRaWanABP, 2),
        (InterfaceType::LoRaWanOTAA, 3),
        (InterfaceType::Dash7, 0xD7),
    ]);
    let got: u8 = guard("InterfaceType::into", || name.clone().into())?;
    ensure!(got == number, "name", "{name:?} is interface {number}, not {got}");
    ensure!(InterfaceType::try_from(number).as_ref() == Ok(&name), "name", "interface {number} is not {:?}", InterfaceType::try_from(number));
    half_bytes(w)?;
    let n = w.range(2, 5) as usize;
    // at least one of them is the library
    let lib: Vec<bool> = (0..n).map(|i| i == 0 || w.draw(3) == 0).collect();
    let mut air = Air::random(w, 100_000);
    air.corrupt = w.pick(&[0, 300, 900]);
    let mut sim = Sim::new(w);
    let mut up = vec![true; n];
    let total = w.range(1, 12);
    for _ in 0..total {
        let (t, i) = (w.draw(100_000), w.draw(n as u64) as usize);
        sim.after(t, E::Send(i));
    }
    if w.chance(1, 4) {
        let (t, i) = (w.draw(100_000), w.draw(n as u64) as usize);
        sim.after(t, E::Crash(i));
    }
    while let Some(e) = sim.next() {
        match e {
            E::Crash(i) => {
                w.fault("fault.crash", i as u64);
                up[i] = false;
                sim.after(1 + w.draw(20_000), E::Restart(i));
            }
            E::Restart(i) => up[i] = true,
            E::Send(i) if up[i] => {
                let to = w.draw(n as u64) as usize;
                let data = if lib[i] {
                    let l = letter(w, &Mix::SEND.vast(w));
                    let bytes = encode_ok(&l.sent)?;
                    ensure!(
                        bytes == l.bytes,
                        "format",
                        "{:?} is {} in the protocol, but was sent as {}",
                        l.sent,
                        hex(&l.bytes),
                        hex(&bytes)
                    );
                    all_ways_out(&l.sent, &bytes)?;
                    w.count("sent_by_library");
                    bytes
                } else {
                    let mut mix = Mix::WIRE.vast(w);
                    mix.after_indirect = w.chance(1, 8);
                    m::enc_cmd(&g_cmd(w, &mix))
                };
                w.note_bytes("send", &data);
                for (delay, data) in air.carry(w, i, to, &data) {
                    sim.after(delay, E::Arrive { to, from: i, data });
                }
            }
            E::Arrive { to, from, data } if up[to] => {
                w.mark("arrive", to as u64, data.len() as u64);
                if lib[to] {
                    let who = if lib[from] { "library to library" } else { "reference to library" };
                    agree(w, &data, who)?;
                }
            }
            E::Send(i) | E::Arrive { to: i, .. } => w.mark("down", i as u64, 0),
        }
    }
    Ok(())
}

/// Single values: both directions
fn values(w: &World) -> Res {
    let n = w.range(1, 6);
    for _ in 0..n {
        let i = g_item(w, &Mix::SEND.vast(w));
        w.note_bytes("value", &i.bytes);
        if let Some(sent) = &i.sent {
            match sent.to_bytes()? {
                Ok(b) => ensure!(
                    b == i.bytes,
                    "format",
                    "{} is {} in the protocol, but was written as {}",
                    sent.dbg(),
                    hex(&i.bytes),
                    hex(&b)
                ),
                Err(e) => return violation("format", format!("{} cannot be written: {e:?}", sent.dbg())),
            }
        }
        match i.kind.read_bytes(&i.bytes)? {
            Ok((_, got)) => {
                if let Some(x) = &i.expect {
                    ensure!(got.same(&**x), "differs", "{} says {}, but was read as {}", hex(&i.bytes), x.dbg(), got.dbg());
                    if let Some((file, own)) = got.any().downcast_ref().and_then(profile) {
                        ensure!(file == own, "differs", "access profile {file} says that it is {own}");
                    }
                }
            }
            Err(e) => {
                if i.expect.is_some() {
                    return violation("rejects", format!("{} {} was refused: {e:?}", i.kind.name(), hex(&i.bytes)));
                }
            }
        }
        w.count("values");
    }
    Ok(())
}
