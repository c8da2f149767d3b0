//! C11: timeouts are never cut short, and never grow on the way.

use crate::bridge;
use crate::codec::*;
use crate::gen::*;
use crate::kinds::*;
use crate::model::{self as m, Act, VI, VI_MAX};
use crate::net::*;
use crate::rt::*;
use dash7::app::action::Action;
use dash7::app::command::Command;
use dash7::app::interface::InterfaceConfiguration;
use dash7::app::operation::Status;
use dash7::network::{Address, Addressee};
use dash7::session::InterfaceStatus;
use dash7::types::VarInt;

pub fn run(w: &World) -> Res {
    match w.draw(4) {
        0 => numbers(w),
        1 => files(w),
        _ => windows(w),
    }
}

/// The grid of the format around a value
fn step(t: u32) -> u32 {
    let mut s = 1;
    while t > 31 * s {
        s *= 4;
    }
    s
}

fn representable(t: u32) -> bool {
    (0..8).any(|e| t % (1 << (2 * e)) == 0 && t >> (2 * e) <= 31)
}

fn kept(t: u32, ceil: bool, got: u32, what: &str) -> Res {
    let s = step(t);
    if representable(t) {
        ensure!(got == t, "exact", "{what}: {t} has a form of its own, but came out as {got}");
    } else if ceil {
        ensure!(got >= t, "early", "{what}: at least {t} came out as {got}");
        ensure!(got - t < s, "late", "{what}: at least {t} came out as {got}, more than a step of {s} later");
    } else {
        ensure!(got <= t, "late", "{what}: at most {t} came out as {got}");
        ensure!(t - got < s, "early", "{what}: at most {t} came out as {got}, more than a step of {s} earlier");
    }
    Ok(())
}

fn g_time(w: &World) -> VI {
    g_vi(w, &Mix { inexact: true, ..Mix::SEND })
}

fn too_long(w: &World) -> u32 {
    match w.draw(4) {
        0 => VI_MAX + 1 + w.draw(3) as u32,
        1 => u32::MAX - w.draw(3) as u32,
        2 => 1 << w.range(19, 31),
        _ => w.range(VI_MAX as u64 + 1, u32::MAX as u64) as u32,
    }
}

fn numbers(w: &World) -> Res {
    for _ in 0..w.range(1, 8) {
        let t = g_time(w);
        w.mark("time", t.v as u64, t.ceil as u64);
        let r = guard("VarInt::new", || VarInt::new(t.v, t.ceil))?;
        let Ok(v) = r else { return violation("refused", format!("{} was refused: {r:?}", t.v)) };
        ensure!(Into::<u32>::into(v) == t.v, "altered", "{} was built as {v:?}", t.v);
        ensure!(VarInt::is_valid(t.v), "refused", "{} is said not to fit", t.v);
        match guard("VarInt::compress", || VarInt::compress(t.v, t.ceil))? {
            Ok((e, mant)) => {
                ensure!(e < 8 && mant < 32, "format", "{} as {e}, {mant}", t.v);
                let back = guard("VarInt::decompress", || VarInt::decompress(e, mant))?;
                match back {
                    Ok(b) => kept(t.v, t.ceil, b, "compressed")?,
                    Err(x) => return violation("refused", format!("{e}, {mant}: {x:?}")),
                }
            }
            Err(e) => return violation("refused", format!("{} was refused: {e:?}", t.v)),
        }
        let (e, mant) = (w.draw(256) as u8, w.draw(256) as u8);
        let got = guard("VarInt::decompress", || VarInt::decompress(e, mant))?;
        let want = (e < 8 && mant < 32).then(|| m::vi_value(e, mant));
        ensure!(got.clone().ok() == want, "decompress", "{e}, {mant} came out as {got:?}");
        let long = too_long(w);
        w.mark("too long", long as u64, 0);
        let ceil = g_bool(w);
        ensure!(!VarInt::is_valid(long), "accepted", "{long} is said to fit");
        let r = guard("VarInt::new", || VarInt::new(long, ceil))?;
        ensure!(r.is_err(), "accepted", "{long} was accepted as {r:?}");
        let r = guard("VarInt::compress", || VarInt::compress(long, ceil))?;
        ensure!(r.is_err(), "accepted", "{long} was compressed to {r:?}");
        w.count("times");
    }
    Ok(())
}

/// How often to scan, as stored on a device
fn files(w: &World) -> Res {
    use dash7::file::File;
    let id = 0x20 + w.draw(15) as u8;
    let mut f = g_typed_file(w, id, &Mix::SEND);
    let mut want = [VI::default(); 4];
    if let m::File::Profile(_, p) = &mut f {
        for (s, x) in p.subs.iter_mut().zip(&mut want) {
            *x = g_time(w);
            s.1 = *x;
        }
    } else {
        return violation("harness", "no access profile");
    }
    let item = item_file(id, &f);
    w.note_bytes("profile", &item.bytes);
    let sent = item.sent.expect("can be built");
    let mut bytes = match sent.to_bytes()? {
        Ok(b) => b,
        Err(e) => return violation("refused", format!("{} gave {e:?}", sent.dbg())),
    };
    let mut last = [0; 4];
    for round in 0..w.range(1, 4) {
        let got = match item.kind.read_bytes(&bytes)? {
            Ok((_, v)) => v,
            Err(e) => return violation("refused", format!("{} gave {e:?}", hex(&bytes))),
        };
        macro_rules! periods {
            ($($v:ident)*) => {
                match got.any().downcast_ref::<File>() {
                    $(Some(File::$v(p)) => p.profile.sub_profiles.clone().map(|s| s.scan_automation_period.into()),)*
                    other => return violation("differs", format!("{other:?} instead of an access profile")),
                }
            };
        }
        let have: [u32; 4] = periods!(AccessProfile00 AccessProfile01 AccessProfile02 AccessProfile03 AccessProfile04
            AccessProfile05 AccessProfile06 AccessProfile07 AccessProfile08 AccessProfile09 AccessProfile10
            AccessProfile11 AccessProfile12 AccessProfile13 AccessProfile14);
        for (t, h) in want.iter().zip(have) {
            kept(t.v, t.ceil, h, "scan period")?;
            w.count("times");
        }
        ensure!(round == 0 || have == last, "drift", "round {round}: {last:?} became {have:?}");
        last = have;
        bytes = match got.to_bytes()? {
            Ok(b) => b,
            Err(e) => return violation("refused", format!("{} gave {e:?}", got.dbg())),
        };
    }
    Ok(())
}

struct Times {
    dormant: VI,
    exec: Option<VI>,
    ids: Option<VI>,
    resp: VI,
}

fn ids(a: &Addressee) -> Option<u32> {
    match a.address {
        Address::NbId(v) => Some(v.into()),
        _ => None,
    }
}

/// A controller opens a window at a device behind relays, and the device reports its own back
fn windows(w: &World) -> Res {
    enum E {
        Send,
        Hop(usize, Vec<u8>),
        Open { armed: u64, until: u64 },
        Shut { armed: u64, at: u64 },
    }
    let t = Times {
        dormant: g_time(w),
        exec: (m::V != m::Variant::Subiot).then(|| g_time(w)),
        ids: g_bool(w).then(|| g_time(w)),
        resp: g_time(w),
    };
    w.mark("dormant", t.dormant.v as u64, t.dormant.ceil as u64);
    w.mark("response", t.resp.v as u64, t.resp.ceil as u64);
    let mut to = g_addressee(w, &Mix::SEND);
    if let Some(v) = t.ids {
        to.addr = m::Addr::NbId(v);
    } else if let m::Addr::NbId(_) = to.addr {
        to.addr = m::Addr::NoId;
    }
    let mut conf = g_ifconf(w, &Mix::SEND);
    for _ in 0..40 {
        if let m::IfConf::D7(c) = &mut conf {
            c.dormant = t.dormant;
            c.exec = t.exec.unwrap_or_default();
            c.to = to.clone();
            break;
        }
        conf = g_ifconf(w, &Mix::SEND);
    }
    if !matches!(conf, m::IfConf::D7(_)) {
        return Ok(());
    }
    let mut status = g_d7status(w, &Mix::SEND);
    status.timeout = t.resp;
    status.from = to.clone();
    let acts = vec![
        Act::RequestTag { eop: true, id: 7 },
        Act::Forward(g_bool(w), conf),
        Act::StatusIf(m::IfStatus::D7(status)),
        Act::Nop(Default::default()),
    ];
    let cmd = bridge::cmd(&acts).expect("can be built");
    let first = encode_ok(&cmd)?;
    w.note_bytes("sent", &first);
    let hops = w.range(1, 4) as usize;
    let air = Air::random(w, 100_000);
    // the clock of the device runs fast or slow: a window is so many of its own ticks
    let rate = w.pick(&[1000u64, 990, 1010, 500, 2000]);
    let offset = w.draw(1 << 40);
    let local = |now: u64| offset + now * rate / 1000;
    let mut sim = Sim::new(w);
    let mut opened = 0;
    let mut shut = 0;
    sim.after(0, E::Send);
    while let Some(e) = sim.next() {
        ensure!(sim.steps < 5_000, "livelock", "{} steps", sim.steps);
        match e {
            E::Send => {
                if opened > 0 {
                    continue;
                }
                for (d, data) in air.carry(w, 0, 1, &first) {
                    sim.after(d, E::Hop(1, data));
                }
                sim.after(20_000, E::Send);
            }
            E::Hop(h, data) => {
                let c = match decode(&data)? {
                    Ok(c) => c,
                    Err(e) => return violation("refused", format!("{} gave {e:?}", hex(&data))),
                };
                let dormant = check(w, &c, &t)?;
                if h < hops {
                    let out = encode_ok(&c)?;
                    // a duration may have several forms, but it stays the same
                    let again = decode(&out)?;
                    ensure!(again.as_ref() == Ok(&c), "drift", "{c:?} was passed on as {again:?}");
                    for (d, data) in air.carry(w, h, h + 1, &out) {
                        sim.after(d, E::Hop(h + 1, data));
                    }
                } else {
                    if opened == 0 {
                        let armed = local(w.now());
                        sim.after(0, E::Open { armed, until: armed + dormant as u64 });
                    }
                    opened += 1;
                }
            }
            E::Open { armed, until } => {
                // woken by a timer that only counts whole simulated units, and goes back to sleep if it was early
                let now = local(w.now());
                if now < until {
                    let wait = ((until - now) * 1000).div_ceil(rate).max(1);
                    sim.after(wait, E::Open { armed, until });
                } else {
                    sim.after(0, E::Shut { armed, at: until });
                }
            }
            E::Shut { armed, at } => {
                shut += 1;
                w.mark("window", at - armed, 0);
                kept(t.dormant.v, t.dormant.ceil, (at - armed) as u32, "window")?;
            }
        }
    }
    ensure!(opened > 0 && shut > 0, "progress", "the window never opened or never closed");
    w.count("windows");
    Ok(())
}

fn check(w: &World, c: &Command, t: &Times) -> Res<u32> {
    let mut dormant = None;
    for a in &c.actions {
        if let Action::Forward(f) = a {
            let InterfaceConfiguration::Dash7(c) = &f.configuration else { continue };
            let d: u32 = c.dormant_session_timeout.into();
            kept(t.dormant.v, t.dormant.ceil, d, "dormant session timeout")?;
            dormant = Some(d);
            #[cfg(not(feature = "subiot"))]
            if let Some(x) = t.exec {
                kept(x.v, x.ceil, c.execution_delay_timeout.into(), "execution delay")?;
            }
            match (t.ids, ids(&c.addressee)) {
                (Some(x), Some(n)) => kept(x.v, x.ceil, n, "number of devices")?,
                (None, None) => {}
                other => return violation("differs", format!("addressee with {other:?}")),
            }
        }
        if let Action::Status(s) = a {
            if let Status::Interface(i) = &s.status {
                if let InterfaceStatus::Dash7(s) = &i.status {
                    kept(t.resp.v, t.resp.ceil, s.response_timeout.into(), "response timeout")?;
                    w.count("times");
                }
            }
        }
    }
    match dormant {
        Some(d) => Ok(d),
        None => violation("differs", format!("no forward in {c:?}")),
    }
}
