//! C08: what is passed on says the same as what was received.

use crate::gen::*;
use crate::io::*;
use crate::kinds::*;
use crate::model::{self as m, Act, BitW};
use crate::net::*;
use crate::rt::*;
use dash7::app::command::Command;

enum E {
    /// The origin (node 0) sends message n
    Send(usize),
    Arrive { hop: usize, n: usize, data: Vec<u8>, intact: bool },
    Confirm(usize),
    /// A hop passes on what it stored
    Forward { hop: usize, n: usize },
    Crash(usize),
    Restart(usize),
}

/// How finding D4 shows: the status of an unknown interface, without the id of that interface
fn without_ids(acts: &[Act]) -> Vec<u8> {
    let mut w = BitW::default();
    for a in acts {
        match a {
            Act::StatusIf(m::IfStatus::Other(_, _)) => {
                let mut b = a.enc();
                b.remove(1);
                w.raw(&b);
            }
            a => w.raw(&a.enc()),
        }
    }
    w.done()
}

/// What a hop sends on. None if it does not understand what it got.
fn pass_on(w: &World, kind: &Kind, data: &[u8], intact: bool, plain: bool) -> Res<Option<Vec<u8>>> {
    let mut s = Source::new(w, data, if plain { Plan::none() } else { Plan::awkward(w) });
    let (bits, v) = match kind.read(&mut s)? {
        Ok(x) => x,
        Err(e) => {
            ensure!(!intact, "refused", "{} {} gave {e:?}", kind.name(), hex(data));
            return Ok(None);
        }
    };
    let mut sink = Sink::new(w, if plain { Plan::none() } else { Plan::awkward(w) });
    if let Err(e) = v.write_to(&mut sink)? {
        return violation("stuck", format!("{} was read from {}, but cannot be written: {e:?}", v.dbg(), hex(data)));
    }
    let out = sink.data;
    let cmd = v.any().downcast_ref::<Command>().is_some();
    let act = kind.name() == "Action";
    if cmd || act {
        // the meaning is that of the bytes, whatever form they had
        let read = if cmd {
            m::dec_cmd(data)
        } else {
            let mut r = m::BitR::new(data);
            let a = Act::dec(&mut r);
            a.map(|a| (vec![a], bits / 8))
        };
        if let Ok((acts, _)) = read {
            let want = m::enc_cmd(&acts);
            if out != want && has_unknown_status(&acts) && out == without_ids(&acts) {
                w.finding("D4", format!("{} was passed on as {}", hex(data), hex(&out)));
                return Ok(None);
            }
            ensure!(
                out == want,
                "altered",
                "{} says {acts:?}, which is {}, but was passed on as {}",
                hex(data),
                hex(&want),
                hex(&out)
            );
        }
    }
    if kind.name() == "InterfaceStatusOperation" && !m::KNOWN_IF.contains(&data[0]) {
        // the same finding, for a status on its own
        let mut r = m::BitR::new(&data[1..]);
        let mut want = BitW::default();
        if let Ok(d) = m::dec_len(&mut r).and_then(|n| r.raw(n as usize)) {
            m::enc_len(&mut want, d.len() as u32);
            want.raw(&d);
        }
        if out == want.done() {
            w.finding("D4", format!("the status {} was passed on as {}", hex(data), hex(&out)));
            return Ok(None);
        }
    }
    let fixed = matches!(kind.name(), "File" | "InterfaceStatus" | "ForegroundFrame");
    if intact {
        ensure!(out == data, "altered", "{} {} was passed on as {}: {}", kind.name(), hex(data), hex(&out), v.dbg());
    }
    if intact || !fixed {
        match kind.read_bytes(&out)? {
            Ok((b, again)) => {
                ensure!(again.same(&*v), "drift", "{} was passed on as {}, which is {}", v.dbg(), hex(&out), again.dbg());
                ensure!(b == out.len() * 8, "drift", "{} was passed on as {}, of which {b} bits are used", v.dbg(), hex(&out));
            }
            Err(e) => return violation("drift", format!("{} was passed on as {}, which gives {e:?}", v.dbg(), hex(&out))),
        }
        let twice = v.to_bytes()?;
        ensure!(twice.as_ref() == Ok(&out), "drift", "{} is {} once and {twice:?} then", v.dbg(), hex(&out));
    }
    w.count("passed on");
    Ok(Some(out))
}

pub fn run(w: &World) -> Res {
    let hops = w.range(1, 4) as usize;
    let total = w.range(1, 4) as usize;
    let calm = 200_000;
    let mut air = Air::random(w, calm);
    // a damaged message is told apart by the checksum of the layer below, most of the time
    let missed = w.pick(&[0u64, 0, 200, 600]);
    let plain = w.draw(3) == 0;
    air.max_delay = w.pick(&[10, 1000, 10_000]);
    let mut items = vec![];
    for _ in 0..total {
        let mut mix = if w.draw(3) == 0 { Mix::WIRE } else { Mix::SEND }.vast(w);
        mix.inexact = false;
        let i = g_item(w, &mix);
        if ["FileId", "InterfaceType"].contains(&i.kind.name()) {
            // these name what a message is about, but are no messages: an unknown one has no number of its own
            continue;
        }
        if i.kind.read_bytes(&i.bytes)?.is_ok() {
            w.note_bytes("message", &i.bytes);
            items.push(i);
        }
    }
    let mut sim = Sim::new(w);
    let mut up = vec![true; hops + 1];
    // what each hop has stored; this survives a crash
    let mut store: Vec<Vec<Option<Vec<u8>>>> = vec![vec![None; items.len()]; hops + 1];
    let mut done = vec![false; items.len()];
    let mut confirmed = vec![false; items.len()];
    for n in 0..items.len() {
        sim.after(w.draw(50_000), E::Send(n));
    }
    for _ in 0..w.draw(3) {
        let (t, h) = (w.draw(calm), w.range(1, hops as u64) as usize);
        sim.after(t, E::Crash(h));
    }
    let mut lost_id = vec![false; items.len()];
    while let Some(e) = sim.next() {
        ensure!(sim.steps < 20_000, "livelock", "{} steps", sim.steps);
        match e {
            E::Send(n) => {
                if confirmed[n] || lost_id[n] {
                    continue;
                }
                transmit(w, &mut sim, &air, missed, 1, n, &items[n].bytes);
                sim.after(20_000, E::Send(n));
            }
            E::Arrive { hop, n, data, intact } => {
                if !up[hop] {
                    w.mark("down", hop as u64, n as u64);
                    continue;
                }
                w.mark("arrive", hop as u64, n as u64);
                // intact copies are of the very bytes that were sent at the start
                let intact = intact && data == items[n].bytes;
                let out = pass_on(w, &items[n].kind, &data, intact, plain)?;
                let Some(out) = out else {
                    if intact {
                        // finding D4
                        lost_id[n] = true;
                    }
                    continue;
                };
                if !intact {
                    continue;
                }
                if hop == hops {
                    done[n] = true;
                    if let Some(x) = &items[n].expect {
                        if let Ok((_, v)) = items[n].kind.read_bytes(&data)? {
                            ensure!(v.same(&**x), "differs", "after {hops} hops, {} is {}", x.dbg(), v.dbg());
                        }
                    }
                    // the way back is not under test
                    sim.after(1 + w.draw(100), E::Confirm(n));
                } else if store[hop][n].is_none() {
                    store[hop][n] = Some(out);
                    sim.after(w.draw(500), E::Forward { hop, n });
                }
            }
            E::Forward { hop, n } => {
                if confirmed[n] || lost_id[n] {
                    continue;
                }
                if up[hop] {
                    if let Some(data) = store[hop][n].clone() {
                        transmit(w, &mut sim, &air, missed, hop + 1, n, &data);
                    }
                }
                sim.after(15_000, E::Forward { hop, n });
            }
            E::Confirm(n) => confirmed[n] = true,
            E::Crash(h) => {
                w.fault("fault.crash", h as u64);
                up[h] = false;
                sim.after(1 + w.draw(50_000), E::Restart(h));
            }
            E::Restart(h) => up[h] = true,
        }
        if w.now() > 2_000_000 {
            return violation("livelock", "not delivered long after the last fault");
        }
    }
    for n in 0..items.len() {
        ensure!(done[n] || lost_id[n], "lost", "{} never came out", hex(&items[n].bytes));
        w.count("delivered");
    }
    Ok(())
}

fn transmit(w: &World, sim: &mut Sim<E>, air: &Air, missed: u64, hop: usize, n: usize, data: &[u8]) {
    for (delay, data) in air.carry(w, hop - 1, hop, data) {
        if w.now() < air.calm && w.chance(missed, 1000) {
            let mut bad = data.clone();
            mutate(w, &mut bad);
            w.fault("fault.corrupt", hop as u64);
            sim.after(delay, E::Arrive { hop, n, data: bad, intact: false });
        } else {
            sim.after(delay, E::Arrive { hop, n, data, intact: true });
        }
    }
}
