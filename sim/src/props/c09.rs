//! C09: answers find their request.

use crate::bridge;
use crate::codec::*;
use crate::gen::*;
use crate::model::{self as m, Act, Hd, IfStatus};
use crate::net::*;
use crate::rt::*;
use dash7::app::action::Action;
use dash7::app::command::Command;
use dash7::app::operation::Status;
use std::collections::BTreeMap;

pub fn run(w: &World) -> Res {
    if w.draw(3) == 0 {
        return accessors(w);
    }
    dialog(w)
}

/// What a command says about itself, by the first of each
fn facts(acts: &[Act]) -> (Option<u8>, Option<(u8, bool, bool)>, Option<IfStatus>) {
    let mut rq = None;
    let mut rs = None;
    let mut st = None;
    for a in acts {
        match a {
            Act::RequestTag { id, .. } if rq.is_none() => rq = Some(*id),
            Act::ResponseTag { id, eop, err } if rs.is_none() => rs = Some((*id, *eop, *err)),
            Act::StatusIf(s) if st.is_none() => st = Some(s.clone()),
            _ => {}
        }
    }
    (rq, rs, st)
}

/// What the library says of the result of an action: which, by what name, and whether it failed
fn result_of(a: &Action) -> Option<(u8, Option<u8>, bool)> {
    match a {
        Action::Status(s) => match &s.status {
            Status::Action(r) => {
                let named = bridge::CODES.iter().find(|c| c.0 == r.status).map(|c| c.1);
                Some((r.action_id, named, r.status.is_err()))
            }
            _ => None,
        },
        _ => None,
    }
}

fn compare(w: &World, c: &Command, acts: &[Act]) -> Res {
    let (rq, rs, st) = facts(acts);
    guard("accessors", || -> Res {
        ensure!(c.request_id() == rq, "request id", "{c:?} has request {:?}, not {rq:?}", c.request_id());
        ensure!(c.request_tag().map(|t| t.id) == rq, "request id", "{c:?} has request tag {:?}", c.request_tag());
        let id = rs.map(|r| r.0);
        ensure!(c.response_id() == id, "response id", "{c:?} has response {:?}, not {id:?}", c.response_id());
        let tag = c.response_tag().map(|t| (t.id, t.header.end_of_packet, t.header.error));
        ensure!(tag == rs, "response tag", "{c:?} has response tag {tag:?}, not {rs:?}");
        ensure!(c.tag_id() == rq.or(id), "tag", "{c:?} has tag {:?}, not {:?}", c.tag_id(), rq.or(id));
        let last = rs.is_some_and(|r| r.1);
        ensure!(c.is_last_response() == last, "last", "{c:?}: last response is {}, not {last}", c.is_last_response());
        // the interface status is the first one, and all others are left out of what was asked or answered
        let lib = c.interface_status();
        match &st {
            None => ensure!(lib.is_none(), "status", "{c:?} has interface status {lib:?}"),
            Some(IfStatus::Other(_, d)) => ensure!(
                lib == Some(&dash7::session::InterfaceStatus::Other(d.clone())),
                "status",
                "{c:?} has interface status {lib:?}"
            ),
            Some(s) => ensure!(lib == Some(&bridge::ifstatus(s)), "status", "{c:?} has interface status {lib:?}, not {s:?}"),
        }
        let rest: Vec<usize> =
            (0..acts.len()).filter(|i| !matches!(acts[*i], Act::StatusIf(_))).collect();
        let lib = c.actions_without_interface_status();
        ensure!(
            lib.len() == rest.len() && lib.iter().zip(&rest).all(|(a, i)| **a == c.actions[*i]),
            "actions",
            "{c:?} without interface status is {lib:?}"
        );
        for (a, want) in c.actions.iter().zip(acts) {
            let want = match want {
                Act::StatusAction(id, code) => {
                    Some((*id, bridge::CODES.iter().any(|c| c.1 == *code).then_some(*code), *code >= 0x80))
                }
                _ => None,
            };
            ensure!(result_of(a) == want, "result", "{a:?} is the result {:?}, not {want:?}", result_of(a));
        }
        Ok(())
    })??;
    w.count("commands");
    Ok(())
}

fn accessors(w: &World) -> Res {
    let mut acts = g_cmd(w, &Mix::WIRE);
    acts.retain(|a| a.norm().is_ok());
    for _ in 0..w.draw(5) {
        let a = match w.draw(4) {
            0 => Act::RequestTag { eop: g_bool(w), id: g_u8(w) },
            1 | 2 => Act::ResponseTag { eop: g_bool(w), err: g_bool(w), id: g_u8(w) },
            _ => Act::StatusIf(match w.draw(3) {
                0 => IfStatus::Host,
                _ => IfStatus::D7(g_d7status(w, &Mix::WIRE)),
            }),
        };
        let at = w.draw(acts.len() as u64 + 1) as usize;
        acts.insert(at, a);
    }
    if let Some(i) = acts.iter().position(|a| matches!(a, Act::Indirect(..))) {
        acts.truncate(i + 1);
    }
    let data = m::enc_cmd(&acts);
    w.note_bytes("command", &data);
    let Some(norm) = norm_cmd(&acts) else { return Ok(()) };
    match decode(&data)? {
        Ok(c) => compare(w, &c, &norm),
        Err(e) => violation("refused", format!("{} gave {e:?}", hex(&data))),
    }
}

/// A client with several requests open at several devices, and all that can happen on the way
fn dialog(w: &World) -> Res {
    enum E {
        Ask(usize),
        Request { dev: usize, data: Vec<u8> },
        Answer { data: Vec<u8> },
        Crash(usize),
        Restart(usize),
        ClientCrash,
    }
    struct Open {
        dev: usize,
        tag: u8,
        file: u8,
        parts: usize,
        got: BTreeMap<usize, Vec<u8>>,
        last: bool,
        err: bool,
        finished: u32,
        tries: u32,
    }
    let devices = w.range(1, 3) as usize;
    let busy = w.chance(1, 12);
    let total = if busy { w.range(7, 40) } else { w.range(1, 6) } as usize;
    let calm = 300_000;
    let air = Air::random(w, calm);
    // device or client run the library; the other end is the reference, or the library as well
    let lib_dev = g_bool(w);
    let first = w.draw(256) as u8;
    let mut sim = Sim::new(w);
    let mut up = vec![true; devices];
    let mut open: Vec<Open> = (0..total)
        .map(|i| Open {
            dev: w.draw(devices as u64) as usize,
            // tags count up, and wrap
            tag: first.wrapping_add(i as u8),
            file: 0x40 + i as u8,
            parts: if w.chance(1, 12) { w.range(4, 15) } else { w.range(1, 3) } as usize,
            got: BTreeMap::new(),
            last: false,
            err: false,
            finished: 0,
            tries: 0,
        })
        .collect();
    for i in 0..total {
        sim.after(w.draw(100_000), E::Ask(i));
    }
    for _ in 0..w.draw(3) {
        let (t, d) = (w.draw(calm), w.draw(devices as u64) as usize);
        sim.after(t, E::Crash(d));
    }
    if w.chance(1, 4) {
        sim.after(w.draw(calm), E::ClientCrash);
    }
    let content = |file: u8, dev: usize, part: usize| vec![file, dev as u8, part as u8, 0x5A];
    while let Some(e) = sim.next() {
        ensure!(sim.steps < 20_000 + 4_000 * total as u64, "livelock", "{} steps", sim.steps);
        ensure!(w.now() < 3_000_000, "livelock", "unanswered long after the last fault");
        match e {
            E::Ask(i) => {
                let o = &mut open[i];
                if o.finished > 0 {
                    continue;
                }
                o.tries += 1;
                let mut acts = vec![Act::RequestTag { eop: true, id: o.tag }];
                for p in 0..o.parts {
                    acts.push(Act::ReadData(Hd { group: false, resp: true }, (o.file, 4 * p as u32), 4));
                }
                if w.chance(1, 4) {
                    // the tag need not come first
                    acts.rotate_left(1);
                }
                let cmd = bridge::cmd(&acts).expect("can be built");
                let data = encode_ok(&cmd)?;
                compare(w, &cmd, &acts)?;
                let dev = o.dev;
                w.mark("ask", o.tag as u64, o.tries as u64);
                for (t, data) in air.carry(w, 0, dev + 1, &data) {
                    sim.after(t, E::Request { dev, data });
                }
                sim.after(25_000 + w.draw(5_000), E::Ask(i));
            }
            E::Request { dev, data } => {
                if !up[dev] {
                    continue;
                }
                let (acts, _) = m::dec_cmd(&data).expect("was sent");
                let tag = if lib_dev {
                    let c = match decode(&data)? {
                        Ok(c) => c,
                        Err(e) => return violation("refused", format!("{} gave {e:?}", hex(&data))),
                    };
                    compare(w, &c, &acts)?;
                    match c.request_id() {
                        Some(t) => t,
                        None => return violation("request id", format!("{c:?} has no request id")),
                    }
                } else {
                    facts(&acts).0.expect("was sent")
                };
                w.mark("serve", dev as u64, tag as u64);
                let reads: Vec<(u8, u32)> = acts
                    .iter()
                    .filter_map(|a| match a {
                        Act::ReadData(_, off, _) => Some(*off),
                        _ => None,
                    })
                    .collect();
                let fails = w.chance(1, 10);
                let n = if fails { 0 } else { reads.len() };
                // one answer for all, or one for each; in which order they come is not known
                let whole = g_bool(w) || fails;
                let groups: Vec<Vec<(u8, u32)>> =
                    if whole { vec![reads[..n].to_vec()] } else { reads.iter().map(|r| vec![*r]).collect() };
                let last = groups.len() - 1;
                for (k, g) in groups.into_iter().enumerate() {
                    let mut acts = vec![];
                    for (file, off) in g {
                        let d = content(file, dev, off as usize / 4);
                        acts.push(Act::Data(32, Hd::default(), (file, off), m::File::Raw(d)));
                    }
                    let at = w.draw(acts.len() as u64 + 1) as usize;
                    let marked = fails && g_bool(w);
                    acts.insert(at, Act::ResponseTag { eop: k == last, err: marked, id: tag });
                    if fails && !marked || w.chance(1, 4) {
                        // how it went
                        let code = w.pick(&bridge::CODES.map(|c| c.1).into_iter().filter(|c| (*c >= 0x80) == fails).collect::<Vec<_>>());
                        let at = w.draw(acts.len() as u64 + 1) as usize;
                        acts.insert(at, Act::StatusAction(k as u8, code));
                    }
                    if g_bool(w) {
                        let mut s = g_d7status(w, &Mix::WIRE);
                        s.rx = dev as u8;
                        let at = w.draw(acts.len() as u64 + 1) as usize;
                        acts.insert(at, Act::StatusIf(IfStatus::D7(s)));
                    }
                    let data = if lib_dev {
                        encode_ok(&bridge::cmd(&acts).expect("can be built"))?
                    } else {
                        m::enc_cmd(&acts)
                    };
                    for (t, data) in air.carry(w, dev + 1, 0, &data) {
                        sim.after(t, E::Answer { data });
                    }
                }
            }
            E::Answer { data } => {
                let c = match decode(&data)? {
                    Ok(c) => c,
                    Err(e) => return violation("refused", format!("{} gave {e:?}", hex(&data))),
                };
                let (acts, _) = m::dec_cmd(&data).expect("was sent");
                compare(w, &c, &acts)?;
                // all that the client goes by is what the library tells
                let Some(id) = c.response_id() else {
                    return violation("response id", format!("{c:?} has no response id"));
                };
                let Some(o) = open.iter_mut().find(|o| o.tag == id) else {
                    return violation("stray", format!("nobody asked for {c:?}"));
                };
                w.mark("answer", id as u64, c.actions.len() as u64);
                if o.finished > 0 {
                    w.count("late answers");
                    continue;
                }
                let failed = c.response_tag().is_some_and(|t| t.header.error);
                let failed = failed || c.actions.iter().any(|a| result_of(a).is_some_and(|r| r.2));
                o.last |= c.is_last_response();
                o.err |= failed;
                for a in c.actions_without_interface_status() {
                    if !matches!(a, Action::ReturnFileData(_)) {
                        continue;
                    }
                    let mut out = std::io::Cursor::new(vec![]);
                    if encode_act_to(a, &mut out)?.is_err() {
                        return violation("answer", format!("{a:?} cannot be written"));
                    }
                    // opcode, file, offset, length, content
                    let b = out.into_inner();
                    ensure!(b.len() == 8, "answer", "{a:?} is {}", hex(&b));
                    let part = b[2] as usize / 4;
                    ensure!(
                        b[1] == o.file && b[4..] == content(o.file, o.dev, part)[..],
                        "mixed up",
                        "request {} for file {} at {} was answered with {}",
                        o.tag,
                        o.file,
                        o.dev,
                        hex(&b)
                    );
                    o.got.insert(part, b[4..].to_vec());
                }
                if o.last && (o.got.len() == o.parts || o.err) {
                    o.finished += 1;
                    w.count(if o.err { "failed by device" } else { "answered" });
                }
            }
            E::Crash(d) => {
                w.fault("fault.crash", d as u64);
                up[d] = false;
                sim.after(1 + w.draw(60_000), E::Restart(d));
            }
            E::Restart(d) => up[d] = true,
            E::ClientCrash => {
                // it knows what it has to ask, but nothing of what it was told
                w.fault("fault.crash", 99);
                for o in &mut open {
                    if o.finished == 0 {
                        o.got.clear();
                        o.last = false;
                        o.err = false;
                    }
                }
            }
        }
    }
    for o in &open {
        ensure!(o.finished == 1, "progress", "request {} was finished {} times", o.tag, o.finished);
    }
    Ok(())
}
