//! C16: the text that a log shows for a message says what is in it, or the log is known to be broken.

use super::common::*;
use crate::bridge;
use crate::gen::*;
use crate::io::*;
use crate::model::{self as m, Act, IfStatus};
use crate::net::*;
use crate::rt::*;
use dash7::app::command::Command;
use std::fmt::Display;
use std::io::Write;
use std::sync::Arc;

enum E {
    Send(usize),
    Arrive { to: usize, data: Vec<u8> },
    Crash(usize),
}

/// The text for an interface status, by the reference
fn status_text(s: &IfStatus) -> String {
    match s {
        IfStatus::Host => "HostInterfaceStatus{}".into(),
        IfStatus::Serial => "SerialInterfaceStatus{}".into(),
        IfStatus::Other(_, d) => format!("OtherInterfaceStatus{{ {d:?} }}"),
        IfStatus::D7(s) => {
            let flags = [("nls", s.nls), ("missed", s.missed), ("retry", s.retry), ("unicast", s.unicast)];
            let mut t = format!("Dash7InterfaceStatus {{ channel: {:?}, ", bridge::chan(&s.chan));
            t += &format!("rx_level: {}, link_budget: {}, target_rx_level: {}, ", s.rx, s.lb, s.target);
            for (name, on) in flags {
                t += &format!("{name}: {on}, ");
            }
            t += &format!("fifo_token: {}, sequence_number: {}, response_timeout: {}, ", s.fifo, s.seq, s.timeout.v);
            t + &format!("addressee: {:?},  }}", bridge::addressee(&s.from))
        }
    }
}

/// The text for a command, by the reference. The text of its single actions is given.
fn command_text(acts: &[Act], lines: &[String]) -> String {
    let request = acts.iter().find_map(|a| match a {
        Act::RequestTag { id, .. } => Some(*id),
        _ => None,
    });
    let response = acts.iter().find_map(|a| match a {
        Act::ResponseTag { eop, err, id } => Some((*eop, *err, *id)),
        _ => None,
    });
    let mut t = "Command ".to_string();
    if let Some(id) = request.or(response.map(|r| r.2)) {
        t += &format!("with tag {id} ");
    }
    t += match response {
        Some((true, true, _)) => "(completed, with error)",
        Some((true, false, _)) => "(completed, without error)",
        _ => "(executing)",
    };
    let statuses: Vec<&IfStatus> = acts.iter().filter_map(|a| if let Act::StatusIf(s) = a { Some(s) } else { None }).collect();
    let others: Vec<&String> =
        acts.iter().zip(lines).filter(|(a, _)| !matches!(a, Act::StatusIf(_))).map(|(_, l)| l).collect();
    if !others.is_empty() {
        t += "\n\tactions:\n";
        for l in &others {
            t += &format!("\t\t{l}\n");
        }
    }
    for (i, s) in statuses.iter().enumerate() {
        if i == 0 && !others.is_empty() {
            t.push('\n');
        }
        t += &format!("\tinterface status: {}\n", status_text(s));
    }
    t
}

/// Something to show, and the text it has to have
struct Entry {
    cmd: Command,
    acts: Vec<Act>,
    text: String,
}

fn entry(cmd: Command, acts: Vec<Act>, received: bool) -> Res<Entry> {
    let mut lines = vec![];
    for (lib, a) in cmd.actions.iter().zip(&acts) {
        // a user's own values are shown as they are; what was received, as the reference understands it
        let a = if received { act_rx(a) } else { None };
        lines.push(guard("Debug", || match &a {
            Some(a) => format!("{a:?}"),
            None => format!("{lib:?}"),
        })?);
    }
    let text = command_text(&acts, &lines);
    Ok(Entry { cmd, acts, text })
}

/// One line of a log. Whether it was written.
fn show(w: &World, v: &dyn Display, want: &str, plan: Plan, room: Option<u64>) -> Res<bool> {
    let mut log = Sink::new(w, plan);
    log.room = room;
    if g_bool(w) {
        log.full = Full::Kind(w.pick(&HARD));
    }
    let r = guard("Display", || write!(log, "{v}"))?;
    let got = String::from_utf8_lossy(&log.data).into_owned();
    match (r, log.failed) {
        (Ok(()), None) => {
            ensure!(got == want, "text", "the log says {got:?} instead of {want:?}");
            w.count("shown");
            Ok(true)
        }
        (Ok(()), Some(kind)) => violation("hidden", format!("the log failed with {kind:?}, but {want:?} was shown as {got:?}")),
        (Err(e), None) => violation("refused", format!("{want:?} cannot be shown: {e:?}, after {got:?}")),
        (Err(e), Some(kind)) => {
            ensure!(e.kind() == kind, "error", "the log failed with {kind:?}, which was reported as {e:?}");
            ensure!(want.as_bytes().starts_with(&log.data), "text", "a log that failed says {got:?}, which is not the start of {want:?}");
            w.count("failure reported");
            Ok(false)
        }
    }
}

fn show_entry(w: &World, e: &Entry) -> Res {
    let mut tries = 0;
    loop {
        let mut plan = if w.draw(3) == 0 { Plan::none() } else { Plan::awkward(w) };
        let mut room = None;
        tries += 1;
        if tries < 4 {
            match w.draw(4) {
                0 => {
                    plan.fail_at = Some((w.draw(30), w.pick(&HARD)));
                    plan.stay_failed = g_bool(w);
                }
                1 => room = Some(w.draw(e.text.len() as u64 + 2)),
                _ => {}
            }
        }
        if show(w, &e.cmd, &e.text, plan, room)? {
            break;
        }
    }
    // what is in it on its own
    for s in &e.acts {
        if let Act::StatusIf(s) = s {
            let lib = match s {
                IfStatus::Other(_, d) => dash7::session::InterfaceStatus::Other(d.clone()),
                s => bridge::ifstatus(s),
            };
            show(w, &lib, &status_text(s), Plan::awkward(w), None)?;
            if let dash7::session::InterfaceStatus::Dash7(d) = &lib {
                show(w, d, &status_text(s), Plan::awkward(w), None)?;
            }
            break;
        }
    }
    Ok(())
}

/// Messages with tags and statuses, as nodes log them
fn acts(w: &World) -> Vec<Act> {
    let mix = if g_bool(w) { Mix::WIRE } else { Mix::SEND };
    let mut acts = g_cmd(w, &mix);
    if w.draw(20) != 19 {
        acts.truncate(20);
    }
    for _ in 0..w.draw(4) {
        let at = w.draw(acts.len() as u64 + 1) as usize;
        let a = match w.draw(4) {
            0 => Act::RequestTag { eop: g_bool(w), id: g_u8(w) },
            1 => Act::ResponseTag { eop: g_bool(w), err: g_bool(w), id: g_u8(w) },
            2 => Act::StatusIf(w.pick(&[IfStatus::Host, IfStatus::Serial, IfStatus::Other(9, vec![1, 2])])),
            _ => Act::StatusIf(IfStatus::D7(g_d7status(w, &mix))),
        };
        acts.insert(at, a);
    }
    acts
}

/// What of a message the text has to tell apart: the place of a status among the other actions is not in it
fn essence(acts: &[Act]) -> (Vec<Act>, Vec<Act>) {
    let acts = acts.iter().map(|a| match a {
        // finding D4: the library does not know this id
        Act::StatusIf(IfStatus::Other(_, d)) => Act::StatusIf(IfStatus::Other(9, d.clone())),
        a => a.clone(),
    });
    acts.partition(|a| matches!(a, Act::StatusIf(_)))
}

/// Two messages that differ in one thing
fn alike(w: &World) -> Res {
    let (a, b) = w.twins(|| acts(w));
    let (a, b) = (m::enc_cmd(&a), m::enc_cmd(&b));
    let both = (agree_quietly(&a)?, agree_quietly(&b)?);
    let (Some((x, ax)), Some((y, ay))) = both else { return Ok(()) };
    w.note_bytes("one", &a);
    w.note_bytes("other", &b);
    if essence(&ax) != essence(&ay) {
        let (x, y) = (guard("Display", || x.to_string())?, guard("Display", || y.to_string())?);
        ensure!(x != y, "alike", "{} and {} are both shown as {x:?}", hex(&a), hex(&b));
        w.count("told apart");
    }
    Ok(())
}

/// What both the library and the reference understand
fn agree_quietly(data: &[u8]) -> Res<Option<(Command, Vec<Act>)>> {
    let lib = guard("Command::from_bytes", || Command::from_bytes((data, 0)).ok())?;
    Ok(match (lib, m::dec_cmd(data)) {
        (Some((_, cmd)), Ok((acts, _))) if cmd.actions.len() == acts.len() => Some((cmd, acts)),
        _ => None,
    })
}

pub fn run(w: &World) -> Res {
    if w.draw(6) == 5 {
        return alike(w);
    }
    let n = w.range(1, 4) as usize;
    let mut air = Air::random(w, 100_000);
    air.corrupt = w.pick(&[0, 100, 500]);
    let mut sim = Sim::new(w);
    let mut inbox: Vec<Vec<Vec<u8>>> = vec![vec![]; n];
    let mut sent: Vec<(Command, Vec<Act>)> = vec![];
    for i in 0..w.range(1, 4) as usize {
        let acts = acts(w);
        let Some(cmd) = bridge::cmd(&acts) else { continue };
        sent.push((cmd, acts));
        sim.after(w.draw(100_000), E::Send(i));
    }
    if w.chance(1, 4) {
        let (t, i) = (w.draw(100_000), w.draw(n as u64) as usize);
        sim.after(t, E::Crash(i));
    }
    while let Some(e) = sim.next() {
        match e {
            E::Send(i) => {
                let Some((_, acts)) = sent.get(i) else { continue };
                let data = m::enc_cmd(acts);
                w.note_bytes("sent", &data);
                for to in 0..n {
                    for (delay, data) in air.carry(w, n, to, &data) {
                        sim.after(delay, E::Arrive { to, data });
                    }
                }
            }
            E::Arrive { to, data } => inbox[to].push(data),
            E::Crash(i) => {
                // what was not logged yet is gone
                w.fault("fault.crash", i as u64);
                inbox[i].clear();
            }
        }
    }
    // the sender logs what it built, the others what they understood; one value is shown by all of them
    let mut logs: Vec<Vec<Arc<Entry>>> = vec![vec![]; n + 1];
    for (cmd, acts) in &sent {
        logs[n].push(Arc::new(entry(cmd.clone(), acts.clone(), false)?));
    }
    for (i, inbox) in inbox.iter().enumerate() {
        for data in inbox {
            if let Some((cmd, acts)) = agree_quietly(data)? {
                logs[i].push(Arc::new(entry(cmd, acts, true)?));
            }
        }
    }
    if let Some(e) = logs[n].first().cloned() {
        logs.iter_mut().for_each(|l| l.push(e.clone()));
    }
    w.core().preempt = w.pick(&[20, 200, 1000]);
    let mut tasks: Jobs = vec![];
    for l in logs {
        let w = w.clone();
        tasks.push(Box::new(move || l.iter().try_for_each(|e| show_entry(&w, e))));
    }
    w.run_tasks(tasks)
}
