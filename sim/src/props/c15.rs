//! C15: a message that is edited says what it was edited to.

use crate::bridge;
use crate::codec::*;
use crate::gen::*;
use crate::io::*;
use crate::model::{self as m, Act};
use crate::net::*;
use crate::rt::*;
use dash7::app::action::Action;
use dash7::app::command::Command;
use dash7::app::interface::{IndirectInterface, InterfaceConfiguration};
use dash7::app::operation::Status;
use dash7::app::query::Query;
use dash7::file::{File, FileId, PhyStatus};
use dash7::network::Addressee;
use dash7::session::InterfaceStatus;
use deku::prelude::*;
use deku::reader::Reader;
use deku::writer::Writer;


pub fn run(w: &World) -> Res {
    match w.draw(4) {
        0 => survey(w),
        _ => gateway(w),
    }
}

// -------------------------------------------------------------------- edits, in the reference

fn edit_addressee(w: &World, a: &mut m::Addressee, mix: &Mix) {
    let new = g_addressee(w, mix);
    let what = 1 + w.draw(31);
    if what & 1 > 0 {
        a.addr = new.addr;
    }
    if what & 2 > 0 {
        (a.nls, a.nls_state) = (new.nls, new.nls_state);
    }
    if what & 4 > 0 {
        (a.specifier, a.mask) = (new.specifier, new.mask);
    }
    if what & 8 > 0 {
        a.group = new.group;
    }
    if what & 16 > 0 {
        a.use_vid = new.use_vid;
    }
}

fn edit_query(w: &World, q: &mut m::Query, mix: &Mix) {
    let n = g_size(w, mix);
    let on = g_bool(w) && n > 0;
    let off = (g_u8(w), g_len(w));
    let what = 1 + w.draw(7);
    match q {
        m::Query::NonVoid { len, file } => {
            *len = g_len(w);
            *file = off;
        }
        m::Query::Zero { masked, cmp, len, mask, file, .. } => {
            if what & 1 > 0 {
                *mask = if on { w.bytes(n) } else { vec![] };
                *masked = on;
                *len = mask.len() as u32;
            }
            if what & 2 > 0 {
                *cmp = w.draw(6) as u8;
            }
            if what & 4 > 0 {
                *file = off;
            }
        }
        m::Query::Value { masked, mask, value, signed, file, .. } => {
            if what & 1 > 0 {
                *value = w.bytes(n);
                *mask = if on { w.bytes(n) } else { vec![] };
            } else if what & 2 > 0 {
                *mask = if g_bool(w) { w.bytes(value.len()) } else { vec![] };
            }
            *masked = !mask.is_empty();
            if what & 4 > 0 {
                *signed = !*signed;
                *file = off;
            }
        }
        m::Query::Other { masked, len, mask, file1, file2, .. } => {
            if what & 1 > 0 {
                *mask = if on { w.bytes(n) } else { vec![] };
                *masked = on;
                *len = if on { n as u32 } else { g_len(w) };
            }
            if what & 2 > 0 {
                *file1 = off;
            }
            if what & 4 > 0 {
                *file2 = off;
            }
        }
        m::Query::Bitmap { masked, mask, start, stop, file, .. } => {
            if what & 1 > 0 {
                *mask = if on { w.bytes(n) } else { vec![] };
                *masked = on;
            }
            if what & 2 > 0 {
                (*start, *stop) = (g_len(w), g_len(w));
            }
            if what & 4 > 0 {
                *file = off;
            }
        }
        m::Query::Token { masked, errors, mask, value, file } => {
            if what & 1 > 0 {
                *value = w.bytes(n);
                *mask = if on { w.bytes(n) } else { vec![] };
            } else if what & 2 > 0 {
                *mask = if g_bool(w) { w.bytes(value.len()) } else { vec![] };
            }
            *masked = !mask.is_empty();
            if what & 4 > 0 {
                *errors = w.draw(8) as u8;
                *file = off;
            }
        }
    }
}

fn edit_act(w: &World, a: &mut Act, mix: &Mix) {
    match a {
        Act::Forward(resp, c) => {
            if w.draw(6) == 0 {
                *resp = !*resp;
                *c = g_ifconf(w, mix);
            } else if let m::IfConf::D7(c) = c {
                if w.draw(4) == 0 {
                    c.dormant = g_vi(w, mix);
                    c.qos.stop = !c.qos.stop;
                }
                edit_addressee(w, &mut c.to, mix);
            } else {
                *resp = !*resp;
            }
        }
        Act::Indirect(resp, c) => match (w.draw(4), c) {
            (0, c) => *c = None,
            (1, c) => {
                *resp = !*resp;
                *c = Some(g_indif(w, mix));
            }
            (_, Some(m::IndIf::D7(a))) => edit_addressee(w, a, mix),
            (_, c) => *c = Some(m::IndIf::D7(g_addressee(w, mix))),
        },
        Act::StatusIf(m::IfStatus::D7(s)) => {
            if w.draw(3) == 0 {
                s.timeout = g_vi(w, mix);
                s.seq = g_u8(w);
            }
            edit_addressee(w, &mut s.from, mix);
        }
        Act::Query(_, h, q) => {
            h.resp = g_bool(w);
            edit_query(w, q, mix);
        }
        Act::ReadData(h, off, len) => {
            h.group = g_bool(w);
            *off = (g_u8(w), g_len(w));
            *len = g_len(w);
        }
        Act::RequestTag { eop, id } => (*eop, *id) = (g_bool(w), g_u8(w)),
        Act::ResponseTag { err, id, .. } => (*err, *id) = (g_bool(w), g_u8(w)),
        // another in its place
        a => *a = g_edited(w, mix),
    }
}

/// Biased to what has parts that depend on each other
fn g_edited(w: &World, mix: &Mix) -> Act {
    for _ in 0..20 {
        let a = match w.draw(8) {
            0 | 1 => Act::Forward(
                g_bool(w),
                m::IfConf::D7(m::D7Conf {
                    qos: m::Qos { stop: g_bool(w), record: g_bool(w), retry: w.draw(8) as u8, resp: w.pick(&[0, 1, 2, 4, 5, 6]) },
                    dormant: g_vi(w, mix),
                    exec: if m::V == m::Variant::Subiot { m::VI::default() } else { g_vi(w, mix) },
                    to: g_addressee(w, mix),
                }),
            ),
            2 => Act::StatusIf(m::IfStatus::D7(g_d7status(w, mix))),
            3 | 4 => Act::Query(w.pick(&m::QUERIES), m::Hd { group: g_bool(w), resp: g_bool(w) }, g_query(w, mix)),
            5 => Act::Indirect(g_bool(w), if g_bool(w) { Some(g_indif(w, mix)) } else { None }),
            _ => g_act(w, mix),
        };
        if bridge::act(&a).is_some() && a.norm().is_ok() {
            return a;
        }
    }
    Act::RequestTag { eop: false, id: 0 }
}

// -------------------------------------------------------------------- the same edits, of values of the library

/// Who calls update
#[derive(Clone, Copy, PartialEq)]
enum Care {
    /// After each edit
    Full,
    /// Only sometimes: then the message may be refused, but says nothing else
    Careless,
}

struct Edit<'a> {
    w: &'a World,
    care: Care,
}

impl Edit<'_> {
    fn update<T: DekuUpdate>(&self, x: &mut T) -> Res {
        if self.care == Care::Careless && self.w.draw(2) == 0 {
            return Ok(());
        }
        match guard("update", || x.update())? {
            Ok(()) => Ok(()),
            Err(e) => violation("update", format!("update after an edit gave {e:?}")),
        }
    }

    fn addressee(&self, x: &mut Addressee, y: Addressee) -> Res {
        x.access_class = y.access_class;
        x.address = y.address;
        x.nls_state = y.nls_state;
        #[cfg(feature = "wizzilab")]
        {
            x.group_condition = y.group_condition;
            x.use_vid = y.use_vid;
        }
        self.update(x)
    }

    fn query(&self, x: &mut Query, y: Query) -> Res {
        match (x, y) {
            (Query::NonVoid(x), Query::NonVoid(y)) => *x = y,
            (Query::ComparisonWithZero(x), Query::ComparisonWithZero(y)) => {
                (x.params, x.mask, x.file) = (y.params, y.mask, y.file);
                self.update(x)?;
            }
            (Query::ComparisonWithValue(x), Query::ComparisonWithValue(y)) => {
                (x.params, x.mask, x.value, x.file) = (y.params, y.mask, y.value, y.file);
                self.update(x)?;
            }
            (Query::ComparisonWithOtherFile(x), Query::ComparisonWithOtherFile(y)) => {
                // here the length is for the user to set
                (x.params, x.mask, x.file1, x.file2, x.length) = (y.params, y.mask, y.file1, y.file2, y.length);
                self.update(x)?;
            }
            (Query::BitmapRangeComparison(x), Query::BitmapRangeComparison(y)) => {
                (x.params, x.mask, x.start, x.stop, x.file, x.length) = (y.params, y.mask, y.start, y.stop, y.file, y.length);
                self.update(x)?;
            }
            (Query::StringTokenSearch(x), Query::StringTokenSearch(y)) => {
                (x.max_errors, x.mask, x.value, x.file) = (y.max_errors, y.mask, y.value, y.file);
                self.update(x)?;
            }
            (x, y) => *x = y,
        }
        Ok(())
    }

    /// Makes one of the other, through the fields that a user has access to
    fn action(&self, x: &mut Action, y: Action) -> Res {
        match (x, y) {
            (Action::Forward(x), Action::Forward(y)) => {
                x.header = y.header;
                match (&mut x.configuration, y.configuration) {
                    (InterfaceConfiguration::Dash7(x), InterfaceConfiguration::Dash7(y)) => {
                        x.qos = y.qos;
                        x.dormant_session_timeout = y.dormant_session_timeout;
                        #[cfg(not(feature = "subiot"))]
                        {
                            x.execution_delay_timeout = y.execution_delay_timeout;
                        }
                        self.addressee(&mut x.addressee, y.addressee)?;
                    }
                    (x, y) => *x = y,
                }
            }
            (Action::IndirectForward(x), Action::IndirectForward(y)) => {
                x.header.response = y.header.response;
                match (&mut x.configuration, y.configuration) {
                    (Some(IndirectInterface::Dash7(x)), Some(IndirectInterface::Dash7(y))) => self.addressee(x, y)?,
                    (x, y) => *x = y,
                }
                self.update(x)?;
            }
            (Action::Status(x), Action::Status(y)) => match (&mut x.status, y.status) {
                (Status::Interface(x), Status::Interface(y)) => match (&mut x.status, y.status) {
                    (InterfaceStatus::Dash7(x), InterfaceStatus::Dash7(y)) => {
                        let from = y.addressee.clone();
                        let old = std::mem::replace(&mut x.addressee, from.clone());
                        *x = y;
                        x.addressee = old;
                        self.addressee(&mut x.addressee, from)?;
                    }
                    (a, b) => {
                        *a = b;
                        x.interface_type = y.interface_type;
                    }
                },
                (a, b) => {
                    *a = b;
                    x.status_type = y.status_type;
                }
            },
            (Action::ActionQuery(x), Action::ActionQuery(y))
            | (Action::BreakQuery(x), Action::BreakQuery(y))
            | (Action::VerifyChecksum(x), Action::VerifyChecksum(y)) => {
                x.header = y.header;
                self.query(&mut x.query, y.query)?;
            }
            (x, y) => *x = y,
        }
        Ok(())
    }
}

// -------------------------------------------------------------------- the gateway

/// A message that is kept and edited
struct Kept {
    /// What it says
    acts: Vec<Act>,
    cmd: Command,
    /// Whether each edit since it was built or read was followed by an update
    careful: bool,
}

impl Kept {
    /// Writes it, and checks what that gives. None if it was refused.
    fn write(&self, w: &World, plan: Plan) -> Res<Option<Vec<u8>>> {
        let want = m::enc_cmd(&self.acts);
        let mut s = Sink::new(w, plan);
        let got = encode_to(&self.cmd, &mut s)?;
        if let Some(kind) = s.failed {
            ensure!(got == Err(DekuError::Io(kind)), "hidden", "{kind:?} was reported as {got:?}");
            ensure!(want.starts_with(&s.data) || !self.careful, "not a prefix", "{:?} left {}", self.acts, hex(&s.data));
            return Ok(None);
        }
        match got {
            Ok(()) => {
                let same = s.data == want || !self.careful && same_meaning(&s.data, &want);
                ensure!(
                    same,
                    "says something else",
                    "edited to {:?}, which is {}, but sent as {}: {:?}",
                    self.acts,
                    hex(&want),
                    hex(&s.data),
                    self.cmd
                );
                Ok(Some(s.data))
            }
            Err(e) => {
                ensure!(!self.careful, "refused", "{:?}, edited and updated to {:?}, gave {e:?}", self.cmd, self.acts);
                w.count("refused");
                Ok(None)
            }
        }
    }

    /// Editing is done to the end or not at all
    fn edit(&mut self, w: &World, to: &[Act], care: Care) -> Res {
        let e = Edit { w, care };
        for (i, a) in to.iter().enumerate() {
            let y = bridge::act(a).expect("can be built");
            match self.cmd.actions.get_mut(i) {
                Some(x) => {
                    if self.acts.get(i) != Some(a) || care == Care::Full {
                        e.action(x, y)?;
                    }
                }
                None => self.cmd.actions.push(y),
            }
        }
        self.cmd.actions.truncate(to.len());
        self.acts = to.to_vec();
        match care {
            // that also sets what earlier edits left
            Care::Full => self.careful = true,
            Care::Careless => self.careful = false,
        }
        Ok(())
    }
}

/// The mark that there is a mask says nothing that the mask itself does not
fn same_meaning(a: &[u8], b: &[u8]) -> bool {
    let dec = |d: &[u8]| {
        let (mut acts, used) = m::dec_cmd(d).ok()?;
        for a in acts.iter_mut() {
            if let Act::Query(_, _, q) = a {
                match q {
                    m::Query::NonVoid { .. } => {}
                    m::Query::Zero { masked, mask, .. }
                    | m::Query::Value { masked, mask, .. }
                    | m::Query::Other { masked, mask, .. }
                    | m::Query::Bitmap { masked, mask, .. }
                    | m::Query::Token { masked, mask, .. } => *masked = !mask.is_empty(),
                }
            }
        }
        (used == d.len()).then_some(acts)
    };
    matches!((dec(a), dec(b)), (Some(a), Some(b)) if a == b)
}

fn read(w: &World, data: &[u8]) -> Res<Command> {
    let mut s = Source::new(w, data, Plan::awkward(w));
    match decode_from(&mut s)? {
        Ok((_, c)) => Ok(c),
        Err(e) => violation("rejects", format!("{} gave {e:?}", hex(data))),
    }
}

enum E {
    /// The operator has something new for slot n
    Change(usize),
    /// The gateway sends what it has in slot n
    Send(usize),
    Arrive { n: usize, version: usize, data: Vec<u8> },
    Crash,
    Restart,
}

/// A gateway keeps messages for its devices and edits them as the operator says, over and over.
fn gateway(w: &World) -> Res {
    let calm = 100_000;
    let air = Air::random(w, calm);
    let slots = w.range(1, 3) as usize;
    let mix = Mix { big: 300, ..Mix::SEND };
    let mut sim = Sim::new(w);
    // what the operator wants, and each version of it
    let mut wanted: Vec<Vec<Vec<Act>>> = vec![];
    // on the gateway's disk: the bytes it last read or wrote, and the version it is to make of them
    let mut disk: Vec<(Vec<u8>, Vec<Act>, usize)> = vec![];
    for n in 0..slots {
        let k = w.range(1, 3);
        let mut acts: Vec<Act> = (0..k).map(|_| g_edited(w, &mix)).collect();
        tidy(&mut acts);
        disk.push((m::enc_cmd(&acts), norm_cmd(&acts).expect("checked"), 0));
        wanted.push(vec![acts]);
        for _ in 0..w.draw(5) {
            sim.after(w.draw(calm), E::Change(n));
        }
        sim.after(w.draw(5_000), E::Send(n));
    }
    let mut mem: Vec<Option<Kept>> = (0..slots).map(|_| None).collect();
    for (n, v) in wanted.iter().enumerate() {
        // it may have built them itself
        if g_bool(w) {
            mem[n] = Some(Kept { acts: v[0].clone(), cmd: bridge::cmd(&v[0]).expect("checked"), careful: true });
        }
    }
    let mut up = true;
    for _ in 0..w.draw(3) {
        let t = w.draw(calm);
        sim.after(t, E::Crash);
    }
    let mut got: Vec<Option<usize>> = vec![None; slots];
    while let Some(e) = sim.next() {
        ensure!(sim.steps < 20_000, "livelock", "{} steps", sim.steps);
        match e {
            E::Change(n) => {
                let mut acts = wanted[n].last().unwrap().clone();
                change(w, &mut acts, &mix);
                w.mark("change", n as u64, wanted[n].len() as u64);
                wanted[n].push(acts);
                disk[n].2 = wanted[n].len() - 1;
                if !up {
                    continue;
                }
                // not all at once: a careless edit, a failed or refused write, and then again with care
                let now = wanted[n].last().unwrap().clone();
                let kept = load(w, &mut mem[n], &disk[n])?;
                if w.draw(3) == 0 {
                    kept.edit(w, &now, Care::Careless)?;
                    kept.write(w, Plan::none())?;
                    if w.chance(1, 4) {
                        up = false;
                        w.fault("fault.crash", n as u64);
                        mem.iter_mut().for_each(|m| *m = None);
                        sim.after(1 + w.draw(20_000), E::Restart);
                        continue;
                    }
                }
                if g_bool(w) {
                    kept.edit(w, &now, Care::Full)?;
                    w.count("edits");
                }
            }
            E::Send(n) => {
                if got[n] == Some(wanted[n].len() - 1) && w.now() > calm {
                    continue;
                }
                sim.after(w.range(5_000, 20_000), E::Send(n));
                if !up {
                    continue;
                }
                let version = disk[n].2;
                let now = wanted[n][version].clone();
                let kept = load(w, &mut mem[n], &disk[n])?;
                if kept.acts != now || !kept.careful {
                    kept.edit(w, &now, Care::Full)?;
                    w.count("edits");
                }
                let mut plan = Plan::awkward(w);
                if w.now() < calm && w.chance(1, 5) {
                    plan.fail_at = Some((w.draw(12), w.pick(&HARD)));
                }
                let Some(data) = kept.write(w, plan)? else { continue };
                if w.draw(3) == 0 {
                    // goes on from what it sent
                    disk[n].0 = data.clone();
                    disk[n].1 = norm_cmd(&now).expect("checked");
                    mem[n] = None;
                }
                for (delay, data) in air.carry(w, 0, 1, &data) {
                    sim.after(delay, E::Arrive { n, version, data });
                }
            }
            E::Arrive { n, version, data } => {
                // the device is an implementation of its own
                let says = m::dec_cmd(&data);
                let want = norm_cmd(&wanted[n][version]).expect("checked");
                match says {
                    Ok((acts, used)) => {
                        ensure!(
                            acts == want && used == data.len(),
                            "says something else",
                            "the device was told {acts:?}, not {want:?}"
                        );
                    }
                    Err(_) => return violation("garbage", format!("the device was sent {}", hex(&data))),
                }
                got[n] = got[n].max(Some(version));
                w.count("delivered");
            }
            E::Crash => {
                if up {
                    up = false;
                    w.fault("fault.crash", 99);
                    mem.iter_mut().for_each(|m| *m = None);
                    sim.after(1 + w.draw(20_000), E::Restart);
                }
            }
            E::Restart => up = true,
        }
        ensure!(w.now() < 5_000_000, "livelock", "not delivered long after the last fault");
    }
    for n in 0..slots {
        ensure!(got[n] == Some(wanted[n].len() - 1), "lost", "slot {n} stays at {:?}", got[n]);
    }
    Ok(())
}

/// Nothing comes after an indirect forward
fn tidy(acts: &mut Vec<Act>) {
    if let Some(i) = acts.iter().position(|a| matches!(a, Act::Indirect(..))) {
        acts.truncate(i + 1);
    }
}

fn change(w: &World, acts: &mut Vec<Act>, mix: &Mix) {
    match w.draw(8) {
        0 => acts.insert(0, Act::RequestTag { eop: g_bool(w), id: g_u8(w) }),
        1 => {
            let i = w.draw(acts.len() as u64 + 1) as usize;
            acts.insert(i, g_edited(w, mix));
        }
        2 if !acts.is_empty() => {
            acts.remove(w.draw(acts.len() as u64) as usize);
        }
        3 => acts.reverse(),
        _ => {
            for a in acts.iter_mut() {
                if g_bool(w) {
                    let mut b = a.clone();
                    edit_act(w, &mut b, mix);
                    if bridge::act(&b).is_some() && b.norm().is_ok() {
                        *a = b;
                    }
                }
            }
        }
    }
    tidy(acts);
}

fn load<'a>(w: &World, slot: &'a mut Option<Kept>, disk: &(Vec<u8>, Vec<Act>, usize)) -> Res<&'a mut Kept> {
    if slot.is_none() {
        let mut cmd = read(w, &disk.0)?;
        // what was not edited is not changed
        let before = cmd.clone();
        for a in cmd.actions.iter_mut() {
            untouched(a)?;
        }
        ensure!(cmd == before, "update alone", "update made {cmd:?} of {before:?}");
        *slot = Some(Kept { acts: disk.1.clone(), cmd, careful: true });
    }
    Ok(slot.as_mut().unwrap())
}

/// An update of everything, with no edit before it
fn untouched(a: &mut Action) -> Res {
    let r = guard("update", || -> L<()> {
        match a {
            Action::Forward(x) => {
                if let InterfaceConfiguration::Dash7(c) = &mut x.configuration {
                    c.addressee.update()?;
                    c.update()?;
                }
                x.update()?;
            }
            Action::IndirectForward(x) => {
                if let Some(IndirectInterface::Dash7(c)) = &mut x.configuration {
                    c.update()?;
                }
                x.update()?;
            }
            Action::Status(x) => {
                if let Status::Interface(s) = &mut x.status {
                    if let InterfaceStatus::Dash7(s) = &mut s.status {
                        s.addressee.update()?;
                        s.update()?;
                    }
                    s.update()?;
                }
                x.update()?;
            }
            Action::ActionQuery(x) | Action::BreakQuery(x) | Action::VerifyChecksum(x) => {
                match &mut x.query {
                    Query::NonVoid(q) => q.update()?,
                    Query::ComparisonWithZero(q) => q.update()?,
                    Query::ComparisonWithValue(q) => q.update()?,
                    Query::ComparisonWithOtherFile(q) => q.update()?,
                    Query::BitmapRangeComparison(q) => q.update()?,
                    Query::StringTokenSearch(q) => q.update()?,
                }
                x.update()?;
            }
            _ => {}
        }
        a.update()
    })?;
    match r {
        Ok(()) => Ok(()),
        Err(e) => violation("update alone", format!("update of an unedited value gave {e:?}")),
    }
}

// -------------------------------------------------------------------- a list that grows and shrinks

fn file_bytes(f: &File, n: u32, sink: &mut Sink) -> Res<L<()>> {
    guard("File::to_writer", || {
        let mut out = Writer::new(sink);
        f.to_writer(&mut out, (FileId::PhyStatus, n))?;
        out.finalize()
    })
}

/// A device surveys its channels: entries come and go in a file that it saves now and then, and reads after a crash
fn survey(w: &World) -> Res {
    let new = |w: &World, n: u64| -> Vec<(u8, u8, u16, u8)> {
        (0..n)
            .map(|_| {
                let v = w.draw(1 << 20);
                ((v % 5) as u8, ((v >> 3) & 1) as u8, ((v >> 4) & 0x7FF) as u16, (v >> 12) as u8)
            })
            .collect()
    };
    let n = w.draw(4);
    let mut list = new(w, n);
    let (up, rx, tx, duty) = (g_u32(w), g_u32(w), g_u32(w), g_u16(w));
    let model = |list: &[(u8, u8, u16, u8)]| m::File::Phy { up, rx, tx, duty, list: list.to_vec() };
    let lib = |list: &[(u8, u8, u16, u8)]| match bridge::file(&model(list)) {
        File::PhyStatus(p) => p,
        _ => unreachable!(),
    };
    let mut p: PhyStatus = lib(&list);
    // whether the length was brought up to date
    let mut fresh = true;
    let mut saved = model(&list).enc();
    let mut saved_list = list.clone();
    for step in 0..w.range(2, 12) {
        match w.draw(8) {
            0..=2 => {
                let n = match w.draw(10) {
                    0 => 250,
                    1 => 256,
                    2 => w.range(0, 255).saturating_sub(list.len() as u64),
                    _ => w.range(1, 4),
                };
                let more = new(w, n);
                list.extend(&more);
                p.channel_status.extend(lib(&more).channel_status);
                fresh = false;
            }
            3 | 4 => {
                let n = w.draw(list.len() as u64 + 1) as usize;
                list.truncate(n);
                p.channel_status.truncate(n);
                fresh = false;
            }
            5 => {
                w.fault("fault.crash", step);
                let mut s = Source::new(w, &saved, Plan::awkward(w));
                let got = guard("File::from_reader", || {
                    let mut r = Reader::new(&mut s);
                    File::from_reader_with_ctx(&mut r, (FileId::PhyStatus, saved.len() as u32))
                })?;
                match got {
                    Ok(File::PhyStatus(x)) => p = x,
                    got => return violation("rejects", format!("{} gave {got:?}", hex(&saved))),
                }
                list = saved_list.clone();
                fresh = true;
                ensure!(p == lib(&list), "differs", "{list:?} was read as {p:?}");
            }
            _ => {
                let r = guard("update", || p.update())?;
                if list.len() > 255 {
                    ensure!(r.is_err(), "update", "a list of {} entries was counted", list.len());
                    fresh = false;
                } else {
                    ensure!(r.is_ok(), "update", "update of {} entries gave {r:?}", list.len());
                    ensure!(p == lib(&list), "update", "{list:?} gave {p:?}");
                    fresh = true;
                }
            }
        }
        // save it
        let want = model(&list[..list.len().min(255)]).enc();
        let mut plan = Plan::awkward(w);
        if w.chance(1, 6) {
            plan.fail_at = Some((w.draw(20), w.pick(&HARD)));
        }
        let mut s = Sink::new(w, plan);
        let got = file_bytes(&File::PhyStatus(p.clone()), 0, &mut s)?;
        if let Some(kind) = s.failed {
            ensure!(got == Err(DekuError::Io(kind)), "hidden", "{kind:?} was reported as {got:?}");
            continue;
        }
        match got {
            Ok(()) => {
                ensure!(list.len() <= 255, "altered", "{} entries were written as {}", list.len(), hex(&s.data));
                ensure!(s.data == want, "says something else", "{list:?} was written as {}, not {}", hex(&s.data), hex(&want));
                saved = s.data;
                saved_list = list.clone();
                w.count("saved");
            }
            Err(e) => {
                ensure!(!fresh || list.len() > 255, "refused", "{p:?} gave {e:?}");
                w.count("refused");
            }
        }
    }

    Ok(())
}
