//! Workload: commands that a party may send, biased to the edges of every field.

use crate::model::*;
use crate::rt::World;

/// What the workload contains
#[derive(Clone, Copy)]
pub struct Mix {
    /// Also what a library user cannot build, only receive
    pub wire_only: bool,
    /// Statuses of interfaces unknown to the library
    pub unknown_status: bool,
    /// Durations that have no exact compressed form
    pub inexact: bool,
    /// Largest payload
    pub big: usize,
    /// Commands may go on after an indirect forward
    pub after_indirect: bool,
}

impl Mix {
    pub const SEND: Mix =
        Mix { wire_only: false, unknown_status: false, inexact: true, big: 17_000, after_indirect: false };
    /// Now and then also what needs more than 16 bits to count
    pub fn vast(self, w: &World) -> Mix {
        Mix { big: if w.chance(1, 60) { 70_000 } else { self.big }, ..self }
    }

    pub const WIRE: Mix = Mix { wire_only: true, unknown_status: true, inexact: false, big: 17_000, after_indirect: false };
}

pub fn g_u8(w: &World) -> u8 {
    if let Some(v) = w.hint(0xFF) {
        return v as u8;
    }
    match w.draw(4) {
        0 => w.pick(&[0u8, 1, 2, 0x3F, 0x40, 0x7F, 0x80, 0xD7, 0xFE, 0xFF]),
        _ => w.draw(256) as u8,
    }
}

pub fn g_u16(w: &World) -> u16 {
    if let Some(v) = w.hint(0xFFFF) {
        return v as u16;
    }
    match w.draw(3) {
        0 => w.pick(&[0u16, 1, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFF00, 0xFFFF]),
        _ => w.draw(1 << 16) as u16,
    }
}

pub fn g_u32(w: &World) -> u32 {
    if let Some(v) = w.hint(0xFFFF_FFFF) {
        return v as u32;
    }
    match w.draw(3) {
        0 => w.pick(&[0u32, 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF]),
        _ => w.draw(1 << 32) as u32,
    }
}

pub fn g_u64(w: &World) -> u64 {
    (g_u32(w) as u64) << 32 | g_u32(w) as u64
}

pub fn g_bool(w: &World) -> bool {
    w.draw(2) == 1
}

/// A length field, near the sizes where its encoding grows
pub fn g_len(w: &World) -> u32 {
    if let Some(v) = w.hint(LENGTH_MAX as u64) {
        return v as u32;
    }
    match w.draw(6) {
        0 => w.draw(4) as u32,
        1 => w.range(60, 67) as u32,
        2 => w.range(0x3FFD, 0x4002) as u32,
        3 => w.range(0x3F_FFFD, 0x40_0002) as u32,
        4 => LENGTH_MAX - w.draw(3) as u32,
        _ => {
            let bits = w.range(1, 30);
            (w.draw(1 << bits)) as u32
        }
    }
}

/// Sizes of buffers and of their counters: payloads come near these now and then
const STEPS: [u64; 10] = [128, 256, 512, 1024, 2048, 4096, 8192, 0x4000, 0x8000, 0x1_0000];

pub fn g_size(w: &World, m: &Mix) -> usize {
    match w.draw(40) {
        0..=24 => w.draw(9) as usize,
        25..=34 => w.hint(m.big.min(300) as u64).unwrap_or_else(|| w.draw(40)) as usize,
        35..=38 => w.range(61, 67) as usize,
        _ => {
            if w.draw(6) == 5 {
                if let Some(v) = w.hint(m.big as u64) {
                    return v as usize;
                }
                let steps = STEPS.iter().filter(|s| **s <= m.big as u64).count() as u64;
                let s = STEPS[w.draw(steps) as usize];
                w.range(s - 3, s + 3) as usize
            } else {
                w.draw(301) as usize
            }
        }
    }
}

pub fn g_vi(w: &World, m: &Mix) -> VI {
    if !m.inexact || w.draw(3) < 2 {
        return VI { v: vi_value(w.draw(8) as u8, w.draw(32) as u8), ceil: m.inexact && w.chance(1, 4) };
    }
    VI {
        v: match w.draw(3) {
            0 => w.draw(2048) as u32,
            1 => {
                // around where the exponent changes
                let e = w.draw(8) as u32;
                ((31u32 << (2 * e)) + w.draw(7) as u32).saturating_sub(3).min(VI_MAX)
            }
            _ => w.hint(VI_MAX as u64).unwrap_or_else(|| w.draw(VI_MAX as u64 + 1)) as u32,
        },
        ceil: g_bool(w),
    }
}

pub fn g_addr(w: &World, m: &Mix) -> Addr {
    match w.draw(4) {
        0 => Addr::NoId,
        1 => Addr::NbId(g_vi(w, m)),
        2 => Addr::UId(g_u64(w)),
        _ => Addr::VId(g_u16(w)),
    }
}

pub fn g_addressee(w: &World, m: &Mix) -> Addressee {
    let nls = w.draw(8) as u8;
    Addressee {
        group: if WZ { w.draw(4) as u8 } else { 0 },
        use_vid: WZ && g_bool(w),
        addr: g_addr(w, m),
        nls,
        nls_state: if nls == 0 { [0; 5] } else { w.bytes(5).try_into().unwrap() },
        specifier: w.draw(16) as u8,
        mask: w.draw(16) as u8,
    }
}

pub fn g_hdr(w: &World) -> ChanHdr {
    ChanHdr { band: w.draw(5) as u8, class: w.draw(4) as u8, coding: w.draw(4) as u8 }
}

pub fn g_chan(w: &World) -> Chan {
    Chan { h: g_hdr(w), index: g_u16(w) }
}

pub fn g_d7status(w: &World, m: &Mix) -> D7Status {
    let flags = w.draw(16);
    D7Status {
        chan: g_chan(w),
        rx: g_u8(w),
        lb: g_u8(w),
        target: g_u8(w),
        nls: flags & 1 > 0,
        missed: flags & 2 > 0,
        retry: flags & 4 > 0,
        unicast: flags & 8 > 0,
        fifo: g_u8(w),
        seq: g_u8(w),
        timeout: g_vi(w, m),
        from: g_addressee(w, m),
    }
}

pub fn g_ifconf(w: &World, m: &Mix) -> IfConf {
    let base = |w: &World| LoraBase { adr: g_bool(w), ack: g_bool(w), port: g_u8(w), rate: g_u8(w) };
    match w.draw(8) {
        0 => IfConf::Host,
        1 => IfConf::Serial,
        2 => IfConf::Abp { base: base(w), nsk: w.bytes(16), ask: w.bytes(16), dev: g_u32(w), net: g_u32(w) },
        3 => IfConf::Otaa { base: base(w), dev: w.bytes(8), app: w.bytes(8), key: w.bytes(16) },
        4 => IfConf::Other(loop_id(w, &[0, 1, 2, 3, 0xD7])),
        _ => IfConf::D7(D7Conf {
            qos: Qos {
                stop: g_bool(w),
                record: g_bool(w),
                retry: w.draw(8) as u8,
                resp: w.pick(&[0, 1, 2, 4, 5, 6]),
            },
            dormant: g_vi(w, m),
            exec: if V == Variant::Subiot { VI::default() } else { g_vi(w, m) },
            to: g_addressee(w, m),
        }),
    }
}

/// An id that is not one of these
fn loop_id(w: &World, known: &[u8]) -> u8 {
    let id = w.draw(256) as u8;
    if known.contains(&id) {
        0x55
    } else {
        id
    }
}

pub fn g_indif(w: &World, m: &Mix) -> IndIf {
    match w.draw(5) {
        0 => IndIf::Host,
        1 => IndIf::Serial,
        2 => IndIf::Other(loop_id(w, &[0, 1, 0xD7])),
        _ => IndIf::D7(g_addressee(w, m)),
    }
}

fn g_name(w: &World, mix: &Mix, max: usize) -> Vec<u8> {
    let mut s = String::new();
    // longer than what there is room for
    let max = if mix.inexact && w.draw(12) == 1 { max + 1 + w.draw(4) as usize } else { max };
    let n = w.draw(max as u64 + 1) as usize;
    while s.len() < n {
        let c = match w.draw(8) {
            0 => w.pick(&['\u{7f}', 'é', '€', '\u{10348}', ' ', '\u{1}']),
            _ => (b'a' + w.draw(26) as u8) as char,
        };
        if s.len() + c.len_utf8() > max {
            break;
        }
        s.push(c);
    }
    s.into_bytes()
}

pub fn g_typed_file(w: &World, id: u8, m: &Mix) -> File {
    match id {
        0x00 => File::UId(g_u64(w)),
        0x01 => File::Factory(Factory {
            gain: g_u8(w) as i8,
            rates: std::array::from_fn(|_| g_u32(w)),
            small: w.bytes(11).try_into().unwrap(),
            lora_bw: g_u32(w),
            lora_sf: g_u8(w),
            gaussian: g_u8(w),
            paramp: g_u16(w),
        }),
        0x02 => File::Firmware { major: g_u8(w), minor: g_u8(w), name: g_name(w, m, 6), sha: g_name(w, m, 7) },
        0x05 => File::Eng {
            mode: w.draw(5) as u8,
            flags: g_u8(w),
            timeout: g_u8(w),
            chan: g_chan(w),
            eirp: g_u8(w) as i8,
        },
        0x06 => File::VId(g_u16(w)),
        0x09 => File::Phy {
            up: g_u32(w),
            rx: g_u32(w),
            tx: g_u32(w),
            duty: g_u16(w),
            list: {
                let n = match w.draw(30) {
                    0 => 255,
                    1 => w.range(15, 18),
                    2 => w.range(60, 70),
                    _ => w.draw(5),
                };
                (0..n)
                    .map(|_| {
                        let v = w.draw(1 << 20);
                        ((v % 5) as u8, ((v >> 3) & 1) as u8, ((v >> 4) & 0x7FF) as u16, (v >> 12) as u8)
                    })
                    .collect()
            },
        },
        0x0A => {
            let b = w.bytes(5);
            File::DllConf { ac: b[0], lq: b[1], nf: b[2], rx: b[3], tx: b[4] }
        }
        0x0B => File::DllStatus {
            level: g_u8(w),
            budget: g_u8(w),
            noise: g_u8(w),
            h: g_hdr(w),
            index: g_u16(w),
            ratio: g_u16(w),
            scans: g_u32(w),
            timeouts: g_u32(w),
        },
        0x0E => File::Key(w.bytes(16).try_into().unwrap()),
        _ => {
            // many numbers: one choice for the sub bands
            let b = w.bytes(56);
            File::Profile(
                id - 0x20,
                Profile {
                    h: g_hdr(w),
                    subs: std::array::from_fn(|_| (g_u8(w), g_vi(w, m))),
                    bands: std::array::from_fn(|i| {
                        let c = &b[7 * i..7 * i + 7];
                        (
                            u16::from_be_bytes([c[0], c[1]]),
                            u16::from_be_bytes([c[2], c[3]]),
                            c[4] as i8,
                            c[5],
                            c[6],
                        )
                    }),
                },
            )
        }
    }
}

pub fn g_typed_id(w: &World) -> u8 {
    match w.draw(3) {
        0 => 0x20 + w.draw(15) as u8,
        _ => w.pick(&TYPED),
    }
}

fn g_data(w: &World, m: &Mix) -> (Off, File) {
    match w.draw(5) {
        0 | 1 => {
            let id = g_untyped_id(w);
            let n = g_size(w, m);
            ((id, if g_bool(w) { 0 } else { g_len(w) }), File::Raw(g_untyped_bytes(w, id, n)))
        }
        2 | 3 => {
            let id = g_typed_id(w);
            ((id, 0), g_typed_file(w, id, m))
        }
        _ => {
            // part of a system file: its start, or something further on
            let id = g_typed_id(w);
            let n = g_size(w, m).min(80);
            let mut data = if g_bool(w) {
                let mut d = g_typed_file(w, id, m).enc();
                d.truncate(n);
                d
            } else {
                w.bytes(n)
            };
            if g_bool(w) {
                return ((id, g_len(w).max(1)), File::Raw(data));
            }
            while !matches!(File::dec_exact(id, &data), Ok(File::Raw(_))) {
                data.pop();
            }
            ((id, 0), File::Raw(data))
        }
    }
}

/// The id of a file that has no known layout
pub fn g_untyped_id(w: &World) -> u8 {
    let id = match w.draw(4) {
        0 => w.pick(&[0x40u8, 0x03, 0x04, 0x07, 0x08, 0x0C, 0x0D, 0x0F, 0x10, 0x13, 0x17, 0x18, 0x1A, 0x1F, 0x2F, 0x30]),
        // one that has a layout, but for a bit
        1 => g_typed_id(w) ^ (1 << w.draw(8)),
        _ => w.draw(256) as u8,
    };
    if is_typed(id) {
        0x41
    } else {
        id
    }
}

/// The content of a file that has no known layout. It may look as if it had one.
pub fn g_untyped_bytes(w: &World, id: u8, size: usize) -> Vec<u8> {
    if w.draw(4) > 0 {
        return w.bytes(size);
    }
    let like = [0x80, 0x40, 0x10, 8, 4, 2, 1].iter().map(|b| id ^ b).find(|id| is_typed(*id));
    let like = like.filter(|_| w.draw(4) > 0).unwrap_or_else(|| g_typed_id(w));
    let mut data = g_typed_file(w, like, &Mix::WIRE).enc();
    match w.draw(3) {
        0 => data.fill(0xFF),
        1 => data = w.bytes(data.len()),
        _ => {}
    }
    data
}

pub fn g_filehdr(w: &World) -> FileHdr {
    FileHdr {
        perm: g_u8(w),
        enabled: g_bool(w),
        cond: w.draw(4) as u8,
        class: w.draw(4) as u8,
        alp: g_u8(w),
        itf: g_u8(w),
        size: g_u32(w),
        alloc: g_u32(w),
    }
}

fn g_off(w: &World) -> Off {
    (g_u8(w), g_len(w))
}

pub fn g_query(w: &World, m: &Mix) -> Query {
    let signed = g_bool(w);
    let cmp = w.draw(6) as u8;
    let kind = w.draw(6);
    if kind == 0 {
        return Query::NonVoid { len: g_len(w), file: g_off(w) };
    }
    let n = g_size(w, m);
    let mut masked = g_bool(w) && n > 0;
    let mask = if masked { w.bytes(n) } else { vec![] };
    if m.wire_only && n == 0 {
        // a mask of no bytes
        masked = g_bool(w);
    }
    match kind {
        1 => Query::Zero {
            masked,
            signed,
            cmp,
            len: if masked {
                n as u32
            } else if m.wire_only {
                g_len(w)
            } else {
                0
            },
            mask,
            file: g_off(w),
        },
        2 => Query::Value { masked, signed, cmp, mask, value: w.bytes(n), file: g_off(w) },
        3 => Query::Other {
            masked,
            signed,
            cmp,
            len: if masked { n as u32 } else { g_len(w) },
            mask,
            file1: g_off(w),
            file2: g_off(w),
        },
        4 => {
            let (mask, masked) =
                if m.wire_only && g_bool(w) { (w.bytes(n), g_bool(w)) } else { (mask, masked) };
            Query::Bitmap { masked, signed, cmp: cmp % 2, start: g_len(w), stop: g_len(w), mask, file: g_off(w) }
        }
        _ => Query::Token { masked, errors: w.draw(8) as u8, mask, value: w.bytes(n), file: g_off(w) },
    }
}

pub fn g_act(w: &World, m: &Mix) -> Act {
    let h = |w: &World| Hd { group: g_bool(w), resp: g_bool(w) };
    let kinds = if WZ { 25 } else { 22 };
    match w.draw(kinds) {
        0 => Act::Nop(h(w)),
        1 | 2 => Act::ReadData(h(w), g_off(w), g_len(w)),
        3 => Act::OnFile(w.pick(&ON_FILE), h(w), g_u8(w)),
        4..=6 => {
            let op = w.pick(&DATA);
            let (off, file) = g_data(w, m);
            Act::Data(op, h(w), off, file)
        }
        7 => Act::Props(w.pick(&PROPS), h(w), g_u8(w), g_filehdr(w)),
        8..=10 => Act::Query(w.pick(&QUERIES), h(w), g_query(w, m)),
        11 => Act::Permission(h(w), w.draw(2) as u8, w.bytes(8).try_into().unwrap()),
        12 => Act::Copy(h(w), g_u8(w), g_u8(w)),
        13 => Act::StatusAction(g_u8(w), g_u8(w)),
        14 => Act::StatusIf(match w.draw(6) {
            0 => IfStatus::Host,
            1 => IfStatus::Serial,
            2 if m.unknown_status => {
                let n = g_size(w, m);
                IfStatus::Other(loop_id(w, &[0, 1, 2, 3, 0xD7]), w.bytes(n))
            }
            _ => IfStatus::D7(g_d7status(w, m)),
        }),
        15 => Act::ResponseTag { eop: g_bool(w), err: g_bool(w), id: g_u8(w) },
        16 => Act::Chunk(w.draw(4) as u8),
        17 => Act::Logic(w.draw(4) as u8),
        18 => Act::Forward(g_bool(w), g_ifconf(w, m)),
        19 => Act::Indirect(g_bool(w), if g_bool(w) { Some(g_indif(w, m)) } else { None }),
        20 => Act::RequestTag { eop: g_bool(w), id: g_u8(w) },
        21 => Act::Extension(h(w)),
        22 => Act::StatusFinalD7(w.pick(&[
            0, 0xEA, 0xEB, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF2, 0xF3, 0xF4, 0xF5, 0xF6, 0xF7, 0xF8, 0xF9, 0xFA,
            0xFB, 0xFC, 0xFD, 0xFE, 0xFF,
        ])),
        23 => {
            let n = g_size(w, m);
            Act::StatusFinalOther(loop_id(w, &[0xD7]), w.bytes(n))
        }
        _ => {
            if !m.wire_only {
                // cannot be built, only received
                return Act::Nop(h(w));
            }
            if g_bool(w) {
                let n = g_size(w, m);
                return Act::TxOther(loop_id(w, &[0xD7]), w.bytes(n));
            }
            Act::TxD7(TxStatus {
                chan: g_chan(w),
                target: g_u8(w) as i8,
                error: w.pick(&[0, 0xEA, 0xF5, 0xFF]),
                lts: g_u32(w),
                to: g_addressee(w, m),
            })
        }
    }
}

/// A command. An indirect forward ends it, unless the mix says otherwise.
pub fn g_cmd(w: &World, m: &Mix) -> Vec<Act> {
    let n = match w.draw(10) {
        0 => 0,
        1..=4 => 1,
        5..=8 => w.range(2, 5),
        _ => match w.draw(40) {
            37 => w.hint(80).unwrap_or(3),
            38 => w.range(15, 70),
            39 => w.range(250, 260),
            _ => w.range(2, 14),
        },
    };
    let mut acts: Vec<Act> = vec![];
    let echo = n > 1 && w.draw(12) == 11;
    for _ in 0..n {
        if echo && !acts.is_empty() && g_bool(w) {
            // the same once more
            acts.push(acts[acts.len() - 1].clone());
            continue;
        }
        // very long ones have short actions
        acts.push(match n {
            0..=80 => g_act(w, m),
            _ => match w.draw(3) {
                0 => Act::Nop(Hd::default()),
                1 => Act::RequestTag { eop: g_bool(w), id: g_u8(w) },
                _ => Act::StatusAction(g_u8(w), g_u8(w)),
            },
        });
        if !m.after_indirect && matches!(acts.last(), Some(Act::Indirect(..))) {
            break;
        }
    }
    acts
}

pub fn g_cmd1(w: &World, m: &Mix) -> Vec<Act> {
    let acts = g_cmd(w, m);
    if acts.is_empty() {
        vec![g_act(w, m)]
    } else {
        acts
    }
}

/// What a party on the other side makes of it. None if something in it cannot be received.
pub fn norm_cmd(acts: &[Act]) -> Option<Vec<Act>> {
    acts.iter().map(|a| a.norm().ok()).collect()
}
