//! Everything of the library that can be read from and written to bytes, behind one interface.

use crate::bridge;
use crate::gen::*;
use crate::model::{self as m, BitW};
use crate::rt::{guard, Res, World};
use dash7::app::action::Action;
use dash7::app::command::Command;
use dash7::app::interface::{Dash7InterfaceConfiguration, IndirectInterface, InterfaceConfiguration};
use dash7::app::operation::{FileOffset, InterfaceStatusOperation, Length, StatusCode};
use dash7::app::query::Query;
use dash7::data::FileHeader;
use dash7::file::{self, File, FileId, SystemFile};
use dash7::link::{AccessClass, BackgroundFrame, ForegroundFrame};
use dash7::network::{Address, AddressType, Addressee};
use dash7::physical::{Channel, ChannelHeader, SubBand};
use dash7::session::{Dash7InterfaceStatus, InterfaceStatus, InterfaceType, QoS};
use dash7::types::VarInt;
use deku::prelude::*;
use deku::reader::Reader;
use deku::writer::Writer;
use std::any::Any;
use std::fmt::Debug;
use std::io::{Cursor, Read, Seek, Write};

pub trait RS: Read + Seek {}
impl<T: Read + Seek> RS for T {}
pub trait WS: Write + Seek {}
impl<T: Write + Seek> WS for T {}

pub type L<T> = Result<T, DekuError>;

/// A value of the library
pub trait Obj: Send {
    fn dbg(&self) -> String;
    fn same(&self, other: &dyn Obj) -> bool;
    fn write(&self, out: &mut dyn WS) -> L<()>;
    /// Write it behind whatever the writer has written before
    fn write_with(&self, out: &mut Writer<&mut dyn WS>) -> L<()>;
    fn any(&self) -> &dyn Any;
}

struct Val<T, C> {
    v: T,
    ctx: C,
}

impl<T, C> Obj for Val<T, C>
where
    T: Debug + PartialEq + DekuWriter<C> + Send + 'static,
    C: Clone + Send + 'static,
{
    fn dbg(&self) -> String {
        format!("{:?}", self.v)
    }
    fn same(&self, other: &dyn Obj) -> bool {
        if let Some(t) = other.any().downcast_ref::<Shown>() {
            return t.0 == unnamed(&self.dbg());
        }
        match other.any().downcast_ref::<T>() {
            Some(o) => self.v == *o,
            None => false,
        }
    }
    fn write(&self, out: &mut dyn WS) -> L<()> {
        let mut out = out;
        let mut w = Writer::new(&mut out);
        self.v.to_writer(&mut w, self.ctx.clone())?;
        w.finalize()
    }
    fn write_with(&self, out: &mut Writer<&mut dyn WS>) -> L<()> {
        self.v.to_writer(out, self.ctx.clone())
    }
    fn any(&self) -> &dyn Any {
        &self.v
    }
}

/// The content of a value whose fields are private: all that a user sees of it is how it is shown
pub struct Shown(String);

impl Obj for Shown {
    fn dbg(&self) -> String {
        self.0.clone()
    }
    fn same(&self, other: &dyn Obj) -> bool {
        self.0 == unnamed(&other.dbg())
    }
    fn write(&self, _: &mut dyn WS) -> L<()> {
        unreachable!("only to compare with")
    }
    fn write_with(&self, _: &mut Writer<&mut dyn WS>) -> L<()> {
        unreachable!("only to compare with")
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

/// Without the names of fields, which say nothing about the content
fn unnamed(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut word = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
            continue;
        }
        if c == ':' && it.peek() == Some(&' ') {
            it.next();
            word.clear();
            continue;
        }
        out.push_str(&word);
        word.clear();
        out.push(c);
    }
    out + &word
}

/// How to read one kind of value
pub trait Codec: Send + Sync {
    fn name(&self) -> &'static str;
    /// Read one at the start of the stream. Also gives the number of bits it took.
    fn read_raw(&self, input: &mut dyn RS) -> L<(usize, Box<dyn Obj>)>;
    /// Read some in a row through one reader
    fn read_many(&self, input: &mut dyn RS, n: usize) -> (Vec<Box<dyn Obj>>, Option<DekuError>);
    /// Read one from wherever the reader is
    fn read_with(&self, r: &mut Reader<&mut dyn RS>) -> L<Box<dyn Obj>>;
}

struct Cod<T, C> {
    name: &'static str,
    ctx: C,
    t: std::marker::PhantomData<fn() -> T>,
}

impl<T, C> Codec for Cod<T, C>
where
    T: Debug + PartialEq + for<'a> DekuReader<'a, C> + DekuWriter<C> + Send + 'static,
    C: Clone + Send + Sync + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn read_raw(&self, input: &mut dyn RS) -> L<(usize, Box<dyn Obj>)> {
        let mut input = input;
        let mut r = Reader::new(&mut input);
        let v = T::from_reader_with_ctx(&mut r, self.ctx.clone())?;
        Ok((r.bits_read, Box::new(Val { v, ctx: self.ctx.clone() })))
    }
    fn read_many(&self, input: &mut dyn RS, n: usize) -> (Vec<Box<dyn Obj>>, Option<DekuError>) {
        let mut input = input;
        let mut r = Reader::new(&mut input);
        let mut out: Vec<Box<dyn Obj>> = vec![];
        for _ in 0..n {
            match T::from_reader_with_ctx(&mut r, self.ctx.clone()) {
                Ok(v) => out.push(Box::new(Val { v, ctx: self.ctx.clone() })),
                Err(e) => return (out, Some(e)),
            }
        }
        (out, None)
    }
    fn read_with(&self, r: &mut Reader<&mut dyn RS>) -> L<Box<dyn Obj>> {
        let v = T::from_reader_with_ctx(r, self.ctx.clone())?;
        Ok(Box::new(Val { v, ctx: self.ctx.clone() }))
    }
}

pub type Kind = std::sync::Arc<dyn Codec>;

fn kind<T, C>(name: &'static str, ctx: C) -> Kind
where
    T: Debug + PartialEq + for<'a> DekuReader<'a, C> + DekuWriter<C> + Send + 'static,
    C: Clone + Send + Sync + 'static,
{
    std::sync::Arc::new(Cod::<T, C> { name, ctx, t: std::marker::PhantomData })
}

fn obj<T, C>(v: T, ctx: C) -> Option<Box<dyn Obj>>
where
    T: Debug + PartialEq + DekuWriter<C> + Send + 'static,
    C: Clone + Send + 'static,
{
    Some(Box::new(Val { v, ctx }))
}

impl<'x> dyn Codec + 'x {
    pub fn read(&self, input: &mut dyn RS) -> Res<L<(usize, Box<dyn Obj>)>> {
        guard(self.name(), || self.read_raw(input))
    }
    pub fn read_bytes(&self, data: &[u8]) -> Res<L<(usize, Box<dyn Obj>)>> {
        let mut c = Cursor::new(data);
        self.read(&mut c)
    }
}

impl<'x> dyn Obj + 'x {
    pub fn write_to(&self, out: &mut dyn WS) -> Res<L<()>> {
        guard("to_writer", || self.write(out))
    }
    pub fn to_bytes(&self) -> Res<L<Vec<u8>>> {
        let mut c = Cursor::new(Vec::new());
        Ok(self.write_to(&mut c)?.map(|_| c.into_inner()))
    }
}

/// A value on the wire: what the reference encodes it to, and how the library reads it
pub struct Item {
    pub kind: Kind,
    /// As the reference encodes it
    pub bytes: Vec<u8>,
    /// What a user of the library would build to send it
    pub sent: Option<Box<dyn Obj>>,
    /// What a receiver has to get
    pub expect: Option<Box<dyn Obj>>,
    /// Where a shorter version of it ends (an action of a command)
    pub cuts: Vec<usize>,
    /// Takes all there is: reads until the end of the data
    pub greedy: bool,
    /// An unknown status in it, of which the library forgets the id (finding D4)
    pub forgets_id: bool,
}

fn enc(f: impl FnOnce(&mut BitW)) -> Vec<u8> {
    let mut w = BitW::default();
    f(&mut w);
    w.done()
}

pub fn has_unknown_status(acts: &[m::Act]) -> bool {
    acts.iter().any(|a| matches!(a, m::Act::StatusIf(m::IfStatus::Other(..))))
}

pub fn item_cmd(acts: &[m::Act]) -> Item {
    let norm = norm_cmd(acts);
    let mut cuts = vec![0];
    cuts.extend(m::bounds(acts));
    cuts.pop();
    Item {
        kind: kind::<Command, u32>("Command", 0),
        bytes: m::enc_cmd(acts),
        sent: bridge::cmd(acts).and_then(|c| obj(c, 0u32)),
        expect: norm.and_then(|n| bridge::cmd(&n)).and_then(|c| obj(c, 0u32)),
        cuts,
        greedy: !matches!(acts.last(), Some(m::Act::Indirect(..))),
        forgets_id: has_unknown_status(acts),
    }
}

pub fn item_act(a: &m::Act) -> Item {
    Item {
        kind: kind::<Action, ()>("Action", ()),
        bytes: a.enc(),
        sent: bridge::act(a).and_then(|a| obj(a, ())),
        expect: a.norm().ok().and_then(|a| bridge::act(&a)).and_then(|a| obj(a, ())),
        cuts: vec![],
        greedy: false,
        forgets_id: has_unknown_status(std::slice::from_ref(a)),
    }
}

fn item(kind: Kind, bytes: Vec<u8>, sent: Option<Box<dyn Obj>>, expect: Option<Box<dyn Obj>>) -> Item {
    Item { kind, bytes, sent, expect, cuts: vec![], greedy: false, forgets_id: false }
}

pub fn file_id(id: u8) -> FileId {
    FileId::try_from(id).expect("any byte is a file id")
}

/// The ids of the system files that have one of their own
pub const NAMED_FILES: [u8; 39] = [
    0, 1, 2, 3, 4, 5, 6, 8, 9, 0x0A, 0x0B, 0x0C, 0x0D, 0x0E, 0x0F, 0x10, 0x11, 0x12, 0x13, 0x17, 0x18, 0x19, 0x1B, 0x1C, 0x20,
    0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2A, 0x2B, 0x2C, 0x2D, 0x2E,
];

/// The id that the content of a file has by its type
pub fn own_id(f: &File) -> Option<u8> {
    fn id<T: SystemFile>(_: &T) -> u8 {
        T::ID
    }
    use File::*;
    Some(match f {
        FirmwareVersion(p) => id(p),
        AccessProfile00(p) => id(p),
        AccessProfile01(p) => id(p),
        AccessProfile02(p) => id(p),
        AccessProfile03(p) => id(p),
        AccessProfile04(p) => id(p),
        AccessProfile05(p) => id(p),
        AccessProfile06(p) => id(p),
        AccessProfile07(p) => id(p),
        AccessProfile08(p) => id(p),
        AccessProfile09(p) => id(p),
        AccessProfile10(p) => id(p),
        AccessProfile11(p) => id(p),
        AccessProfile12(p) => id(p),
        AccessProfile13(p) => id(p),
        AccessProfile14(p) => id(p),
        _ => return None,
    })
}

/// The number of an access profile, by the file that it is in and by what it says itself
pub fn profile(f: &File) -> Option<(u8, u8)> {
    use File::*;
    Some(match f {
        AccessProfile00(p) => (0, p.specifier()),
        AccessProfile01(p) => (1, p.specifier()),
        AccessProfile02(p) => (2, p.specifier()),
        AccessProfile03(p) => (3, p.specifier()),
        AccessProfile04(p) => (4, p.specifier()),
        AccessProfile05(p) => (5, p.specifier()),
        AccessProfile06(p) => (6, p.specifier()),
        AccessProfile07(p) => (7, p.specifier()),
        AccessProfile08(p) => (8, p.specifier()),
        AccessProfile09(p) => (9, p.specifier()),
        AccessProfile10(p) => (10, p.specifier()),
        AccessProfile11(p) => (11, p.specifier()),
        AccessProfile12(p) => (12, p.specifier()),
        AccessProfile13(p) => (13, p.specifier()),
        AccessProfile14(p) => (14, p.specifier()),
        _ => return None,
    })
}

pub fn item_file(id: u8, f: &m::File) -> Item {
    let bytes = f.enc();
    let ctx = (file_id(id), bytes.len() as u32);
    let mut r = m::BitR::new(&bytes);
    let back = if m::is_typed(id) {
        m::File::dec_typed(&mut r, id).ok()
    } else {
        Some(m::File::Raw(bytes.clone()))
    };
    item(
        kind::<File, (FileId, u32)>("File", ctx.clone()),
        bytes.clone(),
        obj(bridge::file(f), ctx.clone()),
        back.and_then(|b| obj(bridge::file(&b), ctx)),
    )
}

/// A frame of the foreground network protocol, and how it is shown. The wizzilab variant has no layout of it to rely on.
pub fn fg_frame(w: &World) -> (Vec<u8>, Option<String>) {
    let mix = Mix { after_indirect: false, ..Mix::WIRE };
    let mut acts = g_cmd(w, &mix);
    acts.retain(|a| !matches!(a, m::Act::StatusIf(m::IfStatus::Other(..))) && a.norm().is_ok());
    let cmd = m::enc_cmd(&acts);
    let target = g_addr(w, &mix);
    let (subnet, eirp) = (g_u8(w), w.draw(64));
    let (no_access, hopping) = (g_bool(w), g_bool(w));
    let origin = g_addr(w, &mix);
    let nls = w.draw(8);
    let hop = w.draw(8);
    let ac = g_u8(w);
    let ctl: Vec<bool> = (0..7).map(|_| g_bool(w)).collect();
    let tail = w.bytes(16);
    let crc = w.bytes(2);
    let vis: Vec<m::VI> = (0..3).map(|_| g_vi(w, &mix)).collect();
    let body = |w: &mut BitW| {
        w.u8(subnet);
        w.bits(target.kind() as u64, 2);
        w.bits(eirp, 6);
        target.enc(w);
        w.flag(no_access);
        w.flag(hopping);
        w.bits(origin.kind() as u64, 2);
        w.bits(0, 1);
        w.bits(nls, 4);
        if hopping {
            w.bits(0, 1);
            w.bits(hop & 1, 1);
            w.bits(hop >> 1, 2);
            w.bits(0, 4);
        }
        w.u8(ac);
        origin.enc(w);
        ctl.iter().for_each(|b| w.flag(*b));
        w.u8(tail[0]);
        w.u8(tail[1]);
        // dialog start, listen, exec, ack, not void, record, agc
        if ctl[6] {
            w.u8(tail[2]);
        }
        if ctl[1] {
            vis[0].enc(w);
        }
        if ctl[2] {
            vis[1].enc(w);
        }
        if ctl[3] && ctl[0] {
            vis[2].enc(w);
        }
        if ctl[4] {
            w.u8(tail[3]);
            w.u8(tail[4]);
        }
        w.raw(&cmd);
    };
    let n = enc(body).len() as u32;
    // the length counts itself, but not the checksum
    let len = if n + 1 <= 63 { n + 1 } else if n + 2 <= 0x3FFF { n + 2 } else { n + 3 };
    let bytes = enc(|w| {
        m::enc_len(w, len);
        body(w);
        w.raw(&crc);
    });
    let kinds = ["NbId", "NoId", "UId", "VId"];
    let methods = ["None", "AesCtr", "AesCbcMac128", "AesCbcMac64", "AesCbcMac32", "AesCcm128", "AesCcm64", "AesCcm32"];
    let addr = |a: &m::Addr| match a {
        m::Addr::NbId(v) => bridge::address(&m::Addr::NbId(v.norm())),
        a => bridge::address(a),
    };
    let time = |n: usize, there: bool| there.then(|| bridge::vi(&vis[n].norm()));
    let hops = hopping.then(|| format!("HoppingControl {{ {}, {} }}", hop & 1 == 1, kinds[hop as usize >> 1]));
    let Some(command) = norm_cmd(&acts).and_then(|n| bridge::cmd(&n)) else { return (bytes, None) };
    let inner = dash7::transport::Frame {
        control: dash7::transport::Control {
            is_dialog_start: ctl[0],
            has_listen_timeout: ctl[1],
            has_execution_delay_timeout: ctl[2],
            is_ack_requested: ctl[3],
            is_ack_not_void: ctl[4],
            is_ack_record_requested: ctl[5],
            has_agc: ctl[6],
        },
        dialog_id: tail[0],
        transaction_id: tail[1],
        target_rx_level_i: ctl[6].then_some(tail[2]),
        listen_timeout: time(0, ctl[1]),
        execution_delay_timeout: time(1, ctl[2]),
        congestion_timeout: time(2, ctl[3] && ctl[0]),
        ack_template: ctl[4].then(|| dash7::transport::AckTemplate { transaction_id_start: tail[3], transaction_id_stop: tail[4] }),
        command,
    };
    let shown = format!(
        "ForegroundFrame {{ {:?}, {subnet}, ForegroundFrameControl {{ {}, {eirp} }}, {:?}, Frame {{ Control {{ {no_access}, {hopping}, {}, {} \
         }}, {}, {:?}, {:?}, {inner:?} }}, {} }}",
        Length::from(len),
        kinds[target.kind() as usize],
        addr(&target),
        kinds[origin.kind() as usize],
        methods[nls as usize],
        hops.map_or("None".into(), |h| format!("Some({h})")),
        AccessClass::new(ac >> 4, ac & 15),
        addr(&origin),
        u16::from_ne_bytes([crc[0], crc[1]]),
    );
    (bytes, Some(unnamed(&shown)))
}

pub fn bg_frame(w: &World) -> (Vec<u8>, Option<String>) {
    let (subnet, control, d) = (g_u8(w), g_u8(w), w.bytes(4));
    let kinds = ["NbId", "NoId", "UId", "VId"];
    let bytes = enc(|b| {
        b.u8(subnet);
        b.u8(control);
        b.raw(&d);
    });
    let shown = format!(
        "BackgroundFrame {{ {subnet}, BackgroundFrameControl {{ {}, {} }}, {}, {} }}",
        kinds[control as usize >> 6],
        control & 63,
        u16::from_ne_bytes([d[0], d[1]]),
        u16::from_ne_bytes([d[2], d[3]])
    );
    (bytes, Some(shown))
}

fn item_shown(kind: Kind, (bytes, shown): (Vec<u8>, Option<String>)) -> Item {
    item(kind, bytes, None, shown.map(|s| Box::new(Shown(s)) as Box<dyn Obj>))
}

pub const N_KINDS: u64 = 23;

/// A value of some kind. Kind 0 and 1 (commands and actions) come up as often as all others together.
pub fn g_item(w: &World, mix: &Mix) -> Item {
    let k = w.draw(2 * N_KINDS);
    let k = if k >= N_KINDS { k % 2 } else { k };
    g_item_of(w, mix, k)
}

pub fn g_item_of(w: &World, mix: &Mix, k: u64) -> Item {
    match k {
        0 => item_cmd(&g_cmd1(w, mix)),
        1 => item_act(&g_act(w, mix)),
        2 | 3 => {
            let id = g_typed_id(w);
            item_file(id, &g_typed_file(w, id, mix))
        }
        4 => {
            let n = g_size(w, mix);
            let id = g_untyped_id(w);
            item_file(id, &m::File::Raw(g_untyped_bytes(w, id, n)))
        }
        5 | 6 => {
            let q = g_query(w, mix);
            item(
                kind::<Query, ()>("Query", ()),
                enc(|b| q.enc(b)),
                bridge::query(&q).and_then(|q| obj(q, ())),
                bridge::query(&q).and_then(|q| obj(q, ())),
            )
        }
        7 => {
            let a = g_addressee(w, mix);
            item(
                kind::<Addressee, ()>("Addressee", ()),
                enc(|b| a.enc(b)),
                obj(bridge::addressee(&a), ()),
                obj(bridge::addressee(&a.norm()), ()),
            )
        }
        8 => {
            let c = g_ifconf(w, mix);
            item(
                kind::<InterfaceConfiguration, ()>("InterfaceConfiguration", ()),
                enc(|b| c.enc(b)),
                obj(bridge::ifconf(&c), ()),
                obj(bridge::ifconf(&c.norm()), ()),
            )
        }
        9 => {
            let s = g_d7status(w, mix);
            item(
                kind::<Dash7InterfaceStatus, ()>("Dash7InterfaceStatus", ()),
                enc(|b| s.enc(b)),
                obj(bridge::d7status(&s), ()),
                obj(bridge::d7status(&s.norm()), ()),
            )
        }
        10 => {
            let s = g_d7status(w, mix);
            let bytes = enc(|b| s.enc(b));
            let ctx = (InterfaceType::Dash7, bytes.len() as u32);
            item(
                kind::<InterfaceStatus, (InterfaceType, u32)>("InterfaceStatus", ctx),
                bytes,
                obj(InterfaceStatus::Dash7(bridge::d7status(&s)), ctx),
                obj(InterfaceStatus::Dash7(bridge::d7status(&s.norm())), ctx),
            )
        }
        11 => {
            let v = g_len(w);
            item(
                kind::<Length, ()>("Length", ()),
                enc(|b| m::enc_len(b, v)),
                obj(Length::from(v), ()),
                obj(Length::from(v), ()),
            )
        }
        12 => {
            let (id, off) = (g_u8(w), g_len(w));
            let v = || FileOffset { file_id: id, offset: off.into() };
            item(
                kind::<FileOffset, ()>("FileOffset", ()),
                enc(|b| {
                    b.u8(id);
                    m::enc_len(b, off)
                }),
                obj(v(), ()),
                obj(v(), ()),
            )
        }
        13 => {
            let v = g_vi(w, mix);
            item(
                kind::<VarInt, ()>("VarInt", ()),
                enc(|b| v.enc(b)),
                obj(bridge::vi(&v), ()),
                obj(bridge::vi(&v.norm()), ()),
            )
        }
        14 => {
            let c = g_chan(w);
            if g_bool(w) {
                item(
                    kind::<Channel, ()>("Channel", ()),
                    enc(|b| c.enc(b)),
                    obj(bridge::chan(&c), ()),
                    obj(bridge::chan(&c), ()),
                )
            } else {
                item(
                    kind::<ChannelHeader, ()>("ChannelHeader", ()),
                    enc(|b| c.h.enc(b)),
                    obj(bridge::chan_hdr(&c.h), ()),
                    obj(bridge::chan_hdr(&c.h), ()),
                )
            }
        }
        15 => {
            let h = g_filehdr(w);
            item(
                kind::<FileHeader, ()>("FileHeader", ()),
                enc(|b| h.enc(b)),
                obj(bridge::filehdr(&h), ()),
                obj(bridge::filehdr(&h), ()),
            )
        }
        16 => {
            let a = g_addr(w, mix);
            let ctx = match a.kind() {
                0 => AddressType::NbId,
                1 => AddressType::NoId,
                2 => AddressType::UId,
                _ => AddressType::VId,
            };
            item(
                kind::<Address, AddressType>("Address", ctx),
                enc(|b| a.enc(b)),
                obj(bridge::address(&a), ctx),
                obj(bridge::address(&a.norm()), ctx),
            )
        }
        17 => {
            let c = g_indif(w, mix);
            item(kind::<IndirectInterface, ()>("IndirectInterface", ()), enc(|b| c.enc(b)), None, None)
        }
        18 => {
            let id = 0x20;
            let f = g_typed_file(w, id, &Mix { inexact: false, ..*mix });
            let v = || match bridge::file(&f) {
                File::AccessProfile00(p) => p,
                _ => unreachable!(),
            };
            item(
                kind::<file::AccessProfile<0>, ()>("AccessProfile", ()),
                f.enc(),
                obj(v(), ()),
                obj(v(), ()),
            )
        }
        19 => item_shown(kind::<BackgroundFrame, ()>("BackgroundFrame", ()), bg_frame(w)),
        20 if !m::WZ => item_shown(kind::<ForegroundFrame, ()>("ForegroundFrame", ()), fg_frame(w)),
        21 => item_code(w),
        _ => {
            let s = match w.draw(3) {
                0 => m::IfStatus::Host,
                1 => m::IfStatus::Serial,
                _ => m::IfStatus::D7(g_d7status(w, mix)),
            };
            let bytes = m::Act::StatusIf(s.clone()).enc()[1..].to_vec();
            let norm = match &s {
                m::IfStatus::D7(s) => m::IfStatus::D7(s.norm()),
                s => s.clone(),
            };
            let v = |s: &m::IfStatus| -> InterfaceStatusOperation { bridge::ifstatus(s).into() };
            item(
                kind::<InterfaceStatusOperation, ()>("InterfaceStatusOperation", ()),
                bytes,
                obj(v(&s), ()),
                obj(v(&norm), ()),
            )
        }
    }
}

/// What has a name, by its number
fn item_code(w: &World) -> Item {
    fn plain<T>(name: &'static str, code: u8, v: T) -> Item
    where
        T: for<'a> DekuReader<'a, ()> + DekuWriter<()> + Debug + PartialEq + Clone + Send + 'static,
    {
        item(kind::<T, ()>(name, ()), vec![code], obj(v.clone(), ()), obj(v, ()))
    }
    match w.draw(3) {
        0 => {
            use InterfaceType as T;
            let all = [(0, T::Host), (1, T::Serial), (2, T::LoRaWanABP), (3, T::LoRaWanOTAA), (0xD7, T::Dash7)];
            let (code, v) = w.pick(&all);
            plain("InterfaceType", code, v)
        }
        1 => {
            use StatusCode as C;
            let all = [
                (0x00, C::OK),
                (0x01, C::RECEIVED),
                (0x02, C::ITF_FULL),
                (0xFF, C::FILE_ID_MISSING),
                (0xFE, C::CREATE_FILE_ID_ALREADY_EXIST),
                (0xFD, C::FILE_IS_NOT_RESTORABLE),
                (0xFC, C::INSUFFICIENT_PERMISSION),
                (0xFB, C::CREATE_FILE_LENGTH_OVERFLOW),
                (0xFA, C::CREATE_FILE_ALLOCATION_OVERFLOW),
                (0xF9, C::WRITE_OFFSET_OVERFLOW),
                (0xF8, C::WRITE_DATA_OVERFLOW),
                (0xF7, C::WRITE_STORAGE_UNAVAILABLE),
                (0xF6, C::UNKNOWN_OPERATION),
                (0xF5, C::OPERATION_INCOMPLETE),
                (0xF4, C::OPERATION_WRONG_FORMAT),
                (0x80, C::UNKNOWN_ERROR),
            ];
            let (code, v) = w.pick(&all);
            plain("StatusCode", code, v)
        }
        _ => {
            use FileId as F;
            let all = [
                (0x00, F::UId),
                (0x01, F::FactorySettings),
                (0x02, F::FirmwareVersion),
                (0x03, F::DeviceCapacity),
                (0x04, F::DeviceStatus),
                (0x05, F::EngineeringMode),
                (0x06, F::VId),
                (0x08, F::PhyConfig),
                (0x09, F::PhyStatus),
                (0x0A, F::DllConfig),
                (0x0B, F::DllStatus),
                (0x0C, F::NetworkRouting),
                (0x0D, F::NetworkSecurity),
                (0x0E, F::NetworkSecurityKey),
                (0x0F, F::NetworkSsr),
                (0x10, F::NetworkStatus),
                (0x11, F::TrlStatus),
                (0x12, F::SelConfig),
                (0x13, F::FofStatus),
                (0x17, F::LocationData),
                (0x18, F::RootKey),
                (0x19, F::UserKey),
                (0x1B, F::SensorDescription),
                (0x1C, F::Rtc),
                (0x20, F::AccessProfile00),
                (0x21, F::AccessProfile01),
                (0x22, F::AccessProfile02),
                (0x23, F::AccessProfile03),
                (0x24, F::AccessProfile04),
                (0x25, F::AccessProfile05),
                (0x26, F::AccessProfile06),
                (0x27, F::AccessProfile07),
                (0x28, F::AccessProfile08),
                (0x29, F::AccessProfile09),
                (0x2A, F::AccessProfile10),
                (0x2B, F::AccessProfile11),
                (0x2C, F::AccessProfile12),
                (0x2D, F::AccessProfile13),
                (0x2E, F::AccessProfile14),
            ];
            let (code, v) = w.pick(&all);
            plain("FileId", code, v)
        }
    }
}

/// All that can be read, for data of any kind
pub fn all_codecs(w: &World, len: usize) -> Vec<Kind> {
    let id = w.draw(256) as u8;
    let len = match w.draw(4) {
        0 => w.pick(&[0u32, 1, 0xFF, 0x3FFF_FFFF, 0x7FFF_FFFF, 0xFFFF_FFFF]),
        1 => len as u32 + 1,
        _ => len as u32,
    };
    let itf = w.pick(&[
        InterfaceType::Host,
        InterfaceType::Serial,
        InterfaceType::LoRaWanABP,
        InterfaceType::LoRaWanOTAA,
        InterfaceType::Dash7,
        InterfaceType::Unknown,
    ]);
    let at = w.pick(&[AddressType::NbId, AddressType::NoId, AddressType::UId, AddressType::VId]);
    vec![
        kind::<Command, u32>("Command", 0),
        kind::<Command, u32>("Command", len),
        kind::<Action, ()>("Action", ()),
        kind::<File, (FileId, u32)>("File", (file_id(id), len)),
        kind::<File, (FileId, u32)>("File", (file_id(g_typed_id(w)), len)),
        kind::<FileId, ()>("FileId", ()),
        kind::<file::PhyStatus, ()>("PhyStatus", ()),
        kind::<file::DllStatus, ()>("DllStatus", ()),
        kind::<file::DllConfig, ()>("DllConfig", ()),
        kind::<file::FirmwareVersion, ()>("FirmwareVersion", ()),
        kind::<file::FactorySettings, ()>("FactorySettings", ()),
        kind::<file::EngineeringMode, ()>("EngineeringMode", ()),
        kind::<file::SecurityKey, ()>("SecurityKey", ()),
        kind::<file::AccessProfile<3>, ()>("AccessProfile", ()),
        kind::<Query, ()>("Query", ()),
        kind::<Addressee, ()>("Addressee", ()),
        kind::<Address, AddressType>("Address", at),
        kind::<InterfaceConfiguration, ()>("InterfaceConfiguration", ()),
        kind::<Dash7InterfaceConfiguration, ()>("Dash7InterfaceConfiguration", ()),
        kind::<IndirectInterface, ()>("IndirectInterface", ()),
        kind::<Dash7InterfaceStatus, ()>("Dash7InterfaceStatus", ()),
        kind::<InterfaceStatus, (InterfaceType, u32)>("InterfaceStatus", (itf, len)),
        kind::<InterfaceStatusOperation, ()>("InterfaceStatusOperation", ()),
        kind::<InterfaceType, ()>("InterfaceType", ()),
        kind::<Length, ()>("Length", ()),
        kind::<FileOffset, ()>("FileOffset", ()),
        kind::<VarInt, ()>("VarInt", ()),
        kind::<Channel, ()>("Channel", ()),
        kind::<SubBand, ()>("SubBand", ()),
        kind::<AccessClass, ()>("AccessClass", ()),
        kind::<FileHeader, ()>("FileHeader", ()),
        kind::<QoS, ()>("QoS", ()),
        kind::<BackgroundFrame, ()>("BackgroundFrame", ()),
        kind::<ForegroundFrame, ()>("ForegroundFrame", ()),
        kind::<dash7::network::Frame, u32>("network::Frame", len),
        kind::<dash7::transport::Frame, u32>("transport::Frame", len),
        #[cfg(feature = "wizzilab")]
        kind::<dash7::app::operation::InterfaceFinalStatusOperation, ()>("InterfaceFinalStatusOperation", ()),
        #[cfg(feature = "wizzilab")]
        kind::<dash7::session::InterfaceTxStatus, (u8, u32)>("InterfaceTxStatus", (0xD7, len)),
    ]
}
