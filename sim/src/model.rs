//! Reference model of the ALP format: plain values, an encoder and a decoder, written from the protocol's
//! description and independent of the library under test. The other party of every simulated conversation.

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Variant {
    Spec,
    Subiot,
    Wizzilab,
}

#[cfg(feature = "spec")]
pub const V: Variant = Variant::Spec;
#[cfg(feature = "subiot")]
pub const V: Variant = Variant::Subiot;
#[cfg(feature = "wizzilab")]
pub const V: Variant = Variant::Wizzilab;

pub const WZ: bool = matches!(V, Variant::Wizzilab);

pub fn variant_name() -> &'static str {
    match V {
        Variant::Spec => "spec",
        Variant::Subiot => "subiot",
        Variant::Wizzilab => "wizzilab",
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bad {
    /// Ends early
    Incomplete,
    /// Not in the format
    Invalid,
}

pub type D<T> = Result<T, Bad>;

// -------------------------------------------------------------------- bits

#[derive(Default, Clone)]
pub struct BitW {
    pub out: Vec<u8>,
    acc: u8,
    n: u8,
}

impl BitW {
    pub fn bits(&mut self, v: u64, n: u8) {
        for i in (0..n).rev() {
            self.acc = (self.acc << 1) | ((v >> i) & 1) as u8;
            self.n += 1;
            if self.n == 8 {
                self.out.push(self.acc);
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    pub fn flag(&mut self, b: bool) {
        self.bits(b as u64, 1)
    }
    pub fn u8(&mut self, v: u8) {
        self.bits(v as u64, 8)
    }
    pub fn be16(&mut self, v: u16) {
        self.bits(v as u64, 16)
    }
    pub fn be32(&mut self, v: u32) {
        self.bits(v as u64, 32)
    }
    pub fn be64(&mut self, v: u64) {
        self.bits(v, 64)
    }
    pub fn le32(&mut self, v: u32) {
        self.raw(&v.to_le_bytes())
    }
    pub fn raw(&mut self, b: &[u8]) {
        if self.n == 0 {
            self.out.extend_from_slice(b);
        } else {
            for x in b {
                self.u8(*x)
            }
        }
    }
    /// Pads the last byte with zeroes
    pub fn done(mut self) -> Vec<u8> {
        if self.n > 0 {
            self.bits(0, 8 - self.n);
        }
        self.out
    }
}

pub struct BitR<'a> {
    d: &'a [u8],
    /// In bits
    pub pos: usize,
}

impl<'a> BitR<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        BitR { d, pos: 0 }
    }
    pub fn at_end(&self) -> bool {
        self.pos >= self.d.len() * 8
    }
    /// Whole bytes that were not touched
    pub fn left(&self) -> usize {
        self.d.len() - self.pos.div_ceil(8).min(self.d.len())
    }
    pub fn bits(&mut self, n: u8) -> D<u64> {
        if self.pos + n as usize > self.d.len() * 8 {
            return Err(Bad::Incomplete);
        }
        let mut v = 0u64;
        for _ in 0..n {
            v = (v << 1) | ((self.d[self.pos / 8] >> (7 - self.pos % 8)) & 1) as u64;
            self.pos += 1;
        }
        Ok(v)
    }
    pub fn flag(&mut self) -> D<bool> {
        Ok(self.bits(1)? == 1)
    }
    pub fn u8(&mut self) -> D<u8> {
        Ok(self.bits(8)? as u8)
    }
    pub fn be16(&mut self) -> D<u16> {
        Ok(self.bits(16)? as u16)
    }
    pub fn be32(&mut self) -> D<u32> {
        Ok(self.bits(32)? as u32)
    }
    pub fn be64(&mut self) -> D<u64> {
        self.bits(64)
    }
    pub fn le32(&mut self) -> D<u32> {
        Ok(self.be32()?.swap_bytes())
    }
    pub fn raw(&mut self, n: usize) -> D<Vec<u8>> {
        if self.pos + n * 8 > self.d.len() * 8 {
            return Err(Bad::Incomplete);
        }
        (0..n).map(|_| self.u8()).collect()
    }
    pub fn arr<const N: usize>(&mut self) -> D<[u8; N]> {
        let mut a = [0; N];
        for x in a.iter_mut() {
            *x = self.u8()?;
        }
        Ok(a)
    }
}

// -------------------------------------------------------------------- numbers

pub const LENGTH_MAX: u32 = 0x3FFF_FFFF;

pub fn enc_len(w: &mut BitW, v: u32) {
    assert!(v <= LENGTH_MAX);
    let extra: u8 = match v {
        0..=0x3F => 0,
        0x40..=0x3FFF => 1,
        0x4000..=0x3F_FFFF => 2,
        _ => 3,
    };
    w.bits(extra as u64, 2);
    w.bits(v as u64, 6 + 8 * extra);
}

pub fn dec_len(r: &mut BitR) -> D<u32> {
    let extra = r.bits(2)? as u8;
    Ok(r.bits(6 + 8 * extra)? as u32)
}

/// A duration, in the compressed format on the air
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct VI {
    pub v: u32,
    pub ceil: bool,
}

pub const VI_MAX: u32 = 31 * 16384;

pub fn vi_compress(vi: VI) -> (u8, u8) {
    assert!(vi.v <= VI_MAX);
    let mut e = 0u32;
    while vi.v > 31 << (2 * e) {
        e += 1;
    }
    let unit = 1u32 << (2 * e);
    let m = if vi.ceil { vi.v.div_ceil(unit) } else { vi.v / unit };
    (e as u8, m as u8)
}

pub fn vi_value(e: u8, m: u8) -> u32 {
    (m as u32) << (2 * e as u32)
}

impl VI {
    pub fn enc(&self, w: &mut BitW) {
        let (e, m) = vi_compress(*self);
        w.bits(e as u64, 3);
        w.bits(m as u64, 5);
    }
    pub fn dec(r: &mut BitR) -> D<VI> {
        let e = r.bits(3)? as u8;
        let m = r.bits(5)? as u8;
        Ok(VI { v: vi_value(e, m), ceil: false })
    }
    /// What the other side sees
    pub fn norm(&self) -> VI {
        let (e, m) = vi_compress(*self);
        VI { v: vi_value(e, m), ceil: false }
    }
}

// -------------------------------------------------------------------- addresses, channels

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Addr {
    NbId(VI),
    NoId,
    UId(u64),
    VId(u16),
}

impl Addr {
    pub fn kind(&self) -> u8 {
        match self {
            Addr::NbId(_) => 0,
            Addr::NoId => 1,
            Addr::UId(_) => 2,
            Addr::VId(_) => 3,
        }
    }
    pub fn enc(&self, w: &mut BitW) {
        match self {
            Addr::NbId(v) => v.enc(w),
            Addr::NoId => {}
            Addr::UId(v) => w.be64(*v),
            Addr::VId(v) => w.be16(*v),
        }
    }
    pub fn dec(r: &mut BitR, kind: u8) -> D<Addr> {
        Ok(match kind {
            0 => Addr::NbId(VI::dec(r)?),
            1 => Addr::NoId,
            2 => Addr::UId(r.be64()?),
            _ => Addr::VId(r.be16()?),
        })
    }
    pub fn norm(&self) -> Addr {
        match self {
            Addr::NbId(v) => Addr::NbId(v.norm()),
            a => *a,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Addressee {
    /// Only on the air in the wizzilab variant
    pub group: u8,
    pub use_vid: bool,
    pub addr: Addr,
    pub nls: u8,
    pub nls_state: [u8; 5],
    pub specifier: u8,
    pub mask: u8,
}

impl Addressee {
    pub fn enc(&self, w: &mut BitW) {
        if WZ {
            w.bits(self.group as u64, 2);
            w.bits(self.addr.kind() as u64, 2);
            w.flag(self.use_vid);
            w.bits(self.nls as u64, 3);
        } else {
            w.bits(0, 2);
            w.bits(self.addr.kind() as u64, 2);
            w.bits(self.nls as u64, 4);
        }
        w.bits(self.specifier as u64, 4);
        w.bits(self.mask as u64, 4);
        self.addr.enc(w);
        if self.nls != 0 {
            w.raw(&self.nls_state);
        }
    }
    pub fn dec(r: &mut BitR) -> D<Self> {
        let (mut group, mut use_vid) = (0, false);
        let kind;
        let nls;
        if WZ {
            group = r.bits(2)? as u8;
            kind = r.bits(2)? as u8;
            use_vid = r.flag()?;
            nls = r.bits(3)? as u8;
        } else {
            r.bits(2)?;
            kind = r.bits(2)? as u8;
            nls = r.bits(4)? as u8;
            if nls > 7 {
                return Err(Bad::Invalid);
            }
        }
        let specifier = r.bits(4)? as u8;
        let mask = r.bits(4)? as u8;
        let addr = Addr::dec(r, kind)?;
        let nls_state = if nls != 0 { r.arr()? } else { [0; 5] };
        Ok(Addressee { group, use_vid, addr, nls, nls_state, specifier, mask })
    }
    pub fn norm(&self) -> Self {
        Addressee { addr: self.addr.norm(), ..self.clone() }
    }
}

#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct ChanHdr {
    /// 0..=4
    pub band: u8,
    pub class: u8,
    pub coding: u8,
}

impl ChanHdr {
    pub fn enc(&self, w: &mut BitW) {
        w.bits(0, 1);
        w.bits(self.band as u64, 3);
        w.bits(self.class as u64, 2);
        w.bits(self.coding as u64, 2);
    }
    pub fn dec(r: &mut BitR) -> D<Self> {
        r.bits(1)?;
        let band = r.bits(3)? as u8;
        if band > 4 {
            return Err(Bad::Invalid);
        }
        Ok(ChanHdr { band, class: r.bits(2)? as u8, coding: r.bits(2)? as u8 })
    }
}

#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Chan {
    pub h: ChanHdr,
    pub index: u16,
}

impl Chan {
    pub fn enc(&self, w: &mut BitW) {
        self.h.enc(w);
        w.be16(self.index);
    }
    pub fn dec(r: &mut BitR) -> D<Self> {
        Ok(Chan { h: ChanHdr::dec(r)?, index: r.be16()? })
    }
}

// -------------------------------------------------------------------- interfaces

#[derive(Clone, PartialEq, Debug)]
pub struct D7Status {
    pub chan: Chan,
    pub rx: u8,
    pub lb: u8,
    pub target: u8,
    pub nls: bool,
    pub missed: bool,
    pub retry: bool,
    pub unicast: bool,
    pub fifo: u8,
    pub seq: u8,
    pub timeout: VI,
    pub from: Addressee,
}

impl D7Status {
    pub fn enc(&self, w: &mut BitW) {
        self.chan.enc(w);
        w.u8(self.rx);
        w.u8(self.lb);
        w.u8(self.target);
        w.flag(self.nls);
        w.flag(self.missed);
        w.flag(self.retry);
        w.flag(self.unicast);
        w.bits(0, 4);
        w.u8(self.fifo);
        w.u8(self.seq);
        self.timeout.enc(w);
        self.from.enc(w);
    }
    pub fn dec(r: &mut BitR) -> D<Self> {
        let chan = Chan::dec(r)?;
        let (rx, lb, target) = (r.u8()?, r.u8()?, r.u8()?);
        let (nls, missed, retry, unicast) = (r.flag()?, r.flag()?, r.flag()?, r.flag()?);
        r.bits(4)?;
        Ok(D7Status {
            chan,
            rx,
            lb,
            target,
            nls,
            missed,
            retry,
            unicast,
            fifo: r.u8()?,
            seq: r.u8()?,
            timeout: VI::dec(r)?,
            from: Addressee::dec(r)?,
        })
    }
    pub fn norm(&self) -> Self {
        D7Status { timeout: self.timeout.norm(), from: self.from.norm(), ..self.clone() }
    }
}

/// Interfaces that have an id of their own
pub const KNOWN_IF: [u8; 5] = [0, 1, 2, 3, 0xD7];

#[derive(Clone, PartialEq, Debug)]
pub enum IfStatus {
    Host,
    Serial,
    D7(D7Status),
    /// An interface this implementation does not know
    Other(u8, Vec<u8>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Qos {
    pub stop: bool,
    pub record: bool,
    pub retry: u8,
    /// 0 1 2 4 5 6
    pub resp: u8,
}

#[derive(Clone, PartialEq, Debug)]
pub struct D7Conf {
    pub qos: Qos,
    pub dormant: VI,
    /// Not in the sub-iot variant
    pub exec: VI,
    pub to: Addressee,
}

#[derive(Clone, PartialEq, Debug)]
pub struct LoraBase {
    pub adr: bool,
    pub ack: bool,
    pub port: u8,
    pub rate: u8,
}

impl LoraBase {
    fn enc(&self, w: &mut BitW) {
        w.bits(0, 5);
        w.flag(self.adr);
        w.flag(self.ack);
        w.bits(0, 1);
        w.u8(self.port);
        w.u8(self.rate);
    }
    fn dec(r: &mut BitR) -> D<Self> {
        r.bits(5)?;
        let (adr, ack) = (r.flag()?, r.flag()?);
        r.bits(1)?;
        Ok(LoraBase { adr, ack, port: r.u8()?, rate: r.u8()? })
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum IfConf {
    Host,
    Serial,
    Abp { base: LoraBase, nsk: Vec<u8>, ask: Vec<u8>, dev: u32, net: u32 },
    Otaa { base: LoraBase, dev: Vec<u8>, app: Vec<u8>, key: Vec<u8> },
    D7(D7Conf),
    Other(u8),
}

impl IfConf {
    pub fn enc(&self, w: &mut BitW) {
        match self {
            IfConf::Host => w.u8(0),
            IfConf::Serial => w.u8(1),
            IfConf::Abp { base, nsk, ask, dev, net } => {
                w.u8(2);
                base.enc(w);
                w.raw(nsk);
                w.raw(ask);
                w.le32(*dev);
                w.le32(*net);
            }
            IfConf::Otaa { base, dev, app, key } => {
                w.u8(3);
                base.enc(w);
                w.raw(dev);
                w.raw(app);
                w.raw(key);
            }
            IfConf::D7(c) => {
                w.u8(0xD7);
                w.flag(c.qos.stop);
                w.flag(c.qos.record);
                w.bits(c.qos.retry as u64, 3);
                w.bits(c.qos.resp as u64, 3);
                c.dormant.enc(w);
                if V != Variant::Subiot {
                    c.exec.enc(w);
                }
                c.to.enc(w);
            }
            IfConf::Other(id) => w.u8(*id),
        }
    }
    pub fn dec(r: &mut BitR) -> D<Self> {
        Ok(match r.u8()? {
            0 => IfConf::Host,
            1 => IfConf::Serial,
            2 => IfConf::Abp {
                base: LoraBase::dec(r)?,
                nsk: r.raw(16)?,
                ask: r.raw(16)?,
                dev: r.le32()?,
                net: r.le32()?,
            },
            3 => IfConf::Otaa { base: LoraBase::dec(r)?, dev: r.raw(8)?, app: r.raw(8)?, key: r.raw(16)? },
            0xD7 => {
                let (stop, record) = (r.flag()?, r.flag()?);
                let (retry, resp) = (r.bits(3)? as u8, r.bits(3)? as u8);
                if resp == 3 || resp == 7 {
                    return Err(Bad::Invalid);
                }
                let dormant = VI::dec(r)?;
                let exec = if V != Variant::Subiot { VI::dec(r)? } else { VI::default() };
                IfConf::D7(D7Conf { qos: Qos { stop, record, retry, resp }, dormant, exec, to: Addressee::dec(r)? })
            }
            id => IfConf::Other(id),
        })
    }
    pub fn norm(&self) -> Self {
        match self {
            IfConf::D7(c) => IfConf::D7(D7Conf {
                qos: c.qos,
                dormant: c.dormant.norm(),
                exec: c.exec.norm(),
                to: c.to.norm(),
            }),
            c => c.clone(),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum IndIf {
    Host,
    Serial,
    D7(Addressee),
    Other(u8),
}

impl IndIf {
    pub fn enc(&self, w: &mut BitW) {
        match self {
            IndIf::Host => w.u8(0),
            IndIf::Serial => w.u8(1),
            IndIf::D7(a) => {
                w.u8(0xD7);
                a.enc(w)
            }
            IndIf::Other(id) => w.u8(*id),
        }
    }
    pub fn dec(r: &mut BitR) -> D<Self> {
        Ok(match r.u8()? {
            0 => IndIf::Host,
            1 => IndIf::Serial,
            0xD7 => IndIf::D7(Addressee::dec(r)?),
            id => IndIf::Other(id),
        })
    }
}

// -------------------------------------------------------------------- files

#[derive(Clone, PartialEq, Debug)]
pub struct Profile {
    pub h: ChanHdr,
    /// subband bitmap, scan automation period
    pub subs: [(u8, VI); 4],
    /// start, end, eirp, cca, duty
    pub bands: [(u16, u16, i8, u8, u8); 8],
}

#[derive(Clone, PartialEq, Debug)]
pub struct Factory {
    pub gain: i8,
    pub rates: [u32; 9],
    pub small: [u8; 11],
    pub lora_bw: u32,
    pub lora_sf: u8,
    pub gaussian: u8,
    pub paramp: u16,
}

#[derive(Clone, PartialEq, Debug)]
pub enum File {
    Profile(u8, Profile),
    UId(u64),
    Factory(Factory),
    /// The two names are valid utf-8
    Firmware { major: u8, minor: u8, name: Vec<u8>, sha: Vec<u8> },
    /// mode is 0..=4
    Eng { mode: u8, flags: u8, timeout: u8, chan: Chan, eirp: i8 },
    VId(u16),
    /// entries: band 0..=4, bandwidth 0..=1, index 11 bits, noise floor
    Phy { up: u32, rx: u32, tx: u32, duty: u16, list: Vec<(u8, u8, u16, u8)> },
    DllConf { ac: u8, lq: u8, nf: u8, rx: u8, tx: u8 },
    DllStatus { level: u8, budget: u8, noise: u8, h: ChanHdr, index: u16, ratio: u16, scans: u32, timeouts: u32 },
    Key([u8; 16]),
    Raw(Vec<u8>),
}

/// Files with a layout of their own
pub const TYPED: [u8; 9] = [0x00, 0x01, 0x02, 0x05, 0x06, 0x09, 0x0A, 0x0B, 0x0E];

pub fn is_typed(id: u8) -> bool {
    TYPED.contains(&id) || (0x20..=0x2E).contains(&id)
}

/// As many characters of a name as there is room for
fn name_in(name: &[u8], room: usize) -> Vec<u8> {
    let text = std::str::from_utf8(name).expect("names are text");
    let mut out = vec![];
    for c in text.chars() {
        if out.len() + c.len_utf8() > room {
            break;
        }
        out.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
    }
    out.resize(room, 0);
    out
}

impl File {
    pub fn enc(&self) -> Vec<u8> {
        let mut w = BitW::default();
        match self {
            File::Profile(_, p) => {
                p.h.enc(&mut w);
                for (bitmap, period) in &p.subs {
                    w.u8(*bitmap);
                    period.enc(&mut w);
                }
                for (a, b, eirp, cca, duty) in &p.bands {
                    w.be16(*a);
                    w.be16(*b);
                    w.u8(*eirp as u8);
                    w.u8(*cca);
                    w.u8(*duty);
                }
            }
            File::UId(v) => w.be64(*v),
            File::Factory(f) => {
                w.u8(f.gain as u8);
                f.rates.iter().for_each(|v| w.be32(*v));
                w.raw(&f.small);
                w.be32(f.lora_bw);
                w.u8(f.lora_sf);
                w.u8(f.gaussian);
                w.be16(f.paramp);
            }
            File::Firmware { major, minor, name, sha } => {
                w.u8(*major);
                w.u8(*minor);
                w.raw(&name_in(name, 6));
                w.raw(&name_in(sha, 7));
            }
            File::Eng { mode, flags, timeout, chan, eirp } => {
                w.raw(&[*mode, *flags, *timeout]);
                chan.enc(&mut w);
                w.u8(*eirp as u8);
            }
            File::VId(v) => w.be16(*v),
            File::Phy { up, rx, tx, duty, list } => {
                w.be32(*up);
                w.be32(*rx);
                w.be32(*tx);
                w.be16(*duty);
                w.u8(list.len() as u8);
                for (band, bw, index, noise) in list {
                    w.bits(*band as u64, 3);
                    w.bits(*bw as u64, 2);
                    w.bits(*index as u64, 11);
                    w.u8(*noise);
                }
            }
            File::DllConf { ac, lq, nf, rx, tx } => w.raw(&[*ac, 0, 0, *lq, *nf, *rx, *tx]),
            File::DllStatus { level, budget, noise, h, index, ratio, scans, timeouts } => {
                w.raw(&[*level, *budget, *noise]);
                h.enc(&mut w);
                w.be16(*index);
                w.be16(*ratio);
                w.be32(*scans);
                w.be32(*timeouts);
            }
            File::Key(k) => w.raw(k),
            File::Raw(d) => w.raw(d),
        }
        w.done()
    }

    /// Decode a file with a layout from the front of some data
    pub fn dec_typed(r: &mut BitR, id: u8) -> D<File> {
        Ok(match id {
            0x00 => File::UId(r.be64()?),
            0x01 => {
                let gain = r.u8()? as i8;
                let mut rates = [0; 9];
                for v in rates.iter_mut() {
                    *v = r.be32()?;
                }
                File::Factory(Factory {
                    gain,
                    rates,
                    small: r.arr()?,
                    lora_bw: r.be32()?,
                    lora_sf: r.u8()?,
                    gaussian: r.u8()?,
                    paramp: r.be16()?,
                })
            }
            0x02 => {
                let (major, minor) = (r.u8()?, r.u8()?);
                let name = r.raw(6)?;
                if std::str::from_utf8(&name).is_err() {
                    return Err(Bad::Invalid);
                }
                let sha = r.raw(7)?;
                if std::str::from_utf8(&sha).is_err() {
                    return Err(Bad::Invalid);
                }
                File::Firmware { major, minor, name, sha }
            }
            0x05 => {
                let mode = r.u8()?;
                if mode > 4 {
                    return Err(Bad::Invalid);
                }
                File::Eng { mode, flags: r.u8()?, timeout: r.u8()?, chan: Chan::dec(r)?, eirp: r.u8()? as i8 }
            }
            0x06 => File::VId(r.be16()?),
            0x09 => {
                let (up, rx, tx, duty) = (r.be32()?, r.be32()?, r.be32()?, r.be16()?);
                let n = r.u8()?;
                let mut list = vec![];
                for _ in 0..n {
                    let band = r.bits(3)? as u8;
                    if band > 4 {
                        return Err(Bad::Invalid);
                    }
                    let bw = r.bits(2)? as u8;
                    if bw > 1 {
                        return Err(Bad::Invalid);
                    }
                    list.push((band, bw, r.bits(11)? as u16, r.u8()?));
                }
                File::Phy { up, rx, tx, duty, list }
            }
            0x0A => {
                let ac = r.u8()?;
                r.be16()?;
                File::DllConf { ac, lq: r.u8()?, nf: r.u8()?, rx: r.u8()?, tx: r.u8()? }
            }
            0x0B => File::DllStatus {
                level: r.u8()?,
                budget: r.u8()?,
                noise: r.u8()?,
                h: ChanHdr::dec(r)?,
                index: r.be16()?,
                ratio: r.be16()?,
                scans: r.be32()?,
                timeouts: r.be32()?,
            },
            0x0E => File::Key(r.arr()?),
            0x20..=0x2E => {
                let h = ChanHdr::dec(r)?;
                let mut subs = [(0, VI::default()); 4];
                for s in subs.iter_mut() {
                    *s = (r.u8()?, VI::dec(r)?);
                }
                let mut bands = [(0, 0, 0, 0, 0); 8];
                for b in bands.iter_mut() {
                    *b = (r.be16()?, r.be16()?, r.u8()? as i8, r.u8()?, r.u8()?);
                }
                File::Profile(id - 0x20, Profile { h, subs, bands })
            }
            _ => unreachable!("not a typed file"),
        })
    }

    /// What the content of a file is taken for: part of a typed file stays raw
    pub fn dec_exact(id: u8, data: &[u8]) -> D<File> {
        if !is_typed(id) {
            return Ok(File::Raw(data.to_vec()));
        }
        let mut r = BitR::new(data);
        match File::dec_typed(&mut r, id) {
            Ok(f) if r.at_end() => Ok(f),
            Ok(_) | Err(Bad::Incomplete) => Ok(File::Raw(data.to_vec())),
            Err(Bad::Invalid) => Err(Bad::Invalid),
        }
    }

    /// What a receiver takes it for
    pub fn norm(&self, id: u8) -> D<File> {
        File::dec_exact(id, &self.enc())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct FileHdr {
    /// encrypted, executable, user rwx, guest rwx
    pub perm: u8,
    pub enabled: bool,
    /// 0..=3
    pub cond: u8,
    pub class: u8,
    pub alp: u8,
    pub itf: u8,
    pub size: u32,
    pub alloc: u32,
}

impl FileHdr {
    pub fn enc(&self, w: &mut BitW) {
        w.u8(self.perm);
        w.flag(self.enabled);
        w.bits(self.cond as u64, 3);
        w.bits(0, 2);
        w.bits(self.class as u64, 2);
        w.u8(self.alp);
        w.u8(self.itf);
        w.be32(self.size);
        w.be32(self.alloc);
    }
    pub fn dec(r: &mut BitR) -> D<Self> {
        let perm = r.u8()?;
        let enabled = r.flag()?;
        let cond = r.bits(3)? as u8;
        if cond > 3 {
            return Err(Bad::Invalid);
        }
        r.bits(2)?;
        Ok(FileHdr {
            perm,
            enabled,
            cond,
            class: r.bits(2)? as u8,
            alp: r.u8()?,
            itf: r.u8()?,
            size: r.be32()?,
            alloc: r.be32()?,
        })
    }
}

// -------------------------------------------------------------------- queries

pub type Off = (u8, u32);

fn enc_off(w: &mut BitW, o: &Off) {
    w.u8(o.0);
    enc_len(w, o.1);
}

fn dec_off(r: &mut BitR) -> D<Off> {
    Ok((r.u8()?, dec_len(r)?))
}

#[derive(Clone, PartialEq, Debug)]
pub enum Query {
    NonVoid { len: u32, file: Off },
    Zero { masked: bool, signed: bool, cmp: u8, len: u32, mask: Vec<u8>, file: Off },
    Value { masked: bool, signed: bool, cmp: u8, mask: Vec<u8>, value: Vec<u8>, file: Off },
    Other { masked: bool, signed: bool, cmp: u8, len: u32, mask: Vec<u8>, file1: Off, file2: Off },
    Bitmap { masked: bool, signed: bool, cmp: u8, start: u32, stop: u32, mask: Vec<u8>, file: Off },
    Token { masked: bool, errors: u8, mask: Vec<u8>, value: Vec<u8>, file: Off },
}

impl Query {
    pub fn enc(&self, w: &mut BitW) {
        match self {
            Query::NonVoid { len, file } => {
                w.bits(0, 8);
                enc_len(w, *len);
                enc_off(w, file);
            }
            Query::Zero { masked, signed, cmp, len, mask, file } => {
                w.bits(1, 3);
                w.flag(*masked);
                w.flag(*signed);
                w.bits(*cmp as u64, 3);
                enc_len(w, *len);
                w.raw(mask);
                enc_off(w, file);
            }
            Query::Value { masked, signed, cmp, mask, value, file } => {
                w.bits(2, 3);
                w.flag(*masked);
                w.flag(*signed);
                w.bits(*cmp as u64, 3);
                enc_len(w, value.len() as u32);
                w.raw(mask);
                w.raw(value);
                enc_off(w, file);
            }
            Query::Other { masked, signed, cmp, len, mask, file1, file2 } => {
                w.bits(3, 3);
                w.flag(*masked);
                w.flag(*signed);
                w.bits(*cmp as u64, 3);
                enc_len(w, *len);
                w.raw(mask);
                enc_off(w, file1);
                enc_off(w, file2);
            }
            Query::Bitmap { masked, signed, cmp, start, stop, mask, file } => {
                w.bits(4, 3);
                w.flag(*masked);
                w.flag(*signed);
                w.bits(*cmp as u64, 3);
                enc_len(w, mask.len() as u32);
                enc_len(w, *start);
                enc_len(w, *stop);
                w.raw(mask);
                enc_off(w, file);
            }
            Query::Token { masked, errors, mask, value, file } => {
                w.bits(7, 3);
                w.flag(*masked);
                w.bits(0, 1);
                w.bits(*errors as u64, 3);
                enc_len(w, value.len() as u32);
                w.raw(mask);
                w.raw(value);
                enc_off(w, file);
            }
        }
    }

    pub fn dec(r: &mut BitR) -> D<Self> {
        let kind = r.bits(3)?;
        if kind == 0 {
            r.bits(5)?;
            return Ok(Query::NonVoid { len: dec_len(r)?, file: dec_off(r)? });
        }
        if kind == 5 || kind == 6 {
            return Err(Bad::Invalid);
        }
        let masked = r.flag()?;
        let signed = r.flag()?;
        let cmp = r.bits(3)? as u8;
        let mask_if = |r: &mut BitR, len: u32| if masked { r.raw(len as usize) } else { Ok(vec![]) };
        Ok(match kind {
            1 | 2 | 3 if cmp > 5 => return Err(Bad::Invalid),
            4 if cmp > 1 => return Err(Bad::Invalid),
            1 => {
                let len = dec_len(r)?;
                Query::Zero { masked, signed, cmp, len, mask: mask_if(r, len)?, file: dec_off(r)? }
            }
            2 => {
                let len = dec_len(r)?;
                let mask = mask_if(r, len)?;
                Query::Value { masked, signed, cmp, mask, value: r.raw(len as usize)?, file: dec_off(r)? }
            }
            3 => {
                let len = dec_len(r)?;
                let mask = mask_if(r, len)?;
                Query::Other { masked, signed, cmp, len, mask, file1: dec_off(r)?, file2: dec_off(r)? }
            }
            4 => {
                let len = dec_len(r)?;
                let (start, stop) = (dec_len(r)?, dec_len(r)?);
                Query::Bitmap { masked, signed, cmp, start, stop, mask: r.raw(len as usize)?, file: dec_off(r)? }
            }
            _ => {
                let len = dec_len(r)?;
                let mask = mask_if(r, len)?;
                Query::Token { masked, errors: cmp, mask, value: r.raw(len as usize)?, file: dec_off(r)? }
            }
        })
    }
}

// -------------------------------------------------------------------- actions

#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Hd {
    pub group: bool,
    pub resp: bool,
}

#[derive(Clone, PartialEq, Debug)]
pub struct TxStatus {
    pub chan: Chan,
    pub target: i8,
    pub error: u8,
    pub lts: u32,
    pub to: Addressee,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Act {
    Nop(Hd),
    ReadData(Hd, Off, u32),
    /// opcodes that take a file id: 2 16 18 19 20 31
    OnFile(u8, Hd, u8),
    /// 4 5 32
    Data(u8, Hd, Off, File),
    /// 6 17 33
    Props(u8, Hd, u8, FileHdr),
    /// 8 9 11
    Query(u8, Hd, Query),
    /// level is 0..=1
    Permission(Hd, u8, [u8; 8]),
    Copy(Hd, u8, u8),
    StatusAction(u8, u8),
    StatusIf(IfStatus),
    /// wizzilab only
    StatusFinalD7(u8),
    StatusFinalOther(u8, Vec<u8>),
    TxD7(TxStatus),
    TxOther(u8, Vec<u8>),
    ResponseTag { eop: bool, err: bool, id: u8 },
    Chunk(u8),
    Logic(u8),
    Forward(bool, IfConf),
    Indirect(bool, Option<IndIf>),
    RequestTag { eop: bool, id: u8 },
    Extension(Hd),
}

pub const ON_FILE: [u8; 6] = [2, 16, 18, 19, 20, 31];
pub const DATA: [u8; 3] = [4, 5, 32];
pub const PROPS: [u8; 3] = [6, 17, 33];
pub const QUERIES: [u8; 3] = [8, 9, 11];

pub fn final_code_ok(c: u8) -> bool {
    c == 0 || c >= 0xEA
}

fn pre(w: &mut BitW, h: &Hd, op: u8) {
    w.flag(h.group);
    w.flag(h.resp);
    w.bits(op as u64, 6);
}

fn prefixed(w: &mut BitW, data: &[u8]) {
    enc_len(w, data.len() as u32);
    w.raw(data);
}

impl Act {
    pub fn enc_to(&self, w: &mut BitW) {
        match self {
            Act::Nop(h) => pre(w, h, 0),
            Act::ReadData(h, off, len) => {
                pre(w, h, 1);
                enc_off(w, off);
                enc_len(w, *len);
            }
            Act::OnFile(op, h, id) => {
                pre(w, h, *op);
                w.u8(*id);
            }
            Act::Data(op, h, off, file) => {
                pre(w, h, *op);
                enc_off(w, off);
                prefixed(w, &file.enc());
            }
            Act::Props(op, h, id, hdr) => {
                pre(w, h, *op);
                w.u8(*id);
                hdr.enc(w);
            }
            Act::Query(op, h, q) => {
                pre(w, h, *op);
                q.enc(w);
            }
            Act::Permission(h, level, key) => {
                pre(w, h, 10);
                w.u8(*level);
                w.u8(0x42);
                w.raw(key);
            }
            Act::Copy(h, src, dst) => {
                pre(w, h, 23);
                w.u8(*src);
                w.u8(*dst);
            }
            Act::StatusAction(id, code) => {
                w.bits(0, 2);
                w.bits(34, 6);
                w.u8(*id);
                w.u8(*code);
            }
            Act::StatusIf(s) => {
                w.bits(1, 2);
                w.bits(34, 6);
                match s {
                    IfStatus::Host => w.raw(&[0, 0]),
                    IfStatus::Serial => w.raw(&[1, 0]),
                    IfStatus::D7(s) => {
                        w.u8(0xD7);
                        let mut b = BitW::default();
                        s.enc(&mut b);
                        prefixed(w, &b.done());
                    }
                    IfStatus::Other(id, d) => {
                        w.u8(*id);
                        prefixed(w, d);
                    }
                }
            }
            Act::StatusFinalD7(code) => {
                w.bits(2, 2);
                w.bits(34, 6);
                w.raw(&[0xD7, 1, *code]);
            }
            Act::StatusFinalOther(id, d) => {
                w.bits(2, 2);
                w.bits(34, 6);
                w.u8(*id);
                prefixed(w, d);
            }
            Act::TxD7(t) => {
                w.bits(1, 2);
                w.bits(38, 6);
                w.u8(0xD7);
                let mut b = BitW::default();
                t.chan.enc(&mut b);
                b.u8(t.target as u8);
                b.u8(t.error);
                b.raw(&[0, 0, 0]);
                b.le32(t.lts);
                t.to.enc(&mut b);
                prefixed(w, &b.done());
            }
            Act::TxOther(id, d) => {
                w.bits(1, 2);
                w.bits(38, 6);
                w.u8(*id);
                prefixed(w, d);
            }
            Act::ResponseTag { eop, err, id } => {
                w.flag(*eop);
                w.flag(*err);
                w.bits(35, 6);
                w.u8(*id);
            }
            Act::Chunk(s) => {
                w.bits(*s as u64, 2);
                w.bits(48, 6);
            }
            Act::Logic(l) => {
                w.bits(*l as u64, 2);
                w.bits(49, 6);
            }
            Act::Forward(resp, c) => {
                w.bits(0, 1);
                w.flag(*resp);
                w.bits(50, 6);
                c.enc(w);
            }
            Act::Indirect(resp, c) => {
                w.flag(c.is_some());
                w.flag(*resp);
                w.bits(51, 6);
                if let Some(c) = c {
                    c.enc(w);
                }
            }
            Act::RequestTag { eop, id } => {
                w.flag(*eop);
                w.bits(0, 1);
                w.bits(52, 6);
                w.u8(*id);
            }
            Act::Extension(h) => pre(w, h, 63),
        }
    }

    pub fn enc(&self) -> Vec<u8> {
        let mut w = BitW::default();
        self.enc_to(&mut w);
        w.done()
    }

    pub fn dec(r: &mut BitR) -> D<Act> {
        let a = r.flag()?;
        let b = r.flag()?;
        let op = r.bits(6)? as u8;
        let h = Hd { group: a, resp: b };
        let two = (a as u8) << 1 | b as u8;
        Ok(match op {
            0 => Act::Nop(h),
            1 => Act::ReadData(h, dec_off(r)?, dec_len(r)?),
            2 | 16 | 18 | 19 | 20 | 31 => Act::OnFile(op, h, r.u8()?),
            4 | 5 | 32 => {
                let off = dec_off(r)?;
                let len = dec_len(r)?;
                let data = r.raw(len as usize)?;
                // only the start of a file tells what it is
                let file = if off.1 > 0 { File::Raw(data) } else { File::dec_exact(off.0, &data)? };
                Act::Data(op, h, off, file)
            }
            6 | 17 | 33 => Act::Props(op, h, r.u8()?, FileHdr::dec(r)?),
            8 | 9 | 11 => Act::Query(op, h, Query::dec(r)?),
            10 => {
                let level = r.u8()?;
                if level > 1 {
                    return Err(Bad::Invalid);
                }
                if r.u8()? != 0x42 {
                    return Err(Bad::Invalid);
                }
                Act::Permission(h, level, r.arr()?)
            }
            23 => Act::Copy(h, r.u8()?, r.u8()?),
            34 => match two {
                0 => Act::StatusAction(r.u8()?, r.u8()?),
                1 => {
                    let id = r.u8()?;
                    let len = dec_len(r)?;
                    let data = r.raw(len as usize)?;
                    let mut b = BitR::new(&data);
                    let s = match id {
                        0 => IfStatus::Host,
                        1 => IfStatus::Serial,
                        0xD7 => match D7Status::dec(&mut b) {
                            Ok(s) => IfStatus::D7(s),
                            Err(_) => return Err(Bad::Invalid),
                        },
                        2 | 3 => return Err(Bad::Invalid),
                        _ => return Ok(Act::StatusIf(IfStatus::Other(id, data))),
                    };
                    if !b.at_end() {
                        return Err(Bad::Invalid);
                    }
                    Act::StatusIf(s)
                }
                2 if WZ => {
                    let id = r.u8()?;
                    let len = dec_len(r)?;
                    let data = r.raw(len as usize)?;
                    if id != 0xD7 {
                        Act::StatusFinalOther(id, data)
                    } else if data.len() == 1 && final_code_ok(data[0]) {
                        Act::StatusFinalD7(data[0])
                    } else {
                        return Err(Bad::Invalid);
                    }
                }
                _ => return Err(Bad::Invalid),
            },
            35 => Act::ResponseTag { eop: a, err: b, id: r.u8()? },
            38 if WZ => {
                if two != 1 {
                    return Err(Bad::Invalid);
                }
                let id = r.u8()?;
                let len = dec_len(r)?;
                let data = r.raw(len as usize)?;
                if id != 0xD7 {
                    return Ok(Act::TxOther(id, data));
                }
                let mut b = BitR::new(&data);
                let mut dec = || -> D<TxStatus> {
                    let chan = Chan::dec(&mut b)?;
                    let target = b.u8()? as i8;
                    let error = b.u8()?;
                    if !final_code_ok(error) {
                        return Err(Bad::Invalid);
                    }
                    b.raw(3)?;
                    Ok(TxStatus { chan, target, error, lts: b.le32()?, to: Addressee::dec(&mut b)? })
                };
                let t = dec().map_err(|_| Bad::Invalid)?;
                if !b.at_end() {
                    return Err(Bad::Invalid);
                }
                Act::TxD7(t)
            }
            48 => Act::Chunk(two),
            49 => Act::Logic(two),
            50 => Act::Forward(b, IfConf::dec(r)?),
            51 => Act::Indirect(b, if a { Some(IndIf::dec(r)?) } else { None }),
            52 => Act::RequestTag { eop: a, id: r.u8()? },
            63 => Act::Extension(h),
            _ => return Err(Bad::Invalid),
        })
    }

    /// What the other side sees: durations are rounded, names padded. Err if the other side refuses it.
    pub fn norm(&self) -> D<Act> {
        let bytes = self.enc();
        let mut r = BitR::new(&bytes);
        let a = Act::dec(&mut r)?;
        assert!(r.at_end(), "model: {self:?}");
        Ok(a)
    }
}

/// A whole command, and the number of bytes it takes: all of them, unless an indirect forward ends it
pub fn dec_cmd(data: &[u8]) -> D<(Vec<Act>, usize)> {
    let mut r = BitR::new(data);
    let mut acts = vec![];
    while !r.at_end() {
        if let Some(Act::Indirect(..)) = acts.last() {
            break;
        }
        acts.push(Act::dec(&mut r)?);
    }
    Ok((acts, r.pos / 8))
}

pub fn enc_cmd(acts: &[Act]) -> Vec<u8> {
    let mut w = BitW::default();
    for a in acts {
        a.enc_to(&mut w);
    }
    w.done()
}

/// Where each action ends
pub fn bounds(acts: &[Act]) -> Vec<usize> {
    let mut n = 0;
    acts.iter()
        .map(|a| {
            n += a.enc().len();
            n
        })
        .collect()
}
