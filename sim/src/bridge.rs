//! From model values to values of the library, through its public constructors only.

use crate::model::{self as m, Act};
use dash7::app::action::{Action, OpCode};
use dash7::app::command::Command;
use dash7::app::interface as itf;
use dash7::app::operation as op;
use dash7::app::query as q;
use dash7::file as f;
use dash7::link::{self, AccessClass, SubProfile};
use dash7::network::{Address, Addressee, NlsState};
use dash7::physical as phy;
use dash7::session as ses;
use dash7::types::VarInt;

pub fn vi(v: &m::VI) -> VarInt {
    // there are several ways to make one, which make no difference
    match v.v % 3 {
        0 if !v.ceil => v.v.into(),
        1 if VarInt::is_valid(v.v) => VarInt::new(v.v, v.ceil).unwrap_or(VarInt::new_unchecked(v.v, v.ceil)),
        _ => VarInt::new_unchecked(v.v, v.ceil),
    }
}

/// The results that have a name, and their numbers
pub const CODES: [(op::StatusCode, u8); 16] = [
    (op::StatusCode::OK, 0),
    (op::StatusCode::RECEIVED, 1),
    (op::StatusCode::ITF_FULL, 2),
    (op::StatusCode::UNKNOWN_ERROR, 0x80),
    (op::StatusCode::OPERATION_WRONG_FORMAT, 0xF4),
    (op::StatusCode::OPERATION_INCOMPLETE, 0xF5),
    (op::StatusCode::UNKNOWN_OPERATION, 0xF6),
    (op::StatusCode::WRITE_STORAGE_UNAVAILABLE, 0xF7),
    (op::StatusCode::WRITE_DATA_OVERFLOW, 0xF8),
    (op::StatusCode::WRITE_OFFSET_OVERFLOW, 0xF9),
    (op::StatusCode::CREATE_FILE_ALLOCATION_OVERFLOW, 0xFA),
    (op::StatusCode::CREATE_FILE_LENGTH_OVERFLOW, 0xFB),
    (op::StatusCode::INSUFFICIENT_PERMISSION, 0xFC),
    (op::StatusCode::FILE_IS_NOT_RESTORABLE, 0xFD),
    (op::StatusCode::CREATE_FILE_ID_ALREADY_EXIST, 0xFE),
    (op::StatusCode::FILE_ID_MISSING, 0xFF),
];

fn code(n: u8) -> op::StatusCode {
    match CODES.iter().find(|c| c.1 == n) {
        Some((named, _)) => named.clone(),
        None => op::StatusCode(n),
    }
}

pub fn address(a: &m::Addr) -> Address {
    match a {
        m::Addr::NbId(v) => Address::NbId(vi(v)),
        m::Addr::NoId => Address::NoId,
        m::Addr::UId(v) => Address::UId(*v),
        m::Addr::VId(v) => Address::VId(*v),
    }
}

pub fn addressee(a: &m::Addressee) -> Addressee {
    let s = a.nls_state;
    let nls = match a.nls {
        0 => NlsState::None,
        1 => NlsState::AesCtr(s),
        2 => NlsState::AesCbcMac128(s),
        3 => NlsState::AesCbcMac64(s),
        4 => NlsState::AesCbcMac32(s),
        5 => NlsState::AesCcm128(s),
        6 => NlsState::AesCcm64(s),
        _ => NlsState::AesCcm32(s),
    };
    Addressee::new(
        #[cfg(feature = "wizzilab")]
        a.use_vid,
        #[cfg(feature = "wizzilab")]
        group(a.group),
        address(&a.addr),
        nls,
        match (a.specifier, a.mask) {
            (15, 15) => AccessClass::unavailable(),
            (s, m) => AccessClass::new(s, m),
        },
    )
}

#[cfg(feature = "wizzilab")]
fn group(g: u8) -> dash7::transport::GroupCondition {
    use dash7::transport::GroupCondition as G;
    match g {
        0 => G::Any,
        1 => G::NotEqual,
        2 => G::Equal,
        _ => G::GreaterThan,
    }
}

pub fn chan_hdr(h: &m::ChanHdr) -> phy::ChannelHeader {
    phy::ChannelHeader::new(
        match h.band {
            0 => phy::ChannelBand::Rfu0,
            1 => phy::ChannelBand::Rfu1,
            2 => phy::ChannelBand::Band433,
            3 => phy::ChannelBand::Band868,
            _ => phy::ChannelBand::Band915,
        },
        match h.class {
            0 => phy::ChannelClass::LoRate,
            1 => phy::ChannelClass::Lora,
            2 => phy::ChannelClass::NormalRate,
            _ => phy::ChannelClass::HiRate,
        },
        match h.coding {
            0 => phy::ChannelCoding::Pn9,
            1 => phy::ChannelCoding::Rfu,
            2 => phy::ChannelCoding::FecPn9,
            _ => phy::ChannelCoding::Cw,
        },
    )
}

pub fn chan(c: &m::Chan) -> phy::Channel {
    phy::Channel { header: chan_hdr(&c.h), index: c.index }
}

pub fn d7status(s: &m::D7Status) -> ses::Dash7InterfaceStatus {
    ses::Dash7InterfaceStatus {
        channel: chan(&s.chan),
        rx_level: s.rx,
        link_budget: s.lb,
        target_rx_level: s.target,
        nls: s.nls,
        missed: s.missed,
        retry: s.retry,
        unicast: s.unicast,
        fifo_token: s.fifo,
        sequence_number: s.seq,
        response_timeout: vi(&s.timeout),
        addressee: addressee(&s.from),
    }
}

pub fn ifstatus(s: &m::IfStatus) -> ses::InterfaceStatus {
    match s {
        m::IfStatus::Host => ses::InterfaceStatus::Host,
        m::IfStatus::Serial => ses::InterfaceStatus::Serial,
        m::IfStatus::D7(s) => ses::InterfaceStatus::Dash7(d7status(s)),
        m::IfStatus::Other(_, d) => ses::InterfaceStatus::Other(d.clone()),
    }
}

fn qos(x: &m::Qos) -> ses::QoS {
    ses::QoS {
        stop_on_error: x.stop,
        record: x.record,
        retry_mode: match x.retry {
            0 => ses::RetryMode::No,
            1 => ses::RetryMode::OneshotRetry,
            2 => ses::RetryMode::FifoFast,
            3 => ses::RetryMode::FifoSlow,
            4 => ses::RetryMode::SingleFast,
            5 => ses::RetryMode::SingleSlow,
            6 => ses::RetryMode::OneshotSticky,
            _ => ses::RetryMode::Rfu,
        },
        response_mode: match x.resp {
            0 => ses::ResponseMode::No,
            1 => ses::ResponseMode::All,
            2 => ses::ResponseMode::Any,
            4 => ses::ResponseMode::NoRepeat,
            5 => ses::ResponseMode::OnError,
            _ => ses::ResponseMode::Preferred,
        },
    }
}

pub fn d7conf(c: &m::D7Conf) -> itf::Dash7InterfaceConfiguration {
    itf::Dash7InterfaceConfiguration {
        qos: qos(&c.qos),
        dormant_session_timeout: vi(&c.dormant),
        #[cfg(not(feature = "subiot"))]
        execution_delay_timeout: vi(&c.exec),
        addressee: addressee(&c.to),
    }
}

fn lora(b: &m::LoraBase) -> itf::LoRaWANInterfaceConfiguration {
    itf::LoRaWANInterfaceConfiguration {
        adr_enabled: b.adr,
        request_ack: b.ack,
        application_port: b.port,
        data_rate: b.rate,
    }
}

pub fn ifconf(c: &m::IfConf) -> itf::InterfaceConfiguration {
    use itf::InterfaceConfiguration as I;
    match c {
        m::IfConf::Host => I::Host,
        m::IfConf::Serial => I::Serial,
        m::IfConf::Abp { base, nsk, ask, dev, net } => I::LoRaWanABP(itf::LoRaWANABPInterfaceConfiguration {
            base: lora(base),
            network_session_key: nsk.clone(),
            app_session_key: ask.clone(),
            device_address: *dev,
            network_id: *net,
        }),
        m::IfConf::Otaa { base, dev, app, key } => I::LoRaWanOTAA(itf::LoRaWANOTAAInterfaceConfiguration {
            base: lora(base),
            device_eui: dev.clone(),
            app_eui: app.clone(),
            app_key: key.clone(),
        }),
        m::IfConf::D7(c) => I::Dash7(d7conf(c)),
        m::IfConf::Other(id) => I::Unknown(*id),
    }
}

pub fn file(x: &m::File) -> f::File {
    use f::File as F;
    match x {
        m::File::Profile(n, p) => {
            let profile = link::AccessProfile {
                channel_header: chan_hdr(&p.h),
                sub_profiles: p
                    .subs
                    .map(|(bitmap, period)| SubProfile { subband_bitmap: bitmap, scan_automation_period: vi(&period) }),
                sub_bands: p.bands.map(|(a, b, eirp, cca, duty)| phy::SubBand {
                    channel_index_start: a,
                    channel_index_end: b,
                    eirp,
                    clear_channel_assessment: cca,
                    duty,
                }),
            };
            match n {
                0 => F::AccessProfile00(f::AccessProfile { profile }),
                1 => F::AccessProfile01(f::AccessProfile { profile }),
                2 => F::AccessProfile02(f::AccessProfile { profile }),
                3 => F::AccessProfile03(f::AccessProfile { profile }),
                4 => F::AccessProfile04(f::AccessProfile { profile }),
                5 => F::AccessProfile05(f::AccessProfile { profile }),
                6 => F::AccessProfile06(f::AccessProfile { profile }),
                7 => F::AccessProfile07(f::AccessProfile { profile }),
                8 => F::AccessProfile08(f::AccessProfile { profile }),
                9 => F::AccessProfile09(f::AccessProfile { profile }),
                10 => F::AccessProfile10(f::AccessProfile { profile }),
                11 => F::AccessProfile11(f::AccessProfile { profile }),
                12 => F::AccessProfile12(f::AccessProfile { profile }),
                13 => F::AccessProfile13(f::AccessProfile { profile }),
                _ => F::AccessProfile14(f::AccessProfile { profile }),
            }
        }
        m::File::UId(v) => F::UId(Address::UId(*v)),
        m::File::Factory(x) => F::FactorySettings(f::FactorySettings {
            gain: x.gain,
            rx_bw_low_rate: x.rates[0],
            rx_bw_normal_rate: x.rates[1],
            rx_bw_high_rate: x.rates[2],
            bitrate_lo_rate: x.rates[3],
            fdev_lo_rate: x.rates[4],
            bitrate_normal_rate: x.rates[5],
            fdev_normal_rate: x.rates[6],
            bitrate_hi_rate: x.rates[7],
            fdev_hi_rate: x.rates[8],
            preamble_size_lo_rate: x.small[0],
            preamble_size_normal_rate: x.small[1],
            preamble_size_hi_rate: x.small[2],
            preamble_detector_size_lo_rate: x.small[3],
            preamble_detector_size_normal_rate: x.small[4],
            preamble_detector_size_hi_rate: x.small[5],
            preamble_tol_lo_rate: x.small[6],
            preamble_tol_normal_rate: x.small[7],
            preamble_tol_hi_rate: x.small[8],
            rssi_smoothing: x.small[9],
            rssi_offset: x.small[10],
            lora_bw: x.lora_bw,
            lora_sf: x.lora_sf,
            gaussian: x.gaussian,
            paramp: x.paramp,
        }),
        m::File::Firmware { major, minor, name, sha } => F::FirmwareVersion(f::FirmwareVersion {
            major: *major,
            minor: *minor,
            application_name: String::from_utf8(name.clone()).expect("model"),
            git_sha1: String::from_utf8(sha.clone()).expect("model"),
        }),
        m::File::Eng { mode, flags, timeout, chan: c, eirp } => F::EngineeringMode(f::EngineeringMode {
            mode: match mode {
                0 => f::EngineeringModeMethod::Off,
                1 => f::EngineeringModeMethod::ContTx,
                2 => f::EngineeringModeMethod::TransientTx,
                3 => f::EngineeringModeMethod::PerRx,
                _ => f::EngineeringModeMethod::PerTx,
            },
            flags: *flags,
            timeout: *timeout,
            channel: chan(c),
            eirp: *eirp,
        }),
        m::File::VId(v) => F::VId(Address::VId(*v)),
        m::File::Phy { up, rx, tx, duty, list } => F::PhyStatus(f::PhyStatus::new(
            *up,
            *rx,
            *tx,
            *duty,
            list.iter()
                .map(|(band, bw, index, noise)| phy::ChannelStatus {
                    identifier: phy::ChannelStatusIdentifier {
                        channel_band: chan_hdr(&m::ChanHdr { band: *band, class: 0, coding: 0 }).channel_band,
                        bandwidth: if *bw == 0 { phy::Bandwidth::KHz200 } else { phy::Bandwidth::KHz25 },
                        index: *index,
                    },
                    noise_floor: *noise,
                })
                .collect(),
        )),
        m::File::DllConf { ac, lq, nf, rx, tx } => F::DllConfig(f::DllConfig {
            ac: *ac,
            lq_filter: *lq,
            nf_ctrl: *nf,
            rx_nf_method_parameter: *rx,
            tx_nf_method_parameter: *tx,
        }),
        m::File::DllStatus { level, budget, noise, h, index, ratio, scans, timeouts } => F::DllStatus(f::DllStatus {
            last_rx_packet_level: *level,
            last_rx_packet_link_budget: *budget,
            noise_floor: *noise,
            channel_header: chan_hdr(h),
            channel_index: *index,
            scan_timeout_ratio: *ratio,
            scan_count: *scans,
            scan_timeout_count: *timeouts,
        }),
        m::File::Key(k) => F::NwlSecurityKey(f::SecurityKey { key: u128::from_le_bytes(*k) }),
        m::File::Raw(d) => F::Other(d.clone()),
    }
}

fn off(o: &m::Off) -> op::FileOffset {
    op::FileOffset { file_id: o.0, offset: o.1.into() }
}

pub fn filehdr(h: &m::FileHdr) -> dash7::data::FileHeader {
    use dash7::data as d;
    let user = |p: u8| d::UserPermissions { read: p & 4 > 0, write: p & 2 > 0, executable: p & 1 > 0 };
    d::FileHeader {
        permissions: d::FilePermissions {
            encrypted: h.perm & 0x80 > 0,
            executable: h.perm & 0x40 > 0,
            user: user(h.perm >> 3),
            guest: user(h.perm),
        },
        properties: d::FileProperties {
            enabled: h.enabled,
            condition: match h.cond {
                0 => d::ActionCondition::List,
                1 => d::ActionCondition::Read,
                2 => d::ActionCondition::Write,
                _ => d::ActionCondition::WriteFlush,
            },
            storage_class: match h.class {
                0 => d::StorageClass::Transient,
                1 => d::StorageClass::Volatile,
                2 => d::StorageClass::Restorable,
                _ => d::StorageClass::Permanent,
            },
        },
        alp_command_file_id: h.alp,
        interface_file_id: h.itf,
        file_size: h.size,
        allocated_size: h.alloc,
    }
}

fn arith(signed: bool, cmp: u8) -> q::ArithmeticQueryParams {
    use q::ArithmeticComparisonType as T;
    q::ArithmeticQueryParams {
        signed,
        comparison_type: match cmp {
            0 => T::Inequal,
            1 => T::Equal,
            2 => T::LessThan,
            3 => T::LessThanOrEqual,
            4 => T::GreaterThan,
            _ => T::GreaterThanOrEqual,
        },
    }
}

/// None if a user of the library cannot build it
pub fn query(x: &m::Query) -> Option<q::Query> {
    use q::Query as Q;
    Some(match x {
        m::Query::NonVoid { len, file } => Q::NonVoid(q::NonVoid { length: (*len).into(), file: off(file) }),
        m::Query::Zero { masked, signed, cmp, len, mask, file } => {
            if *masked != !mask.is_empty() || *len as usize != mask.len() {
                return None;
            }
            Q::ComparisonWithZero(q::ComparisonWithZero::new(arith(*signed, *cmp), mask.clone(), off(file)))
        }
        m::Query::Value { masked, signed, cmp, mask, value, file } => {
            if *masked != !mask.is_empty() {
                return None;
            }
            Q::ComparisonWithValue(q::ComparisonWithValue::new(
                arith(*signed, *cmp),
                mask.clone(),
                value.clone(),
                off(file),
            ))
        }
        m::Query::Other { masked, signed, cmp, len, mask, file1, file2 } => {
            if *masked != !mask.is_empty() {
                return None;
            }
            let mut x =
                q::ComparisonWithOtherFile::new(arith(*signed, *cmp), mask.clone(), off(file1), off(file2));
            x.length = (*len).into();
            Q::ComparisonWithOtherFile(x)
        }
        m::Query::Bitmap { masked, signed, cmp, start, stop, mask, file } => {
            if *masked != !mask.is_empty() {
                return None;
            }
            Q::BitmapRangeComparison(q::BitmapRangeComparison::new(
                q::RangeQueryParams {
                    signed: *signed,
                    comparison_type: if *cmp == 0 {
                        q::RangeComparisonType::NotInRange
                    } else {
                        q::RangeComparisonType::InRange
                    },
                },
                *start,
                *stop,
                mask.clone(),
                off(file),
            ))
        }
        m::Query::Token { masked, errors, mask, value, file } => {
            if *masked != !mask.is_empty() {
                return None;
            }
            Q::StringTokenSearch(q::StringTokenSearch::new(*errors, mask.clone(), value.clone(), off(file)))
        }
    })
}

#[cfg(feature = "wizzilab")]
pub fn final_code(c: u8) -> ses::InterfaceFinalStatusCode {
    use ses::InterfaceFinalStatusCode as C;
    match c {
        0 => C::No,
        0xFF => C::Busy,
        0xFE => C::BadParam,
        0xFD => C::DutyCycle,
        0xFC => C::CcaTo,
        0xFB => C::NlsKey,
        0xFA => C::TxUdf,
        0xF9 => C::RxOvf,
        0xF8 => C::RxCrc,
        0xF7 => C::Abort,
        0xF6 => C::NoAck,
        0xF5 => C::RxTo,
        0xF4 => C::NotSupportedBand,
        0xF3 => C::NotSupportedChannel,
        0xF2 => C::NotSupportedModulation,
        0xF1 => C::VoidChannelList,
        0xF0 => C::NotSupportedLen,
        0xEF => C::ParamOvf,
        0xEE => C::VidWoNls,
        0xED => C::TxSched,
        0xEC => C::RxSched,
        0xEB => C::BufferOvf,
        _ => C::NotSupportedMode,
    }
}

fn hd(h: &m::Hd) -> op::ActionHeader {
    op::ActionHeader::new(h.group, h.resp)
}

/// None if a user of the library cannot build it
pub fn act(a: &Act) -> Option<Action> {
    Some(match a {
        Act::Nop(h) => Action::Nop(op::Nop { header: hd(h), opcode: OpCode::NOP }),
        Act::ReadData(h, o, len) => Action::ReadFileData(op::ReadFileData {
            header: hd(h),
            opcode: OpCode::READ_FILE_DATA,
            offset: off(o),
            length: (*len).into(),
        }),
        Act::OnFile(code, h, id) => {
            let x = op::FileId { header: hd(h), opcode: OpCode(*code), file_id: *id };
            match code {
                2 => Action::ReadFileProperties(x),
                16 => Action::ExistFile(x),
                18 => Action::DeleteFile(x),
                19 => Action::RestoreFile(x),
                20 => Action::FlushFile(x),
                _ => Action::ExecuteFile(x),
            }
        }
        Act::Data(code, h, o, x) => {
            let x = op::FileData::new(hd(h), off(o), file(x), OpCode(*code));
            match code {
                4 => Action::WriteFileData(x),
                5 => Action::WriteFileDataFlush(x),
                _ => Action::ReturnFileData(x),
            }
        }
        Act::Props(code, h, id, x) => {
            let x = op::FileProperties {
                header: hd(h),
                opcode: OpCode(*code),
                file_id: *id,
                file_header: filehdr(x),
            };
            match code {
                6 => Action::WriteFileProperties(x),
                17 => Action::CreateNewFile(x),
                _ => Action::ReturnFileProperties(x),
            }
        }
        Act::Query(code, h, x) => {
            let x = op::ActionQuery { header: hd(h), opcode: OpCode(*code), query: query(x)? };
            match code {
                8 => Action::ActionQuery(x),
                9 => Action::BreakQuery(x),
                _ => Action::VerifyChecksum(x),
            }
        }
        Act::Permission(h, level, key) => Action::PermissionRequest(op::PermissionRequest {
            header: hd(h),
            opcode: OpCode::PERMISSION_REQUEST,
            level: if *level == 0 { op::PermissionLevel::User } else { op::PermissionLevel::Root },
            permission: op::Permission::Dash7(*key),
        }),
        Act::Copy(h, src, dst) => Action::CopyFile(op::CopyFile {
            header: hd(h),
            opcode: OpCode::COPY_FILE,
            src_file_id: *src,
            dst_file_id: *dst,
        }),
        Act::StatusAction(id, code) => Action::Status(
            op::Status::Action(op::ActionStatus { action_id: *id, status: self::code(*code) }).into(),
        ),
        Act::StatusIf(m::IfStatus::Other(..)) => return None,
        Act::StatusIf(s) => {
            let s: op::InterfaceStatusOperation = ifstatus(s).into();
            let s: op::Status = s.into();
            Action::Status(s.into())
        }
        #[cfg(feature = "wizzilab")]
        Act::StatusFinalD7(code) => {
            let s: op::InterfaceFinalStatusOperation = ses::InterfaceFinalStatus::Dash7(final_code(*code)).into();
            let s: op::Status = s.into();
            Action::Status(s.into())
        }
        #[cfg(feature = "wizzilab")]
        Act::StatusFinalOther(id, d) => {
            let s = op::InterfaceFinalStatusOperation {
                interface_id: *id,
                status: ses::InterfaceFinalStatus::Other(d.clone()),
            };
            let s: op::Status = s.into();
            Action::Status(s.into())
        }
        #[cfg(not(feature = "wizzilab"))]
        Act::StatusFinalD7(_) | Act::StatusFinalOther(..) => return None,
        Act::TxD7(_) | Act::TxOther(..) => return None,
        Act::ResponseTag { eop, err, id } => Action::ResponseTag(op::ResponseTag {
            header: op::ResponseTagHeader { end_of_packet: *eop, error: *err },
            opcode: OpCode::RESPONSE_TAG,
            id: *id,
        }),
        Act::Chunk(s) => Action::Chunk(
            match s {
                0 => op::ChunkStep::Continue,
                1 => op::ChunkStep::Start,
                2 => op::ChunkStep::End,
                _ => op::ChunkStep::StartEnd,
            }
            .into(),
        ),
        Act::Logic(l) => Action::Logic(op::Logic {
            logic: match l {
                0 => op::LogicOp::Or,
                1 => op::LogicOp::Xor,
                2 => op::LogicOp::Nor,
                _ => op::LogicOp::Nand,
            },
            opcode: OpCode::LOGIC,
        }),
        Act::Forward(resp, c) => Action::Forward(op::Forward::new(*resp, ifconf(c))),
        Act::Indirect(resp, c) => Action::IndirectForward(op::IndirectForward::new(
            *resp,
            c.as_ref().map(|c| match c {
                m::IndIf::Host => itf::IndirectInterface::Host,
                m::IndIf::Serial => itf::IndirectInterface::Serial,
                m::IndIf::D7(a) => itf::IndirectInterface::Dash7(addressee(a)),
                m::IndIf::Other(id) => itf::IndirectInterface::Unknown(*id),
            }),
        )),
        Act::RequestTag { eop, id } => Action::RequestTag(op::RequestTag {
            header: op::RequestTagHeader { end_of_packet: *eop },
            opcode: OpCode::REQUEST_TAG,
            id: *id,
        }),
        Act::Extension(h) => Action::Extension(op::Extension { header: hd(h), opcode: OpCode::EXTENSION }),
    })
}

pub fn cmd(acts: &[Act]) -> Option<Command> {
    Some(Command::new(acts.iter().map(act).collect::<Option<Vec<_>>>()?))
}

/// Which operation it is follows from the action, whatever a user left in the field
pub fn relabel(a: &mut Action, code: u8) {
    let code = OpCode(code);
    match a {
        Action::Nop(x) => x.opcode = code,
        Action::ReadFileData(x) => x.opcode = code,
        Action::WriteFileData(x) | Action::WriteFileDataFlush(x) | Action::ReturnFileData(x) => x.opcode = code,
        Action::WriteFileProperties(x) | Action::CreateNewFile(x) | Action::ReturnFileProperties(x) => x.opcode = code,
        Action::ActionQuery(x) | Action::BreakQuery(x) | Action::VerifyChecksum(x) => x.opcode = code,
        Action::PermissionRequest(x) => x.opcode = code,
        Action::ReadFileProperties(x)
        | Action::ExistFile(x)
        | Action::DeleteFile(x)
        | Action::RestoreFile(x)
        | Action::FlushFile(x)
        | Action::ExecuteFile(x) => x.opcode = code,
        Action::CopyFile(x) => x.opcode = code,
        Action::Status(x) => x.opcode = code,
        Action::ResponseTag(x) => x.opcode = code,
        Action::Chunk(x) => x.opcode = code,
        Action::Logic(x) => x.opcode = code,
        Action::Forward(x) => x.opcode = code,
        Action::IndirectForward(x) => x.opcode = code,
        Action::RequestTag(x) => x.opcode = code,
        Action::Extension(x) => x.opcode = code,
        #[cfg(feature = "wizzilab")]
        Action::TxStatus(x) => x.opcode = code,
    }
}

/// What a user sees of a transmission status, which can only be received: whether it is the one of the reference.
/// None if it is something else.
#[cfg(feature = "wizzilab")]
pub fn same_tx(lib: &Action, a: &Act) -> Option<bool> {
    let Action::TxStatus(t) = lib else { return matches!(a, Act::TxD7(_) | Act::TxOther(..)).then_some(false) };
    let op::TxStatus::Interface(i) = &t.status;
    Some(match (a, &i.status) {
        (Act::TxD7(x), ses::InterfaceTxStatus::Dash7(s)) => {
            i.interface_id == 0xD7
                && s.channel == chan(&x.chan)
                && s.target_rx_level == x.target
                && s.error == final_code(x.error)
                && s.lts == x.lts
                && s.addressee == addressee(&x.to)
        }
        (Act::TxOther(id, d), ses::InterfaceTxStatus::Other(s)) => i.interface_id == *id && s == d,
        _ => false,
    })
}

#[cfg(not(feature = "wizzilab"))]
pub fn same_tx(_: &Action, _: &Act) -> Option<bool> {
    None
}
