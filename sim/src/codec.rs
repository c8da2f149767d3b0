//! Calls into the library, the way its users make them

use crate::rt::{guard, Res, Violation};
use dash7::app::action::Action;
use dash7::app::command::Command;
use deku::prelude::*;
use deku::writer::Writer;
use std::io::{Read, Seek, Write};

pub type L<T> = Result<T, DekuError>;

pub fn encode(cmd: &Command) -> Res<L<Vec<u8>>> {
    guard("Command::to_bytes", || cmd.to_bytes())
}

pub fn encode_ok(cmd: &Command) -> Res<Vec<u8>> {
    encode(cmd)?.map_err(|e| Violation { class: "encode".into(), msg: format!("cannot encode {cmd:?}: {e:?}") })
}

pub fn encode_to<W: Write + Seek>(cmd: &Command, out: &mut W) -> Res<L<()>> {
    guard("Command::to_writer", || {
        let mut w = Writer::new(out);
        DekuWriter::to_writer(cmd, &mut w, 0)?;
        w.finalize()
    })
}

pub fn encode_act_to<W: Write + Seek>(a: &Action, out: &mut W) -> Res<L<()>> {
    guard("Action::to_writer", || {
        let mut w = Writer::new(out);
        DekuWriter::to_writer(a, &mut w, ())?;
        w.finalize()
    })
}

pub fn decode(data: &[u8]) -> Res<L<Command>> {
    guard("Command::try_from", || Command::try_from(data))
}

pub fn decode_from<R: Read + Seek>(r: &mut R) -> Res<L<(usize, Command)>> {
    guard("Command::from_reader", || Command::from_reader((r, 0)))
}

pub fn decode_act_from<R: Read + Seek>(r: &mut R) -> Res<L<(usize, Action)>> {
    guard("Action::from_reader", || <Action as DekuContainerRead>::from_reader((r, 0)))
}
