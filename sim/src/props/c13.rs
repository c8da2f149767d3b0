//! C13: the command line tool shows what the library reads, and says so if it cannot.

use super::common::*;
use crate::gen::*;
use crate::kinds::*;
use crate::net::mutate;
use crate::rt::*;
use dash7::app::command::Command;
use dash7::file::File;
use dash7::link::{BackgroundFrame, ForegroundFrame};
use std::sync::atomic::{AtomicU64, Ordering};

static RUN: AtomicU64 = AtomicU64::new(0);

/// The text for an input, by the library. None if it cannot be read as that.
fn expected(how: How, data: &[u8]) -> Option<String> {
    let fg = || ForegroundFrame::try_from(data).ok().map(|f| format!("{f:?}\n"));
    let bg = || BackgroundFrame::try_from(data).ok().map(|f| format!("{f:?}\n"));
    let alp = || Command::try_from(data).ok().map(|c| format!("{c}\n"));
    let file = |id: u8| File::from_bytes((data, 0), file_id(id), data.len() as u32).ok().map(|f| format!("{f:?}\n"));
    let any_file = || (0..=0x2Eu8).find_map(file);
    match how {
        How::Any => fg().or_else(bg).or_else(alp).or_else(any_file),
        How::Fg => fg(),
        How::Bg => bg(),
        How::Alp => alp(),
        How::Serial => None,
        How::File(None) => any_file(),
        How::File(Some(id)) => file(id),
    }
}

#[derive(Clone, Copy, Debug)]
enum How {
    Any,
    Fg,
    Bg,
    Alp,
    Serial,
    File(Option<u8>),
}

fn input(w: &World) -> (How, Vec<u8>) {
    let mut how = match w.draw(7) {
        0 | 1 => How::Any,
        2 => How::Alp,
        3 => How::Fg,
        4 => How::Bg,
        5 => How::File(g_bool(w).then(|| if g_bool(w) { g_typed_id(w) } else { g_untyped_id(w) })),
        _ => {
            if w.draw(4) == 0 {
                How::Serial
            } else {
                How::Alp
            }
        }
    };
    let mut data = match how {
        How::Fg => fg_frame(w).0,
        How::Bg => bg_frame(w).0,
        How::File(Some(id)) if crate::model::is_typed(id) => g_typed_file(w, id, &Mix::WIRE).enc(),
        How::File(_) => {
            let n = g_size(w, &Mix::WIRE);
            g_untyped_bytes(w, if let How::File(Some(id)) = how { id } else { 0x40 }, n)
        }
        How::Any => g_item(w, &Mix::WIRE).bytes,
        _ => item_cmd(&g_cmd(w, &Mix::WIRE)).bytes,
    };
    match w.draw(6) {
        0 => {
            mutate(w, &mut data);
            w.fault("fault.corrupt", data.len() as u64);
        }
        1 => how = w.pick(&[How::Any, How::Fg, How::Bg, How::Alp, How::File(None)]),
        2 if g_bool(w) => {
            data.truncate(w.draw(data.len() as u64 + 1) as usize);
            w.fault("fault.truncated", data.len() as u64);
        }
        _ => {}
    }
    // an argument has at most 128 KiB
    data.truncate(20_000);
    (how, data)
}

/// The bytes as someone would type or paste them
fn written(w: &World, data: &[u8]) -> String {
    let style = w.draw(6);
    let mut s = String::new();
    for (i, b) in data.iter().enumerate() {
        match style {
            0 => s.push_str(&format!("{b:02X}")),
            1 => s.push_str(&format!("{b:02x}")),
            2 => s.push_str(&format!("{b:02X} ")),
            3 => s.push_str(&if i % 8 == 7 { format!("{b:02x}\n") } else { format!("{b:02x}\t") }),
            4 => {
                // pasted from a document
                s.push_str(&format!("{b:02X}"));
                s.push(w.pick(&['\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{2003}', '\u{3000}', '\u{2028}', ' ']));
            }
            _ => s.push_str(&w.pick(&[format!("{b:02X}"), format!(" {b:02x}"), format!("{:x} {:X}", b >> 4, b & 15)])),
        }
    }
    s
}

pub fn run(w: &World) -> Res {
    let (how, data) = input(w);
    let mut hex_text = written(w, &data);
    let mut want = guard("library", || expected(how, &data))?;
    if w.chance(1, 12) {
        // a slip of the keyboard
        let bad = w.pick(&[
            "g", "0", "0x", "-", ".", "\u{e9}", "zz", ":", ",", ";", "_", "::", "\\x", "#", "h", "O", "\"", "'", "[", "\u{200b}", "\u{feff}",
        ]);
        let mut at = w.draw(hex_text.len() as u64 + 1) as usize;
        while !hex_text.is_char_boundary(at) {
            at -= 1;
        }
        let mut t = hex_text.clone();
        t.insert_str(at, bad);
        let digits: String = t.chars().filter(|c| !c.is_whitespace()).collect();
        if !t.starts_with('-') && (digits.len() % 2 == 1 || digits.chars().any(|c| !c.is_ascii_hexdigit())) {
            hex_text = t;
            want = None;
            w.count("not hex");
        }
    }
    let mut args: Vec<String> = vec!["parse".into()];
    let long = g_bool(w);
    let t = match how {
        How::Any => None,
        How::Fg => Some(w.pick(&["fg", "foreground"])),
        How::Bg => Some(w.pick(&["bg", "background"])),
        How::Alp => Some(w.pick(&["a", "alp"])),
        How::Serial => Some(w.pick(&["e", "serial"])),
        How::File(_) => Some(w.pick(&["s", "systemfile"])),
    };
    if let Some(t) = t {
        args.push(if long { "--type".into() } else { "-t".into() });
        args.push(t.into());
    }
    if let How::File(Some(id)) = how {
        args.push("-f".into());
        args.push(id.to_string());
    } else if w.chance(1, 10) {
        // of no meaning here, unless files are asked for; and a number that is none is refused
        let id = w.pick(&["0", "32", "255", "256", "-1", "x", ""]);
        if id.parse::<u8>().is_err() {
            want = None;
        }
        if want.is_none() || !matches!(how, How::File(_)) {
            args.push(format!("-f={id}"));
        }
    }
    let at = if g_bool(w) { args.len() } else { 1 };
    args.insert(at, hex_text);
    if w.chance(1, 6) {
        args.insert(0, w.pick(&["-v", "-q", "-vv", "-vvv", "-vvvv", "-qq", "--verbose", "--quiet"]).to_string());
    }
    w.logf(|| format!("args {args:?}"));
    w.note_bytes("input", &data);

    // what happens to its output
    let mut script = String::new();
    let mut errs = String::new();
    let mode = w.draw(4);
    for _ in 0..w.draw(6) {
        script.push(match mode {
            0 => '.',
            1 => w.pick(&['.', 'i', '1', 'h']),
            _ => w.pick(&['.', '.', 'i', '1', 'h', 'n', 'e', 'p', 'a', 'N', 'E', 'P']),
        });
    }
    if w.chance(1, 5) {
        errs = w.pick(&["N", "E", "P", "i", "1", "n"]).into();
    }
    w.logf(|| format!("stdout {script:?}, stderr {errs:?}"));
    let env = |k: &str| std::env::var(k).unwrap_or_else(|_| panic!("{k} is not set"));
    let log = format!("{}/io-{}-{}", env("DASH7_SCRATCH"), std::process::id(), RUN.fetch_add(1, Ordering::Relaxed));
    let out = std::process::Command::new(env("DASH7_CLI"))
        .args(&args)
        .env_clear()
        .env("LD_PRELOAD", env("DASH7_SHIM"))
        .env("IOFAULT_OUT", &script)
        .env("IOFAULT_ERR", &errs)
        .env("IOFAULT_LOG", &log)
        .stdin(std::process::Stdio::null())
        .output()
        .unwrap_or_else(|e| panic!("cannot start the tool: {e}"));
    let calls = std::fs::read_to_string(&log).unwrap_or_default();
    let _ = std::fs::remove_file(&log);
    let mut broken = false;
    for c in calls.chars() {
        match c {
            'i' => w.fault("fault.write_interrupted", 1),
            '1' | 'h' => w.fault("fault.short_write", 1),
            'n' | 'N' => w.fault("fault.disk_full", 1),
            'e' | 'E' => w.fault("fault.write_error", 1),
            'p' | 'P' => w.fault("fault.broken_pipe", 1),
            'a' => w.fault("fault.would_block", 1),
            _ => {}
        }
        broken |= "nepaNEP".contains(c);
    }
    w.mark("calls", calls.len() as u64, broken as u64);
    let stdout = String::from_utf8_lossy(&out.stdout).into_owned();
    let ok = out.status.success();
    use std::os::unix::process::ExitStatusExt;
    ensure!(out.status.signal().is_none(), "killed", "{args:?}: the tool died: {:?}", out.status);
    match &want {
        Some(text) if ok => {
            ensure!(
                stdout == *text,
                "output",
                "{args:?} with output {script:?} succeeded, but shows {stdout:?} instead of {text:?}"
            );
            w.count("shown");
        }
        Some(text) => {
            ensure!(broken, "refused", "{args:?} with output {script:?} failed ({:?}), but is {text:?}", out.status);
            ensure!(text.starts_with(&stdout), "output", "{args:?} failed, and shows {stdout:?}, which is not the start of {text:?}");
            w.count("failure reported");
        }
        None => {
            ensure!(!ok, "accepted", "{args:?} cannot be read, but the tool succeeded with {stdout:?}");
            ensure!(stdout.is_empty(), "output", "{args:?} cannot be read, but the tool shows {stdout:?}");
            w.count("refused");
        }
    }
    let _ = is_incomplete;
    Ok(())
}
