//! Runs the code in /repo on generated or model-produced cases and records,
//! for each one, the input and everything observable about the outcome, as one
//! line of JSON.  The lines are then judged by TLC against the TLA+
//! specification in /verif/spec; nothing here decides whether an outcome is
//! right.
pub mod dev;
pub mod ext4;
pub mod md;
pub mod members;
pub mod raid;
pub mod util;
pub mod world;

use serde_json::{json, Value};
use std::io::{BufWriter, Write};
use util::*;

/// Whether a case is running; a panic at any other time is the harness's own.
static RUNNING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn main_with(cases: impl FnOnce(&Ctx) -> Cases) {
    let mut args = std::env::args().skip(1);
    let mut ctx = Ctx {
        seed: 1,
        thorough: false,
        count: 0,
        scen: None,
        work: std::env::temp_dir(),
        cli: None,
        shim: None,
    };
    let mut out = None;
    let mut skip = 0usize;
    let mut describe = None;
    let mut only: Option<usize> = None;
    let mut limit_s = 20u32;
    while let Some(a) = args.next() {
        let mut val = || args.next().expect("value");
        match a.as_str() {
            "--seed" => ctx.seed = val().parse().unwrap(),
            "--tier" => ctx.thorough = val() == "thorough",
            "--count" => ctx.count = val().parse().unwrap(),
            "--scen" => ctx.scen = Some(val().into()),
            "--work" => ctx.work = val().into(),
            "--cli" => ctx.cli = Some(val().into()),
            "--shim" => ctx.shim = Some(val().into()),
            "--out" => out = Some(val()),
            "--skip" => skip = val().parse().unwrap(),
            "--describe" => describe = Some(val().parse::<usize>().unwrap()),
            "--only" => only = Some(val().parse().unwrap()),
            "--limit" => limit_s = val().parse().unwrap(),
            _ => panic!("unknown argument {a}"),
        }
    }
    unsafe {
        let lim = libc::rlimit {
            rlim_cur: 4 << 30,
            rlim_max: 4 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    std::panic::set_hook(Box::new(|info| {
        if !RUNNING.load(std::sync::atomic::Ordering::Relaxed) {
            eprintln!("{info}");
        }
    }));
    let cases = cases(&ctx);
    if let Some(k) = describe {
        let case = cases.into_iter().nth(k).expect("case");
        println!("{}", case.input);
        return;
    }
    let mut w: Box<dyn Write> = match out {
        Some(p) => Box::new(BufWriter::new(
            std::fs::OpenOptions::new()
                .create(true)
                .append(true)
                .open(p)
                .unwrap(),
        )),
        None => Box::new(std::io::stdout()),
    };
    for (k, case) in cases.enumerate() {
        if k < skip || only.is_some_and(|o| o != k) {
            continue;
        }
        let mut line = case.input;
        unsafe { libc::alarm(limit_s) };
        RUNNING.store(true, std::sync::atomic::Ordering::Relaxed);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(case.run));
        RUNNING.store(false, std::sync::atomic::Ordering::Relaxed);
        unsafe { libc::alarm(0) };
        let o = match res {
            Ok(v) => v,
            Err(e) => json!({"s": "panic", "msg": panic_text(&e)}),
        };
        let m: &mut serde_json::Map<String, Value> = line.as_object_mut().unwrap();
        m.insert("out".into(), o);
        m.insert("case".into(), json!(k));
        serde_json::to_writer(&mut w, &line).unwrap();
        w.write_all(b"\n").unwrap();
        // Flushed so that a case which ends the process is identified by the
        // number of complete lines.
        w.flush().unwrap();
    }
}
