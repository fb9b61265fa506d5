//! Runs the check in a child process, so that an abort (stack overflow, panic
//! while panicking) is observed instead of taking the verdict with it.

use std::cell::Cell;
use std::io::{Read, Write};
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use crate::runner::js;

thread_local! {
    static STAGE: Cell<[u8; 40]> = const { Cell::new([0; 40]) };
    static IDX: Cell<u64> = const { Cell::new(0) };
    static IN_LIB: Cell<u32> = const { Cell::new(0) };
}

extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
}

pub fn set_stage(name: &str) {
    let mut b = [0u8; 40];
    for (d, s) in b.iter_mut().zip(name.bytes()) { *d = s }
    STAGE.with(|s| s.set(b));
}
pub fn set_case(idx: u64) {
    IDX.with(|i| i.set(idx));
    IN_LIB.with(|l| l.set(0));
}

/// Marks a call into the library under test.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    IN_LIB.with(|l| l.set(l.get() + 1));
    let r = f();
    IN_LIB.with(|l| l.set(l.get().saturating_sub(1)));
    r
}

/// No call into the library is going on (after one was left by a panic).
pub fn left() { IN_LIB.with(|l| l.set(0)) }

extern "C" fn on_abort(_sig: i32) {
    let mut b = [0u8; 160];
    let mut n = 0;
    let mut put = |s: &[u8]| for &c in s { if c != 0 && n < b.len() { b[n] = c; n += 1 } };
    put(b"\nKULMON-ABORT stage=");
    put(&STAGE.with(Cell::get));
    put(b" case=");
    let mut digits = [0u8; 20];
    let (mut i, mut x) = (20, IDX.with(Cell::get));
    loop { i -= 1; digits[i] = b'0' + (x % 10) as u8; x /= 10; if x == 0 { break } }
    put(&digits[i..]);
    put(if IN_LIB.with(Cell::get) > 0 { b" in=library\n" } else { b" in=harness\n" });
    // SAFETY: plain write of an initialised stack buffer; async-signal-safe.
    unsafe { write(2, b.as_ptr(), n); }
}

pub fn install_abort_hook() {
    // SAFETY: installs a handler that only calls write.
    unsafe { signal(6, on_abort as *const () as usize); }
}



/// The parent's side.  Returns the exit code of the check.
pub fn parent(id: &str, seed: u64, quick: bool, replay_only: bool, verif: &Path) -> i32 {
    let start = Instant::now();
    let exe = std::env::current_exe().expect("own path");
    let mut child = Command::new(exe).args(std::env::args_os().skip(1)).env("KULMON_CHILD", "1")
        .stderr(Stdio::piped()).spawn().expect("spawn child");
    let mut err = child.stderr.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut all = Vec::new();
        let mut buf = [0u8; 4096];
        while let Ok(n) = err.read(&mut buf) {
            if n == 0 { break }
            let _ = std::io::stderr().write_all(&buf[..n]);
            if all.len() < 1 << 20 { all.extend_from_slice(&buf[..n]) }
        }
        String::from_utf8_lossy(&all).into_owned()
    });
    let limit = Duration::from_secs(if quick { 600 } else { 860 });
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {}
            Err(e) => { println!("CHECK-ERROR {id}: {e}"); return 2 }
        }
        if start.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            println!("CHECK-INCONCLUSIVE {id}: stopped after {} s without a verdict", limit.as_secs());
            return 3;
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let text = reader.join().unwrap_or_default();
    if let Some(c) = status.code() { return if matches!(c, 0..=3) { c } else { println!("CHECK-ERROR {id}: exit {c}"); 2 } }
    let overflow = text.contains("has overflowed its stack");
    let line = text.lines().find(|l| l.starts_with("KULMON-ABORT")).unwrap_or("");
    let in_lib = line.ends_with("in=library");
    let oom = text.contains("memory allocation of");
    if !in_lib || oom {
        println!("CHECK-ERROR {id}: the run ended with {status} ({line}); not attributable to the code under test");
        return 2;
    }
    let what = if overflow { "the stack overflowed inside a call of the code under test" } else { "a call of the code under test aborted the process" };
    let field = |k: &str| line.split_whitespace().find_map(|w| w.strip_prefix(k)).unwrap_or("?").to_string();
    let (stage, case) = (field("stage="), field("case="));
    let dir = verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{seed}-abort-{case}.txt"));
    let tier = if quick { "quick" } else { "thorough" };
    let tail: String = { let v: Vec<&str> = text.lines().collect(); v[v.len().saturating_sub(20)..].join("\n") };
    let _ = std::fs::write(&path, format!("property {id}\nstage {stage}\ncase {case}\nwhat failed: {what}\n\n{tail}\n\nreplay: VERIF_SEED={seed} VERIF_TIER={tier} bash check.sh {id} --only '{stage}:{case}'\n"));
    if !replay_only {
        let ev = verif.join("evidence");
        let _ = std::fs::create_dir_all(&ev);
        let j = format!("{{\n \"property\": {}, \"tier\": \"{tier}\", \"seed\": {seed}, \"level\": \"exploration\",\n \"coverage\": {{\"evaluations\": 1, \"distinct_nontrivial\": 1, \"rule\": \"the run was ended by an abort inside the code under test; only that execution is counted\", \"samples\": [{}]}},\n \"assumptions\": [], \"wall_s\": {:.2}, \"violations\": 1\n}}\n",
                        js(id), js(line), start.elapsed().as_secs_f64());
        let _ = std::fs::write(ev.join(format!("{id}.json")), j);
    }
    println!("{what}: stage {stage} case {case}\nVIOLATION property={id} replay={}", path.display());
    1
}
