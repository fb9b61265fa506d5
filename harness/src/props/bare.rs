//! The core crate on its own (C13): heap requests counted around everything it
//! does, and the same program run without standard library and allocator.

use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::{Read, Write as _};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[path = "../../../bare/src/run.rs"]
mod run;

use crate::configs::char_starts;
use crate::gen;
use crate::heap;
use crate::model::{expected, Act, Delims, Mac};
use crate::obs::*;
use crate::rng::{hash_str, mix, Rng};
use crate::runner::*;
use crate::wrap::lib;

/// The macros bound in `run`, for the model.
fn macs() -> Vec<Mac> {
    let m = |key: T, raw: bool, act: Act| Mac { key, raw, act };
    vec![
        m(T::text("rm"), false, Act::Remove),
        m(T::text("raw"), true, Act::Operands),
        m(T::text("ops"), false, Act::Operands),
        m(T::text("bad"), false, Act::Fail(7)),
        m(T::text("v"), false, Act::Extra(5)),
        m(T::text("re"), false, Act::Rebuild),
        m(T::comb(T::text("f"), T::EmptyList), true, Act::Operands),
        m(T::EmptyNest, false, Act::Rebuild),
        m(T::List(vec![T::Extra(5)], None), false, Act::Extra(5)),
    ]
}

fn put_text(x: &Tx, st: &[usize], s: &mut String) {
    s.push('"');
    for (c, p) in x.s.chars().zip(&x.cpos) { let _ = write!(s, "{}@{}/{} ", u32::from(c), p, st[*p]); }
    s.push('"');
}
fn put(t: &T, st: &[usize], s: &mut String) {
    match t {
        T::Text(x) => put_text(x, st, s),
        T::EmptyNest => s.push_str("{}"),
        T::EmptyList => s.push_str("()"),
        T::Extra(n) => { let _ = write!(s, "#{n}"); }
        T::Comb(a, b) => { s.push('{'); put(a, st, s); s.push('|'); put(b, st, s); s.push('}') }
        T::List(v, tail) => {
            s.push('(');
            for e in v { put(e, st, s); s.push(',') }
            if let Some(t) = tail { s.push('.'); put(t, st, s) }
            s.push(')');
        }
    }
}
fn put_item(i: &Item, st: &[usize], s: &mut String) {
    s.push_str("\nitem ");
    match i {
        Item::Ok(t) => put(t, st, s),
        Item::Unbalanced { cp, .. } => { let _ = write!(s, "unbalanced@{}/{}", cp, st[*cp]); }
        Item::Missing => s.push_str("missing"),
        Item::Macro(n) => { let _ = write!(s, "macro {n}"); }
        other => { let _ = write!(s, "{other:?}"); }
    }
}

/// What `run` must write when memory suffices, without the last line.
fn should_write(src: &str, mode: u8) -> String {
    let d = Delims::default_set();
    let cs: Vec<char> = src.chars().collect();
    let st = char_starts(src);
    let all = macs();
    let bound: &[Mac] = if matches!(mode, 0 | 3) { &[] } else { &all };
    let mut s = String::new();
    if mode == 4 {
        let mut cut = src.len() / 2;
        while !src.is_char_boundary(cut) { cut -= 1 }
        let half: Vec<char> = src[..cut].chars().collect();
        for i in &expected(&half, &d, bound).items { put_item(i, &st, &mut s) }
    }
    let mut items = expected(&cs, &d, bound).items;
    if mode == 2 {
        if let Some(k) = items.iter().position(Item::is_err) { items.truncate(k + 1) }
    }
    for i in &items { put_item(i, &st, &mut s) }
    items.truncate(run::KEPT);
    for (i, it) in items.iter().enumerate() {
        let Item::Ok(t) = it else { continue };
        let first = items[..i].iter().position(|o| matches!(o, Item::Ok(u) if u.same(t))).unwrap_or(i);
        let _ = write!(s, "\neq {first}");
    }
    let texts: Vec<&Tx> = items.iter().filter_map(|i| match i { Item::Ok(T::Text(x)) => Some(x), _ => None }).collect();
    for (i, x) in texts.iter().enumerate() {
        if i > 0 {
            let o = texts[i - 1].s.cmp(&x.s);
            s.push_str(match o { std::cmp::Ordering::Less => "\ncmp <", std::cmp::Ordering::Equal => "\ncmp = eq", std::cmp::Ordering::Greater => "\ncmp >" });
        }
        let mut n = x.s.len().min(11);
        while !x.s.is_char_boundary(n) { n -= 1 }
        s.push_str(if n == x.s.len() { "\nexport all " } else { "\nexport part " });
        for b in x.s[..n].bytes() { let _ = write!(s, "{b} "); }
        if x.s.is_empty() { s.push_str("empty") }
    }
    if texts.len() >= 2 {
        s.push_str("\nconcat ");
        let mut both = Tx::default();
        for x in &texts[..2] { for (c, p) in x.s.chars().zip(&x.cpos) { both.push(c, *p) } }
        put_text(&both, &st, &mut s);
    }
    s
}

thread_local! { static BUF: RefCell<Vec<u8>> = RefCell::new(vec![0; 1 << 20]); }

/// Runs it here; returns what it wrote and how often it asked for heap.
fn hosted(src: &str, mode: u8, nodes: usize) -> (String, u64) {
    BUF.with(|b| {
        let mut b = b.borrow_mut();
        let mut out = run::Out { buf: &mut b[..], len: 0, full: false };
        let m0 = heap::mark();
        lib(|| run::run(src, mode, nodes, &mut out));
        let m1 = heap::mark();
        if out.full { panic!("harness: output buffer too small") }
        let n = out.len;
        (String::from_utf8(b[..n].to_vec()).expect("harness: not text"), m1.0 - m0.0)
    })
}

fn heads() -> Vec<String> {
    ["rm", "raw", "ops", "bad", "v", "re", "{f}", "{}", "{ops {v}}", "r\\m", "h", "{h}", "{v}", "{rm}", "{raw}", "{raw f}", "{re}", "vv"].map(String::from).to_vec()
}

fn an_input(rng: &mut Rng, max: usize) -> String {
    let d = Delims::default_set();
    gen::input(rng, &d, &heads(), max)
}

fn enough(src: &str) -> usize { (4 * src.chars().count() + 40).min(run::MAX_NODES) }

fn no_heap(c: &mut Case, src: &str, mode: u8) -> Result<(), String> {
    c.describe(format!("{src:?} in way {mode}"));
    let (got, asked) = hosted(src, mode, enough(src));
    c.eval();
    c.nontrivial(mix(hash_str(src), u64::from(mode)));
    c.sample(|| format!("{src:?} in way {mode}: {asked} heap requests, {}", got.replace('\n', "; ")));
    if asked != 0 { return Err(format!("{asked} heap requests were made")) }
    let Some((body, _left)) = got.rsplit_once("\nleft ") else { return Err(format!("it ended early: {got}")) };
    let want = should_write(src, mode);
    if body != want {
        let k = body.lines().zip(want.lines()).position(|(a, b)| a != b).unwrap_or(0);
        return Err(format!("line {k} of the results is {:?} but should be {:?}", body.lines().nth(k), want.lines().nth(k)));
    }
    // With less memory: the same until it is exhausted, and still no heap.
    for _ in 0..2 {
        let nodes = c.rng.below(enough(src).min(4 * src.len() / 3 + 4));
        let (part, asked) = hosted(src, mode, nodes);
        c.eval();
        if asked != 0 { return Err(format!("{asked} heap requests were made with {nodes} nodes")) }
        if part.contains("\nitem exhausted") || part.contains("exhausted") || part.contains("no room") {
            c.count("runs that exhausted their nodes", 1);
            let mut same = part.lines().zip(want.lines());
            if let Some((a, b)) = same.find(|(a, b)| a != b) {
                if !a.contains("exhausted") && !a.contains("no room") {
                    return Err(format!("with {nodes} nodes a result was {a:?} before exhaustion, but {b:?} is right"));
                }
            }
        } else if part.rsplit_once("\nleft ").map(|p| p.0) != Some(&want[..]) {
            return Err(format!("with {nodes} nodes the results are wrong though nothing was exhausted: {part}"));
        }
    }
    Ok(())
}

// -------------------------------------------------------------- freestanding

fn dir() -> String { concat!(env!("CARGO_MANIFEST_DIR"), "/../bare").to_string() }

fn build(target: &str, extra: &[&str]) -> Option<(bool, String)> {
    let mut c = Command::new("cargo");
    c.args(["build", "--release", "--offline", "--target-dir", target]).args(extra).current_dir(dir())
        .env_remove("CARGO_ENCODED_RUSTFLAGS").env_remove("RUSTUP_TOOLCHAIN").env_remove("KULMON_CHILD")
        .env("RUSTFLAGS", "-C link-arg=-nostartfiles -C link-arg=-nostdlib -C link-arg=-static -C relocation-model=static");
    let o = c.stdin(Stdio::null()).output().ok()?;
    Some((o.status.success(), String::from_utf8_lossy(&o.stderr).into_owned()))
}

/// Runs the program; `None`: it did not end in time.
fn feed(program: &str, input: Vec<u8>) -> Option<(std::process::ExitStatus, Vec<u8>)> {
    let mut ch = Command::new(program).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let (mut i, mut o) = (ch.stdin.take()?, ch.stdout.take()?);
    let w = std::thread::spawn(move || { let _ = i.write_all(&input); });
    let r = std::thread::spawn(move || { let mut v = vec![]; let _ = o.read_to_end(&mut v); v });
    let t = Instant::now();
    let status = loop {
        if let Ok(Some(s)) = ch.try_wait() { break Some(s) }
        if t.elapsed() > Duration::from_secs(60) { let _ = ch.kill(); let _ = ch.wait(); break None }
        std::thread::sleep(Duration::from_millis(1));
    };
    let _ = w.join();
    let out = r.join().ok()?;
    Some((status?, out))
}

fn freestanding(c: &mut Case, program: &str) -> Result<(), String> {
    let mut recs: Vec<(String, u8, usize)> = vec![];
    for k in 0..60u8 {
        let max = *c.rng.pick(&[6, 20, 80, 300]);
        let src = an_input(&mut c.rng, max);
        let nodes = if c.rng.chance(1, 4) { c.rng.below(enough(&src)) } else { enough(&src) };
        recs.push((src, k % run::MODES, nodes));
    }
    let mut input = vec![];
    for (s, m, n) in &recs {
        input.extend((s.len() as u32).to_le_bytes());
        input.push(*m);
        input.extend((*n as u16).to_le_bytes());
        input.extend(s.as_bytes());
    }
    let Some((status, out)) = feed(program, input) else { panic!("harness: the freestanding program did not run to its end") };
    let out = String::from_utf8_lossy(&out).into_owned();
    let mut got = out.split("\nend\n");
    for (src, mode, nodes) in &recs {
        c.describe(format!("{src:?} in way {mode} with {nodes} nodes"));
        let want = hosted(src, *mode, *nodes).0;
        let g = got.next().unwrap_or("");
        c.eval();
        c.nontrivial(mix(hash_str(src), mix(u64::from(*mode), *nodes as u64)));
        if g != want {
            return Err(format!("the freestanding program wrote {g:?} and ended with {status}, but the same code with a standard library wrote {want:?}"));
        }
    }
    if !status.success() { return Err(format!("the freestanding program ended with {status} after writing everything")) }
    c.count("parses by the freestanding program", recs.len() as u64);
    Ok(())
}

pub fn c13(ctx: &mut Ctx) {
    ctx.rule = "inputs (all short strings over an alphabet, random ones) parsed with only the core crate's types in five ways (no bindings, bound pairs, one-call, rebuilt parser, reused parser with a source in two pieces), with enough and with too few nodes, the results compared, hashed, ordered, exported and concatenated; heap requests counted around all of it and everything written compared with the model; and the same code linked into a program without standard library, allocator and C runtime, its output compared byte by byte; an evaluation is one such run; non-trivial: distinct by input, way and number of nodes".into();
    let abc: Vec<char> = "{}\\ rma".chars().collect();
    let n = gen::count_strings(abc.len() as u64, ctx.pick(6, 7));
    ctx.stage("short", n, |c| {
        let src = gen::nth_string(c.idx, &abc);
        let mode = (c.idx % u64::from(run::MODES)) as u8;
        no_heap(c, &src, mode)
    });
    ctx.stage("random", ctx.pick(800_000, 9_600_000), |c| {
        let max = *c.rng.pick(&[8, 30, 120, 400]);
        let src = an_input(&mut c.rng, max);
        let mode = (c.idx % u64::from(run::MODES)) as u8;
        if 4 * src.chars().count() + 40 > run::MAX_NODES { return Ok(()) }
        no_heap(c, &src, mode)
    });
    if ctx.failed() || ctx.only_stage().is_some_and(|s| !s.starts_with("freestanding")) { return }
    match build("target/stub", &["--no-default-features"]) {
        Some((true, _)) => {}
        Some((false, e)) => { ctx.error(format!("freestanding programs cannot be built here: {e}")); return }
        None => { ctx.error("cargo cannot be run".into()); return }
    }
    match feed(&format!("{}/target/stub/release/bare", dir()), b"echo".to_vec()) {
        Some((s, o)) if s.success() && o == b"echo" => {}
        _ => { ctx.error("freestanding programs cannot be run here".into()); return }
    }
    match build("target/kul", &[]) {
        Some((true, _)) => {}
        Some((false, e)) => {
            ctx.fail("freestanding-build", 0, "a freestanding program (no standard library, no allocator) can be built here, but not with the core crate".into(), e);
            return;
        }
        None => { ctx.error("cargo cannot be run".into()); return }
    }
    ctx.add(|c| { c.evals(1); c.count("freestanding programs linked", 1) });
    let program = format!("{}/target/kul/release/bare", dir());
    ctx.stage("freestanding", ctx.pick(3_000, 24_000), |c| freestanding(c, &program));
}
