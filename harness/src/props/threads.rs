//! Concurrent dropping and parsing (C18, C30): the workload of `races` run natively here, and by
//! a data race sanitizer and an interpreter in processes of their own.

use std::process::Command;
use std::time::{Duration, Instant};

#[path = "../../../races/src/work.rs"]
mod work;
#[path = "../../../races/src/parse.rs"]
mod parse;

use crate::heap;
use crate::rng::mix;
use crate::runner::*;

fn tell(c: &mut Case, s: &work::Stats) {
    c.evals(s.rounds);
    c.count("rounds", s.rounds);
    c.count("owners cloned", s.clones);
    c.count("owners dropped", s.drops);
    c.count("trees read while others drop", s.walks);
    c.count("nodes read while others drop", s.nodes_read);
    c.count("comparisons while others drop", s.comparisons);
    c.count("weak references upgraded", s.upgrades);
    c.count("weak references found dead", s.failed_upgrades);
    c.count("payloads accounted for", s.payloads);
    c.count("payloads destroyed by another thread than their maker", s.foreign);
    c.count("owners handed to another thread", s.handed_over);
}

fn params(c: &mut Case, spy: bool) -> work::Params {
    work::Params { threads: c.rng.range(2, 4), nodes: *c.rng.pick(&[2, 3, 4, 6, 10, 16]), steps: *c.rng.pick(&[1, 2, 4, 8]), rounds: 60, pauses: c.rng.chance(2, 3), spy, on_start: |s| heap::set_pauses(s | 1) }
}

fn native(c: &mut Case, spy: bool) -> Result<(), String> {
    let p = params(c, spy);
    let seed = c.rng.next();
    c.describe(format!("{} threads, up to {} nodes and {} steps, {} rounds, seed {seed}, watched by weak references {spy} (scheduling decides: repeat the replay)", p.threads, p.nodes, p.steps, p.rounds));
    let s = work::case(seed, &p)?;
    for r in 0..s.rounds { c.nontrivial(mix(seed, r)) }
    tell(c, &s);
    c.sample(|| format!("{} threads, up to {} nodes: {s:?}", p.threads, p.nodes));
    Ok(())
}

struct Outside { ok: bool, text: String }

/// Runs a command to its end, or kills it after `limit`.
fn outside(mut cmd: Command, limit: Duration) -> Option<Outside> {
    use std::io::Read;
    use std::process::Stdio;
    let mut ch = cmd.stdout(Stdio::piped()).stderr(Stdio::piped()).stdin(Stdio::null()).spawn().ok()?;
    let (mut o, mut e) = (ch.stdout.take()?, ch.stderr.take()?);
    let a = std::thread::spawn(move || { let mut v = vec![]; let _ = o.read_to_end(&mut v); String::from_utf8_lossy(&v).into_owned() });
    let b = std::thread::spawn(move || { let mut v = vec![]; let _ = e.read_to_end(&mut v); String::from_utf8_lossy(&v).into_owned() });
    let t = Instant::now();
    let status = loop {
        if let Ok(Some(s)) = ch.try_wait() { break Some(s) }
        if t.elapsed() > limit { let _ = ch.kill(); let _ = ch.wait(); break None }
        std::thread::sleep(Duration::from_millis(20));
    };
    let status = status?;
    Some(Outside { ok: status.success(), text: format!("{}\n{}", a.join().ok()?, b.join().ok()?) })
}

fn races_dir() -> String { concat!(env!("CARGO_MANIFEST_DIR"), "/../races").to_string() }

fn cargo(args: &[&str]) -> Command {
    let mut c = Command::new("cargo");
    c.args(args).current_dir(races_dir()).env_remove("RUSTFLAGS").env_remove("CARGO_ENCODED_RUSTFLAGS").env_remove("RUSTUP_TOOLCHAIN").env_remove("KULMON_CHILD");
    c
}

/// Sums `name: n` over the reports of all runs.
fn sum(text: &str, name: &str) -> u64 {
    text.lines().filter(|l| l.starts_with("RACES-OK")).filter_map(|l| {
        let k = l.find(&format!(" {name}: "))? + name.len() + 3;
        l[k..].chars().take_while(char::is_ascii_digit).collect::<String>().parse::<u64>().ok()
    }).sum()
}

fn last_lines(t: &str, n: usize) -> String {
    let v: Vec<&str> = t.lines().collect();
    v[v.len().saturating_sub(n)..].join("\n")
}

fn skip(ctx: &Ctx, name: &str) -> bool {
    ctx.failed() || ctx.only_stage().is_some_and(|s| s != name)
}

/// The workloads are arguments of `races`.
fn sanitized(ctx: &mut Ctx, loads: &[Vec<String>], count: &str) {
    if skip(ctx, "thread-sanitizer") { return }
    let t0 = Instant::now();
    let mut b = cargo(&["+nightly", "build", "--release", "--offline", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu", "--target-dir", "target/tsan"]);
    b.env("RUSTFLAGS", "-Zsanitizer=thread");
    let built = outside(b, Duration::from_secs(240));
    if !built.as_ref().is_some_and(|o| o.ok) {
        ctx.note_stage("thread-sanitizer: not run, the instrumented build is not possible here".into());
        return;
    }
    let seed = ctx.seed;
    for (k, load) in loads.iter().enumerate() {
        let mut r = Command::new(format!("{}/target/tsan/x86_64-unknown-linux-gnu/release/races", races_dir()));
        r.args(load).env("TSAN_OPTIONS", "exitcode=66 halt_on_error=1");
        let Some(o) = outside(r, Duration::from_secs(150)) else {
            ctx.note_stage("thread-sanitizer: stopped by its time limit".into());
            return;
        };
        if o.text.contains("WARNING: ThreadSanitizer") || o.text.contains("RACES-VIOLATION") || o.text.contains("panicked at") {
            let line = o.text.lines().find(|l| l.contains("RACES-VIOLATION") || l.contains("WARNING: ThreadSanitizer") || l.contains("panicked at")).unwrap_or("").to_string();
            ctx.fail("thread-sanitizer", k as u64, line, last_lines(&o.text, 60));
            return;
        }
        if !o.ok { ctx.note_stage(format!("thread-sanitizer: run not usable: {}", last_lines(&o.text, 3))); return }
        ctx.add(|c| {
            let n = sum(&o.text, "rounds");
            c.evals(n);
            c.count("rounds under the thread sanitizer", n);
            c.count(&format!("{} under the thread sanitizer", count.replace('_', " ")), sum(&o.text, count));
            for r in 0..n { c.nontrivial(mix(mix(seed, 77 + k as u64), r)) }
        });
    }
    ctx.note_stage(format!("thread-sanitizer: {} workloads in {:.1} s (with build)", loads.len(), t0.elapsed().as_secs_f64()));
}

fn interpreted(ctx: &mut Ctx, schedules: u64, loads: &[Vec<String>]) {
    if skip(ctx, "interpreter") { return }
    let t0 = Instant::now();
    let seed = ctx.seed;
    for (k, load) in loads.iter().enumerate() {
        let from = seed * 1000 % 100_000;
        let mut r = cargo(&["+nightly", "miri", "run", "--offline", "--target-dir", "target/miri", "--"]);
        r.args(load);
        r.env("MIRIFLAGS", format!("-Zmiri-many-seeds={from}..{} -Zmiri-preemption-rate=0.1", from + schedules));
        let Some(o) = outside(r, Duration::from_secs(if ctx.quick() { 120 } else { 200 })) else {
            ctx.note_stage("interpreter: stopped by its time limit".into());
            return;
        };
        let bad = ["RACES-VIOLATION", "Undefined Behavior", "memory leaked", "panicked at", "data race"];
        if bad.iter().any(|b| o.text.contains(b)) {
            let line = o.text.lines().find(|l| bad.iter().any(|b| l.contains(b))).unwrap_or("").to_string();
            ctx.fail("interpreter", k as u64, line, last_lines(&o.text, 60));
            return;
        }
        if !o.ok { ctx.note_stage(format!("interpreter: not usable here: {}", last_lines(&o.text, 3))); return }
        ctx.add(|c| {
            let n = sum(&o.text, "rounds");
            c.evals(n);
            c.count("rounds interpreted with seeded schedules", n);
            c.count("schedules interpreted", o.text.lines().filter(|l| l.starts_with("RACES-OK")).count() as u64);
            for r in 0..n { c.nontrivial(mix(mix(seed, 99 + k as u64), r)) }
        });
    }
    ctx.note_stage(format!("interpreter: {} workloads with {schedules} schedules each in {:.1} s (with build)", loads.len(), t0.elapsed().as_secs_f64()));
}

pub fn c18(ctx: &mut Ctx) {
    ctx.rule = "rounds in which 2 to 4 threads own parts of one shared structure by strong and weak references and at the same time clone, read, compare, hand over, upgrade, downgrade and drop, with pauses injected into payload destructors and heap operations; readers compare every node with the specification, and after each round every payload must have been destroyed once, no node be owned, and (in the stage counting nodes) no node be allocated; the same workload under a data race sanitizer and, with seeded schedules, under an interpreter that reports races, undefined behaviour and leaks; an evaluation is one judged round; non-trivial: distinct by workload and round".into();
    ctx.assumptions.push("schedules are sampled: by the machine with injected pauses, and by seeds in the interpreter".into());
    ctx.stage_on("native", ctx.pick(15_000, 120_000), 3, |c| native(c, c.idx % 2 == 0));
    {
        let a = heap::live_bytes();
        let p = work::probe();
        let size = heap::live_bytes() - a;
        drop(p);
        heap::watch_size(size as usize);
        ctx.stage_on("native-counting-nodes", ctx.pick(4_000, 20_000), 1, |c| {
            let before = heap::watched_blocks();
            native(c, false)?;
            let left = heap::watched_blocks() - before;
            if left != 0 { return Err(format!("{left} nodes are still allocated after all owners are gone")) }
            Ok(())
        });
        heap::watch_size(usize::MAX);
    }
    let seed = ctx.seed;
    let load = |k: usize, v: [u64; 5]| -> Vec<String> { std::iter::once(seed * 10 + k as u64).chain(v).map(|x| x.to_string()).collect() };
    let loads: Vec<_> = [[3, 2, 2, 1, 3], [3, 2, 3, 3, 3], [3, 3, 5, 4, 2]].into_iter().enumerate().map(|(k, v)| load(k, v)).collect();
    interpreted(ctx, ctx.pick(24, 160), &loads);
    let cases = ctx.pick(250, 2500);
    let loads: Vec<_> = [[cases, 2, 3, 2, 40], [cases, 3, 6, 4, 40], [cases, 4, 12, 6, 40]].into_iter().enumerate().map(|(k, v)| load(k, v)).collect();
    sanitized(ctx, &loads, "nodes_read");
}

pub fn c30(ctx: &mut Ctx) {
    ctx.rule = "cases in which 2 to 6 threads, each with parsers of its own, parse one to three sources at the same time (shared texts in two divisions, characters, shared strings, strings in memory; with deep nests, long texts, macros and delimiter errors), hand each other the results, read, compare and drop them; every parse must give what it gave alone, every tree read the same on every thread; the same under a data race sanitizer and, with seeded schedules, under an interpreter; which types can be sent and shared is observed from their traits; an evaluation is one judged case; non-trivial: distinct by workload".into();
    ctx.assumptions.push("schedules are sampled: by the machine with injected pauses, and by seeds in the interpreter".into());
    ctx.stage_on("types", 1, 1, |c| {
        for (t, send, sync) in parse::marks() {
            c.eval();
            c.nontrivial(crate::rng::hash_str(t));
            c.count("types whose thread-safety was observed", 1);
            if !send || !sync { return Err(format!("{t} cannot be {} other threads", if send { "shared with" } else { "sent to" })) }
        }
        Ok(())
    });
    ctx.stage_on("native", ctx.pick(12_000, 100_000), 2, |c| {
        let p = parse::Params { threads: c.rng.range(2, 6), chars: *c.rng.pick(&[4, 12, 40, 150, 600]), steps: c.rng.range(1, 6), on_start: |s| heap::set_pauses(s | 1) };
        let seed = c.rng.next();
        c.describe(format!("{} threads, {} characters, {} steps, seed {seed} (scheduling decides: repeat the replay)", p.threads, p.chars, p.steps));
        let s = parse::case(seed, &p)?;
        c.eval();
        c.nontrivial(seed);
        c.count("parses", s.parses);
        c.count("forms", s.forms);
        c.count("macro calls", s.macro_calls);
        c.count("results handed to another thread", s.handed_over);
        c.count("comparisons of trees of two threads", s.comparisons);
        c.max("parses at one moment", s.at_once);
        c.sample(|| format!("{} threads, {} characters: {s:?}", p.threads, p.chars));
        Ok(())
    });
    let seed = ctx.seed;
    let load = |k: usize, v: [u64; 4]| -> Vec<String> { std::iter::once("parse".to_string()).chain(std::iter::once(seed * 10 + k as u64).chain(v).map(|x| x.to_string())).collect() };
    let loads: Vec<_> = [[1, 2, 8, 1], [1, 3, 12, 1]].into_iter().enumerate().map(|(k, v)| load(k, v)).collect();
    interpreted(ctx, ctx.pick(12, 80), &loads);
    let cases = ctx.pick(400, 4000);
    let loads: Vec<_> = [[cases, 2, 20, 3], [cases, 4, 60, 3]].into_iter().enumerate().map(|(k, v)| load(k, v)).collect();
    sanitized(ctx, &loads, "parses");
}
