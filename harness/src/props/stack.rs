//! C15: how much stack the steps of a parse use.

use crate::configs::*;
use crate::gen;
use crate::heap;
use crate::model::{Act, Delims, Mac};
use crate::obs::*;
use crate::props::texts::on_small_stack;
use crate::rng::{hash_str, mix, Rng};
use crate::runner::*;

/// How much more stack a long input may use than a short one of the same kind:
/// far less than one frame per repetition would need.
const SLACK: usize = 3 << 10;

/// The same for a whole run, the harness's own work between the steps included.
const WHOLE_SLACK: usize = 12 << 10;

/// An input of any length, whose nesting depth does not depend on the length.
#[derive(Clone, Debug)]
pub(super) struct Family {
    before: String,
    motif: String,
    after: String,
    /// Every so many characters the source is split.
    split_every: usize,
    /// Where as many empty chunks as repetitions are, if anywhere.
    empties: Empties,
    macs: Vec<Mac>,
    /// That many more macros than repetitions.
    more_macs: bool,
    /// The first macro's key is a form with a list as long as there are repetitions.
    long_key: Option<(T, u8)>,
    pub(super) bind: BindKind,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub(super) enum Empties { None, First, Inside, Last }

fn mac(key: &str, raw: bool, act: Act) -> Mac { Mac { key: T::text(key), raw, act } }

fn motif(rng: &mut Rng, level: usize) -> String {
    let mut s = String::new();
    for _ in 0..rng.range(1, 4) {
        let x = rng.below(if level > 0 { 20 } else { 22 });
        s.push_str(match x {
            0 => "a",
            1 => "αβ",
            2 => " ",
            3 => "\\a",
            4 => "\\{",
            5 => "\\\\",
            6 => "{}",
            7 => "{ }",
            8 => "{a}",
            9 => "{a b}",
            10 => "{{a}b}",
            11 => "{rm x}",
            12 => "{rm}",
            13 => "{raw {x}\\}y}",
            14 => "{rawrm {x}y}",
            15 => "{ops a{}b}",
            16 => "{val}",
            17 => "{ \n{rm}}",
            18 => "{{ops x{}} y}",
            19 => "{re a}",
            20 => "}",
            _ => "{bad x}",
        });
    }
    s
}

pub(super) fn family(rng: &mut Rng) -> Family {
    let level = rng.below(4);
    let mut before = String::new();
    let mut after = String::new();
    for _ in 0..level {
        match rng.below(6) {
            // As operands, of a plain head, of a macro, of a raw macro.
            0 | 1 => { before.push_str(if rng.chance(1, 2) { "{h " } else { "{h a{}" }); after.insert(0, '}') }
            2 => { before.push_str(rng.pick(&["{ops ", "{rm ", "{re ", "{{h} "])); after.insert(0, '}') }
            3 => { before.push_str(rng.pick(&["{raw ", "{rawrm "])); after.insert(0, '}') }
            // In the place of the head, or within the head.
            4 => { before.push('{'); after.insert_str(0, " x}") }
            _ => { before.push_str("{{h "); after.insert_str(0, "} x}") }
        }
    }
    if rng.chance(1, 8) { after.clear() }
    let mut m = match rng.below(4) { 0 => " ".into(), 1 => "a".into(), _ => motif(rng, level) };
    // A motif that needs its repetitions closed stays flat only if it is closed.
    if m.matches('{').count() == 0 && rng.chance(1, 4) { m.push('b') }
    let macs = vec![
        mac("rm", false, Act::Remove), mac("raw", true, Act::Operands), mac("rawrm", true, Act::Remove),
        mac("ops", false, Act::Operands), mac("val", false, Act::Extra(5)), mac("re", false, Act::Rebuild),
        mac("bad", false, Act::Fail(7)),
    ];
    let long_key = rng.chance(1, 3).then(|| (T::text(if rng.chance(1, 2) { "h" } else { "rm" }), rng.below(4) as u8));
    let bind = match rng.below(6) {
        0 => BindKind::Empty,
        1 => BindKind::Map(HashMode::Random),
        2 => BindKind::Map(HashMode::Constant),
        3 => BindKind::Map(HashMode::Fnv),
        _ => BindKind::Pairs,
    };
    Family { before, motif: m, after, split_every: *rng.pick(&[0, 0, 1, 3, 7]), empties: *rng.pick(&[Empties::None, Empties::None, Empties::None, Empties::First, Empties::Inside, Empties::Last]), macs, more_macs: rng.chance(1, 5), long_key, bind }
}

impl Family {
    pub(super) fn make(&self, n: usize) -> (String, Vec<usize>, Vec<Mac>) {
        let d = Delims::default_set();
        let mut macs = self.macs.clone();
        let mut src = String::new();
        if let Some((head, kind)) = &self.long_key {
            let elems: Vec<T> = (0..n).map(|i| match kind {
                0 => T::EmptyNest,
                1 => if i % 2 == 0 { T::text("e") } else { T::EmptyNest },
                2 => T::comb(T::text("i"), T::EmptyList),
                _ => if i % 2 == 0 { T::text("\\ {") } else { T::comb(T::EmptyNest, T::list(vec![T::EmptyNest])) },
            }).collect();
            let key = T::comb(head.clone(), T::list(elems));
            src.push('{');
            gen::write_form(&key, &d, true, &mut src);
            src.push_str(" z}");
            // Two that differ only at the end, so that comparing must go there.
            let mut near = key.clone();
            if let T::Comb(_, l) = &mut near { if let T::List(v, _) = &mut **l { *v.last_mut().unwrap() = T::text("q") } }
            macs.insert(0, Mac { key: near, raw: false, act: Act::Remove });
            macs.insert(1, Mac { key, raw: false, act: Act::Count });
        }
        if self.more_macs {
            for i in 0..n { macs.insert(0, mac(&format!("k{i}"), false, Act::EmptyNest)) }
        }
        src.push_str(&self.before);
        for _ in 0..n { src.push_str(&self.motif) }
        src.push_str(&self.after);
        let len = src.chars().count();
        let mut splits: Vec<usize> = if self.split_every == 0 { vec![] } else { (1..len).filter(|i| i % self.split_every == 0).collect() };
        let at = match self.empties {
            Empties::None => None,
            Empties::First => Some(0),
            Empties::Inside => Some(src.chars().count() / 2),
            Empties::Last => Some(len),
        };
        if let Some(at) = at {
            splits.extend(std::iter::repeat(at).take(n));
            splits.sort_unstable();
        }
        (src, splits, macs)
    }
}

/// Which of the runs of a family of this size finish in reasonable time.
fn affordable(f: &Family, cfg: Cfg, n: usize) -> bool {
    // Linking texts chunk by chunk walks the chain each time.
    let chunky = f.split_every > 0 || f.empties != Empties::None || f.motif.contains('\\');
    !(chunky && cfg.text == TextKind::List && n > 3_000)
        // Every head is compared with every key.
        && !((f.more_macs || f.long_key.is_some()) && matches!(f.bind, BindKind::Pairs | BindKind::Map(HashMode::Constant)) && f.motif.contains('{') && n > 3_000)
        && !(f.more_macs && f.bind == BindKind::Map(HashMode::Constant) && n > 3_000)
        && !(f.motif.contains("{{ops") && n > 60_000)
}

fn compare(c: &mut Case, cfgs: &[Cfg], long: usize) -> Result<(), String> {
    let f = family(&mut c.rng);
    let cfg = cfgs[c.rng.below(cfgs.len())];
    let (small, n) = (c.rng.range(6, 12), long / 2 + c.rng.below(long));
    let n = if affordable(&f, cfg, n) { n } else { n.min(700) };
    let d = Delims::default_set();
    c.describe(format!("{} with {f:?}, {small} and {n} times", cfg.name()));
    let mut used = [0; 2];
    let mut whole = [0; 2];
    let mut items = [0; 2];
    for (i, n) in [small, n].into_iter().enumerate() {
        let (src, splits, macs) = f.make(n);
        let mut job = Job::plain(&src, &splits, &d);
        job.bind = f.bind;
        job.macs = if f.bind == BindKind::Empty { &[] } else { &macs };
        job.seed = c.idx;
        heap::take_step_max();
        let (run, all) = heap::stack_painted(|| run_cfg(cfg, &job));
        used[i] = heap::take_step_max();
        whole[i] = all;
        items[i] = run.items.len();
        if i == 1 { c.max("characters of one input", src.len() as u64); c.count("steps measured", run.items.len() as u64 + 1); c.count("macro calls", run.calls.len() as u64) }
    }
    c.eval();
    c.nontrivial(mix(hash_str(&format!("{f:?}")), hash_str(&cfg.name())));
    c.max("bytes of stack seen in use by one step", used[1] as u64);
    c.max("bytes of stack changed by a whole run", whole[1] as u64);
    c.sample(|| format!("{}: {:?} … {:?} … {:?}, {small} times: {} bytes in {} items, {n} times: {} bytes in {} items", cfg.name(), f.before, f.motif, f.after, used[0], items[0], used[1], items[1]));
    if used[1] > used[0] + SLACK {
        return Err(format!("a step used {} bytes of stack when the flat part was repeated {n} times, but {} bytes when it was repeated {small} times", used[1], used[0]));
    }
    if whole[1] > whole[0] + WHOLE_SLACK {
        return Err(format!("the parse changed {} bytes of stack when the flat part was repeated {n} times, but {} bytes when it was repeated {small} times", whole[1], whole[0]));
    }
    Ok(())
}

fn small_stack(c: &mut Case, cfgs: &[Cfg], n: usize) -> Result<(), String> {
    let mut f = family(&mut c.rng);
    let cfg = cfgs[c.rng.below(cfgs.len())];
    f.more_macs &= c.rng.chance(1, 4);
    let n = if affordable(&f, cfg, n) { n } else { 3_000 };
    let d = Delims::default_set();
    let (src, splits, macs) = f.make(n);
    c.describe(format!("{} with {f:?}, {n} times, on a small stack", cfg.name()));
    c.nontrivial(mix(hash_str(&format!("{f:?}")), hash_str(&cfg.name())));
    c.max("characters of one input", src.len() as u64);
    let idx = c.idx;
    let (items, used) = on_small_stack("small-stack", idx, || {
        let mut job = Job::plain(&src, &splits, &d);
        job.bind = f.bind;
        job.macs = if f.bind == BindKind::Empty { &[] } else { &macs };
        job.seed = idx;
        heap::take_step_max();
        let run = run_cfg(cfg, &job);
        (run.items.len(), heap::take_step_max())
    });
    c.eval();
    c.count("steps measured", items as u64 + 1);
    c.max("bytes of stack seen in use by one step", used as u64);
    c.sample(|| format!("{}: {:?} … {:?} … {:?}, {n} times on a small stack: {used} bytes in {items} items", cfg.name(), f.before, f.motif, f.after));
    Ok(())
}

pub fn c15(ctx: &mut Ctx) {
    ctx.rule = "families of inputs made of a random part repeated n times (texts, whitespace, escapes, empty and other nests, forms removed or replaced by macros, unmatched ends, failing macros) at the top level or up to three levels inside operands, heads, macro operands or raw operands, with whole or split sources, with up to n empty chunks in a row, up to n further bound macros and bound heads with lists of n elements, over all type configurations; each parsed with a small and a large n, the lowest stack address of every step noted at every classification, allocation, hash and heap operation, and the lowest changed stack address of the whole run; and with a larger n on a thread with 192 KiB of stack; an evaluation is one such pair, or one small-stack run; non-trivial: distinct by family and configuration".into();
    ctx.assumptions.push(format!("per-repetition stack use would exceed {SLACK} bytes for the large n"));
    let cfgs = all_cfgs();
    let long = ctx.pick(1_200, 3_000) as usize;
    ctx.stage("compare", ctx.pick(4_000, 40_000), |c| compare(c, &cfgs, long));
    let n = ctx.pick(25_000, 100_000) as usize;
    ctx.stage_on("small-stack", ctx.pick(250, 1_500), 8, |c| small_stack(c, &cfgs, n));
}
