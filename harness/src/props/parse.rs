//! Checks of what parsing yields (C01-C09, C11, C26).

use std::rc::Rc;
use std::sync::Arc;

use kul::text::chunk::{PosStr, PosStrish};
use kul::text::{TextDatumList, TextVec};
use kul::Text;

use crate::configs::*;
use crate::gen;
use crate::model::{self, Delims, Expected, Mac};
use crate::obs::*;
use crate::rng::{hash_str, mix, Rng};
use crate::runner::*;
use crate::wrap::lib;

pub fn diff(exp: &[Item], got: &[Item]) -> Option<String> {
    same_items(exp, got).map(|i| {
        let f = |v: &[Item]| v.get(i).map_or("nothing".into(), Item::brief);
        format!("item {i}: expected {} but observed {} (expected {} items, observed {})", f(exp), f(got), exp.len(), got.len())
    })
}

pub fn describe(job: &Job, cfg: Option<Cfg>) -> String {
    let s: String = if job.src.len() > 6000 {
        format!("{:?} … ({} bytes)", job.src.chars().take(2000).collect::<String>(), job.src.len())
    } else { format!("{:?}", job.src) };
    format!("input {s}\nsplits {:?}\nconfiguration {}\ndelimiters {:?}\nmacros {:?}\nbindings {:?} failing {:?} nodes {} key seed {}",
            &job.splits[..job.splits.len().min(200)], cfg.map_or("-".into(), |c| c.name()), job.delims, job.macs, job.bind, job.fail, job.nodes, job.seed)
}

/// Is there anything but one plain text in the expected result?
pub fn is_nontrivial(e: &Expected) -> bool {
    e.items.iter().any(|i| match i { Item::Ok(T::Text(_)) => false, _ => true }) || e.items.len() > 1
}

pub fn tally(c: &mut Case, e: &Expected) {
    for i in &e.items {
        c.count(i.kind(), 1);
        if let Item::Ok(t) = i {
            if matches!(t, T::Comb(..) | T::EmptyNest) { c.count("nests", 1) }
        }
    }
    c.max("nesting depth", e.depth as u64);
}

/// One evaluation of the grammar oracle.
fn grammar_case(c: &mut Case, src: &str, d: &Delims, cfg: Cfg, splits: &[usize]) -> Result<(), String> {
    let job = Job::plain(src, splits, d);
    c.describe(describe(&job, Some(cfg)));
    let cs: Vec<char> = src.chars().collect();
    let e = model::expected(&cs, d, &[]);
    let r = run_cfg(cfg, &job);
    c.eval();
    tally(c, &e);
    c.max("input characters", cs.len() as u64);
    if is_nontrivial(&e) { c.nontrivial(mix(hash_str(src), hash_str(&format!("{:?}", d.start)))) }
    c.sample(|| format!("{src:?} -> {}", brief_items(&r.items)));
    match diff(&e.items, &r.items).or(r.changed) { Some(m) => Err(m), None => Ok(()) }
}

fn some_cfg(rng: &mut Rng) -> Cfg {
    if rng.chance(1, 2) { base_cfg() } else { *rng.pick(&all_cfgs()) }
}

pub fn c01(ctx: &mut Ctx) {
    ctx.rule = "inputs: every string over {a, space, brackets, escape} up to a length, every Unicode character in every syntactic place, random and structured and mutated strings under default and random custom delimiters, large regular inputs; an evaluation parses with the real parser and compares every item with the independent reader; non-trivial: the expected result is not just one plain text, distinct by input and delimiters".into();
    let def = Delims::default_set();
    let len = ctx.pick(8, 10);
    let n = gen::count_strings(5, len);
    ctx.exhaustive_note = Some(format!("all {n} strings of up to {len} characters over {:?}", gen::SMALL));
    ctx.stage("exhaustive", n, |c| {
        let s = gen::nth_string(c.idx, gen::SMALL);
        grammar_case(c, &s, &def, base_cfg(), &[])
    });
    ctx.stage("random", ctx.pick(960_000, 5_760_000), |c| {
        let d = if c.rng.chance(1, 2) { def.clone() } else { gen::delims(&mut c.rng) };
        let max = if c.rng.chance(1, 50) { 4000 } else { 80 };
        let s = gen::input(&mut c.rng, &d, &[], max);
        let cfg = some_cfg(&mut c.rng);
        let sp = gen::splits(&mut c.rng, s.chars().count());
        grammar_case(c, &s, &d, cfg, &sp)
    });
    ctx.stage("unicode", (0x11_0000 / gen::SWEEP_BLOCK) as u64, |c| {
        match gen::sweep(c.idx, &def) {
            Some(s) => { c.count("characters swept", gen::SWEEP_BLOCK as u64); grammar_case(c, &s, &def, base_cfg(), &[]) }
            None => Ok(()),
        }
    });
    magnitude_stage(ctx, |c, s, d, cfg| grammar_case(c, s, d, cfg, &[]));
}

/// In the quick tier all of the first characters but only some blocks of the
/// later ones.
fn sampled_sweep(c: &mut Case, quick: bool, d: &Delims) -> Option<String> {
    if quick && c.idx as usize * gen::SWEEP_BLOCK as usize > 0x3200 && !c.rng.chance(1, 10) { return None }
    let s = gen::sweep(c.idx, d);
    if s.is_some() { c.count("characters swept", gen::SWEEP_BLOCK as u64) }
    s
}

pub fn magnitude_stage(ctx: &mut Ctx, f: impl Fn(&mut Case, &str, &Delims, Cfg) -> Result<(), String> + Sync) {
    let (p, dp) = ctx.pick((17, 16), (19, 17));
    let def = Delims::default_set();
    let cfgs = all_cfgs();
    ctx.stage("magnitude", 3 * 16 * 20, |c| {
        let Some((_, s)) = gen::magnitude(c.idx, p, dp, &def) else { return Ok(()) };
        f(c, &s, &def, base_cfg())?;
        // Linked-list texts search their end on every concatenation.
        let cfg = *c.rng.pick(&cfgs);
        if s.contains("\\") && cfg.text == TextKind::List && s.len() > 40_000 { return Ok(()) }
        f(c, &s, &def, cfg)
    });
}

// ----------------------------------------------------------------------- C02

/// Indices of the characters of a well-formed input that must be in the texts.
/// Independent of the tree model: only tracks whether a head is still expected.
fn kept(cs: &[char], d: &Delims) -> Option<Vec<usize>> {
    #[derive(Clone, Copy, PartialEq)]
    enum M { Before, In, After, Operands }
    let mut st: Vec<M> = vec![];
    let mut v = vec![];
    let mut i = 0;
    while i < cs.len() {
        let ch = cs[i];
        let (esc, at) = if d.esc.contains(&ch) { (true, i + 1) } else { (false, i) };
        let top = st.last().copied();
        if esc {
            if at < cs.len() { v.push(at) }
            i += 2;
            if let Some(m) = st.last_mut() { *m = if *m == M::Before || *m == M::In { M::In } else { M::Operands } }
            continue;
        }
        i += 1;
        if d.start.contains(&ch) {
            if let Some(m) = st.last_mut() { *m = if *m == M::Before { M::After } else { M::Operands } }
            st.push(M::Before);
        } else if d.end.contains(&ch) {
            st.pop()?;
        } else if d.is_ws(ch) {
            match top {
                Some(M::Before) => {}
                Some(M::In) | Some(M::After) => *st.last_mut().unwrap() = M::Operands,
                _ => v.push(at),
            }
        } else {
            v.push(at);
            if let Some(m) = st.last_mut() { *m = if *m == M::Before || *m == M::In { M::In } else { M::Operands } }
        }
    }
    if st.is_empty() { Some(v) } else { None }
}

/// Makes every ordinary character of a string different from the others.
fn make_unique(s: &str, d: &Delims) -> String {
    let mut n = 0u32;
    let pools = [(0x100u32, 0x500u32), (0x4e00, 0x5000), (0x1_0400, 0x500), (0xa1, 0x5e)];
    s.chars().map(|c| {
        if d.is_special(c) || d.is_ws(c) { return c }
        loop {
            n += 1;
            let (lo, len) = pools[(n % 4) as usize];
            if let Some(x) = char::from_u32(lo + (n / 4) % len) {
                if !d.is_special(x) && !d.is_ws(x) { return x }
            }
        }
    }).collect()
}

fn conservation_case(c: &mut Case, src: &str, d: &Delims, cfg: Cfg, splits: &[usize]) -> Result<(), String> {
    let job = Job::plain(src, splits, d);
    let cs: Vec<char> = src.chars().collect();
    let Some(keep) = kept(&cs, d) else { return Ok(()) };
    c.describe(describe(&job, Some(cfg)));
    let r = run_cfg(cfg, &job);
    c.eval();
    if keep.len() < cs.len() { c.nontrivial(mix(hash_str(src), hash_str(&cfg.name()))) }
    c.count("characters kept", keep.len() as u64);
    c.count("syntax characters dropped", (cs.len() - keep.len()) as u64);
    let mut got = vec![];
    for it in &r.items {
        match it {
            Item::Ok(t) => t.texts(&mut |x| got.extend(x.s.chars())),
            e => return Err(format!("well-formed input gave {}", e.brief())),
        }
    }
    c.sample(|| format!("{src:?} kept {:?}", got.iter().collect::<String>()));
    let want = keep.iter().map(|&i| cs[i]);
    if !want.clone().eq(got.iter().copied()) {
        let at = want.clone().zip(&got).position(|(a, b)| a != *b).unwrap_or(got.len().min(keep.len()));
        return Err(format!("text leaves in order hold {} characters, expected {}; first difference at {at}: expected {:?}, observed {:?}",
                           got.len(), keep.len(), want.clone().nth(at), got.get(at)));
    }
    // The dropped characters are only syntax: counted against the input itself.
    let drop_ord = cs.iter().enumerate().filter(|(i, ch)| !d.is_special(**ch) && !d.is_ws(**ch) && keep.binary_search(i).is_err()).count();
    if drop_ord > 0 { panic!("harness: conservation oracle dropped ordinary characters") }
    Ok(())
}

pub fn c02(ctx: &mut Ctx) {
    ctx.rule = "well-formed inputs (every one of the exhaustive small strings that is well-formed, structured random ones with all ordinary characters made distinct, large ones) over all configurations and chunk splits; an evaluation compares the characters of all text leaves in order with the input minus the syntax characters found by an independent scan; non-trivial: some syntax character was dropped, distinct by input and configuration".into();
    let def = Delims::default_set();
    let len = ctx.pick(8, 10);
    let n = gen::count_strings(5, len);
    let cfgs = all_cfgs();
    ctx.stage("exhaustive", n, |c| {
        let s = gen::nth_string(c.idx, gen::SMALL);
        let cs: Vec<char> = s.chars().collect();
        if kept(&cs, &def).is_none() { return Ok(()) }
        let s = make_unique(&s, &def);
        let sp = gen::splits(&mut c.rng, cs.len());
        conservation_case(c, &s, &def, base_cfg(), &sp)
    });
    ctx.stage("random", ctx.pick(960_000, 5_760_000), |c| {
        let d = if c.rng.chance(2, 3) { def.clone() } else { gen::delims(&mut c.rng) };
        let max = if c.rng.chance(1, 50) { 6000 } else { 100 };
        let s = gen::well_formed(&mut c.rng, &d, &[], max);
        let s = if c.rng.chance(2, 3) { make_unique(&s, &d) } else { s };
        let cfg = *c.rng.pick(&cfgs);
        let sp = gen::splits(&mut c.rng, s.chars().count());
        conservation_case(c, &s, &d, cfg, &sp)
    });
    let quick = ctx.quick();
    ctx.stage("unicode", (0x11_0000 / gen::SWEEP_BLOCK) as u64, |c| match sampled_sweep(c, quick, &def) {
        Some(s) => {
            let cfg = if c.rng.chance(1, 3) { base_cfg() } else { *c.rng.pick(&cfgs) };
            let sp = gen::splits(&mut c.rng, s.chars().count());
            conservation_case(c, &s, &def, cfg, &sp)
        }
        None => Ok(()),
    });
    magnitude_stage(ctx, |c, s, d, cfg| {
        let n = s.chars().count();
        let sp = if c.rng.chance(1, 2) && n < 5000 { (0..=n).collect() } else { gen::splits(&mut c.rng, n) };
        conservation_case(c, s, d, cfg, &sp)
    });
}

// ----------------------------------------------------------------------- C03

/// Writes a sequence of forms.  An empty text (a lone final escape) can only be
/// last.
pub fn write_forms(v: &[T], d: &Delims, rng: &mut Rng) -> Option<String> {
    let mut s = String::new();
    for (i, t) in v.iter().enumerate() {
        match t {
            T::Text(x) if x.s.is_empty() => {
                if i + 1 != v.len() { return None }
                s.push(d.esc[0]);
            }
            _ => write_tree(t, d, false, rng, &mut s)?,
        }
    }
    Some(s)
}

/// Minimal or needless escapes and optional whitespace, as `rng` decides.
fn write_tree(t: &T, d: &Delims, head: bool, rng: &mut Rng, s: &mut String) -> Option<()> {
    match t {
        T::Text(x) => {
            if x.s.is_empty() { return None }
            for ch in x.s.chars() {
                let need = d.is_special(ch) || (head && d.is_ws(ch));
                if need || rng.chance(1, 12) { s.push(*rng.pick(&d.esc)) }
                s.push(ch);
            }
        }
        T::EmptyNest => {
            s.push(*rng.pick(&d.start));
            if rng.chance(1, 4) { s.extend(gen::ws_char(rng, d)) }
            s.push(*rng.pick(&d.end));
        }
        T::Comb(h, args) => {
            s.push(*rng.pick(&d.start));
            while rng.chance(1, 5) { s.extend(gen::ws_char(rng, d)) }
            write_tree(h, d, true, rng, s)?;
            let v: &[T] = match &**args { T::EmptyList => &[], T::List(v, None) => v, _ => return None };
            // A delimiting whitespace is needed before a text after a text
            // head, or when the first operand starts with whitespace.
            let need = match v.first() {
                Some(T::Text(x)) => matches!(**h, T::Text(_)) || x.s.chars().next().is_some_and(|c| d.is_ws(c)),
                _ => false,
            };
            if need || rng.chance(1, 2) { s.extend(gen::ws_char(rng, d)) }
            for x in v { write_tree(x, d, false, rng, s)? }
            s.push(*rng.pick(&d.end));
        }
        _ => return None,
    }
    Some(())
}

fn items_of(v: &[T]) -> Vec<Item> { v.iter().cloned().map(Item::Ok).collect() }

pub fn c03(ctx: &mut Ctx) {
    use kul::parser::BoxDatumAllocator;
    use kul::text::{chunk::PosStr, TextVec};
    ctx.rule = "random expressible trees (texts full of delimiters, escapes, whitespace, any Unicode) written with brackets and escapes, and results of successful parses of exhaustive small and random inputs written again; an evaluation parses the written form and compares the trees, both with the observer and with the library's own equality; non-trivial: the written form contains a bracket or an escape, distinct by written form".into();
    let def = Delims::default_set();
    let cfgs = all_cfgs();
    let check = |c: &mut Case, forms: &[T], written: &str, cfg: Cfg| -> Result<(), String> {
        let sp = gen::splits(&mut c.rng, written.chars().count());
        let job = Job::plain(written, &sp, &def);
        c.describe(format!("tree {}\n{}", brief_items(&items_of(forms)), describe(&job, Some(cfg))));
        let r = run_cfg(cfg, &job);
        c.eval();
        if written.contains(['{', '\\']) { c.nontrivial(hash_str(written)) }
        c.count("texts in trees", forms.iter().map(|t| t.shape().0 as u64).sum());
        c.count("nests in trees", forms.iter().map(|t| t.shape().1 as u64).sum());
        c.sample(|| format!("{written:?} <-> {}", brief_items(&r.items)));
        if let Some(m) = diff(&items_of(forms), &r.items) { return Err(m) }
        Ok(())
    };
    let real_eq = |c: &mut Case, forms: &[T], written: &str| -> Result<(), String> {
        // The library's own equality between the built and the parsed tree.
        let parsed = kul::common::inmem::parse_str_with::<i64, u32>(written, kul::common::inmem::OperatorBindings::default());
        let mut rng = c.rng.clone();
        if parsed.len() != forms.len() { return Err(format!("one-call parse gave {} forms, expected {}", parsed.len(), forms.len())) }
        for (p, t) in parsed.iter().zip(forms) {
            let mut da = BoxDatumAllocator::<TextVec<PosStr>, i64>::default();
            let built = mk_datum(t, &mut da, &mut rng);
            match p {
                Ok(p) => if *p != built || built != *p { return Err("the library's equality says the parsed tree differs from the written one".into()) },
                Err(_) => return Err("written tree did not parse".into()),
            }
            c.count("compared with the library's equality", 1);
        }
        Ok(())
    };
    ctx.stage("trees", ctx.pick(640_000, 3_840_000), |c| {
        let mut left = c.rng.size(40);
        let forms = gen::siblings(&mut c.rng, &mut left, 0);
        let Some(w) = write_forms(&forms, &def, &mut c.rng) else { return Ok(()) };
        let cfg = if c.rng.chance(1, 2) { base_cfg() } else { *c.rng.pick(&cfgs) };
        check(c, &forms, &w, cfg)?;
        if c.idx % 4 == 0 { real_eq(c, &forms, &w)? }
        Ok(())
    });
    let n = gen::count_strings(5, ctx.pick(7, 9));
    let again = |c: &mut Case, src: &str| -> Result<(), String> {
        let job = Job::plain(src, &[], &def);
        c.describe(describe(&job, None));
        let r = run_cfg(base_cfg(), &job);
        let mut forms = vec![];
        for it in r.items { match it { Item::Ok(t) => forms.push(t), _ => return Ok(()) } }
        let Some(w) = write_forms(&forms, &def, &mut c.rng) else {
            return Err(format!("a parse result is not writable: {}", brief_items(&items_of(&forms))));
        };
        check(c, &forms, &w, base_cfg())
    };
    ctx.stage("reparse-exhaustive", n, |c| { let s = gen::nth_string(c.idx, gen::SMALL); again(c, &s) });
    ctx.stage("reparse-random", ctx.pick(480_000, 2_880_000), |c| {
        let s = gen::input(&mut c.rng, &def, &[], 120);
        again(c, &s)
    });
    ctx.stage("large", ctx.pick(24, 120), |c| {
        let mut forms = vec![];
        let n = 1usize << c.rng.range(8, 13);
        match c.idx % 4 {
            0 => { let mut left = 2 * n; while left > 0 { left -= 1; forms.push(gen::expressible(&mut c.rng, &mut left, 0)) } }
            1 => { let mut t = T::text("leaf"); for _ in 0..n { t = T::comb(T::Text(gen::hostile_text(&mut c.rng, 2)), T::list(vec![t])) } forms.push(t) }
            2 => { let mut t = T::text("leaf"); for _ in 0..n { t = T::comb(t, T::EmptyList) } forms.push(t) }
            _ => forms.push(T::comb(T::text("h"), T::list((0..n).flat_map(|_| [T::Text(gen::hostile_text(&mut c.rng, 3)), T::EmptyNest]).collect()))),
        }
        let Some(w) = write_forms(&forms, &def, &mut c.rng) else { return Ok(()) };
        check(c, &forms, &w, base_cfg())
    });
}


// ----------------------------------------------------------------------- C04

/// Compares all positions of an observed text with the expected character
/// indices; `starts` maps character indices to byte offsets of the whole source.
fn check_text_pos(e: &Tx, g: &Tx, starts: &[usize], whole: Option<(usize, usize)>) -> Result<(), String> {
    if e.s != g.s { return Ok(()) } // content is judged elsewhere
    if e.cpos != g.cpos {
        let i = e.cpos.iter().zip(&g.cpos).position(|(a, b)| a != b).unwrap_or(0);
        return Err(format!("character {i} of text {:?} reports index {:?}, expected {:?}", brief_str(&g.s), g.cpos.get(i), e.cpos.get(i)));
    }
    if let Some(w) = whole {
        for (i, &cp) in e.cpos.iter().enumerate() {
            if g.bpos.get(i) != Some(&starts[cp]) {
                return Err(format!("character {i} of text {:?} reports byte offset {:?}, expected {}", brief_str(&g.s), g.bpos.get(i), starts[cp]));
            }
            if g.srcs.get(i) != Some(&w) {
                return Err(format!("character {i} of text {:?} does not refer to the source string", brief_str(&g.s)));
            }
        }
    }
    // Chunks report the position of their first character.
    let mut at = 0;
    let ws = char_starts(&g.s);
    let mut byte = 0;
    for ck in &g.chunks {
        if ck.len == 0 { continue }
        while ws[at] < byte { at += 1 }
        if ck.cpos != e.cpos[at] {
            return Err(format!("a chunk of text {:?} reports index {}, its first character is at {}", brief_str(&g.s), ck.cpos, e.cpos[at]));
        }
        if whole.is_some() && ck.bpos != starts[e.cpos[at]] {
            return Err(format!("a chunk of text {:?} reports byte {}, its first character is at byte {}", brief_str(&g.s), ck.bpos, starts[e.cpos[at]]));
        }
        byte += ck.len;
    }
    Ok(())
}

fn brief_str(s: &str) -> String { s.chars().take(40).collect() }

fn check_item_pos(e: &Item, g: &Item, starts: &[usize], whole: Option<(usize, usize)>) -> Result<u64, String> {
    let mut n = 0;
    match (e, g) {
        (Item::Ok(a), Item::Ok(b)) => {
            if !a.same(b) { return Ok(0) }
            let (mut va, mut vb) = (vec![], vec![]);
            a.texts(&mut |x| va.push(x));
            b.texts(&mut |x| vb.push(x));
            for (x, y) in va.iter().zip(&vb) {
                check_text_pos(x, y, starts, whole)?;
                n += x.cpos.len() as u64;
            }
        }
        (Item::Unbalanced { cp: a, .. }, Item::Unbalanced { cp: b, bp, src }) => {
            n += 1;
            if a != b { return Err(format!("unbalanced end at character {a} is reported at {b}")) }
            if let Some(w) = whole {
                if *bp != starts[*a] { return Err(format!("unbalanced end at byte {} is reported at byte {bp}", starts[*a])) }
                if *src != Some(w) { return Err("the position of an unbalanced end does not refer to the source string".into()) }
            }
        }
        _ => {}
    }
    Ok(n)
}

fn position_case(c: &mut Case, src: &str, d: &Delims, cfg: Cfg, splits: &[usize], macs: &[Mac], levels: usize) -> Result<(), String> {
    let mut job = Job::plain(src, splits, d);
    job.macs = macs;
    job.bind = if macs.is_empty() { BindKind::Empty } else { BindKind::Pairs };
    job.reparse = levels;
    c.describe(describe(&job, Some(cfg)));
    let cs: Vec<char> = src.chars().collect();
    let starts = char_starts(src);
    let e = model::expected(&cs, d, macs);
    let r = run_cfg(cfg, &job);
    c.eval();
    let mut n = 0;
    // Positions are judged wherever the content is the expected one.
    let agree = e.items.len() == r.items.len();
    for (x, y) in e.items.iter().zip(&r.items) {
        n += check_item_pos(x, y, &starts, r.whole)?;
    }
    for (x, y) in e.calls.iter().zip(&r.calls) {
        if !x.same(y) { continue }
        for (a, b) in [(&x.operator, &y.operator), (&x.operands, &y.operands)] {
            n += check_item_pos(&Item::Ok(a.clone()), &Item::Ok(b.clone()), &starts, r.whole)?;
        }
    }
    if !agree { c.count("runs with unexpected content (judged by other checks)", 1) }
    for (tx, items) in &r.again {
        // The characters of the text are the source; positions stay those of
        // the original source.
        let sub: Vec<char> = tx.s.chars().collect();
        let e2 = model::expected(&sub, d, macs);
        c.count("texts parsed again", 1);
        for (x, y) in e2.items.iter().zip(items) {
            let mut x = x.clone();
            remap(&mut x, &tx.cpos);
            n += check_item_pos(&x, y, &starts, r.whole).map_err(|m| format!("parsing the text {:?} again: {m}", brief_str(&tx.s)))?;
        }
    }
    c.count("positions compared", n);
    if n > 0 { c.nontrivial(mix(hash_str(src), mix(hash_str(&cfg.name()), splits.len() as u64))) }
    c.sample(|| format!("{} {src:?} splits {splits:?} -> {}", cfg.name(), brief_items(&r.items)));
    Ok(())
}

fn remap(i: &mut Item, map: &[usize]) {
    fn go(t: &mut T, map: &[usize]) {
        match t {
            T::Text(x) => for p in &mut x.cpos { *p = map[*p] },
            T::Comb(a, b) => { go(a, map); go(b, map) }
            T::List(v, t) => { for x in v { go(x, map) } if let Some(t) = t { go(t, map) } }
            _ => {}
        }
    }
    match i {
        Item::Ok(t) => go(t, map),
        Item::Unbalanced { cp, .. } => *cp = map[*cp],
        _ => {}
    }
}

pub fn c04(ctx: &mut Ctx) {
    ctx.rule = "exhaustive small, random (multi-byte heavy), structured, erroneous and large inputs over every configuration and chunk split, with raw-text macros whose texts are parsed again up to three levels; an evaluation compares the position of every character, chunk and unbalanced end with the independently computed index, byte offset and source; non-trivial: at least one position was compared, distinct by input, configuration and number of splits".into();
    let def = Delims::default_set();
    let cfgs = all_cfgs();
    let len = ctx.pick(7, 9);
    let alphabet = ['é', ' ', '{', '}', '\\'];
    ctx.stage("exhaustive", gen::count_strings(5, len), |c| {
        let s = gen::nth_string(c.idx, &alphabet);
        let sp = gen::splits(&mut c.rng, s.chars().count());
        position_case(c, &s, &def, base_cfg(), &[], &[], 0)?;
        let cfg = *c.rng.pick(&cfgs);
        position_case(c, &s, &def, cfg, &sp, &[], 0)
    });
    ctx.stage("random", ctx.pick(960_000, 5_760_000), |c| {
        let d = if c.rng.chance(4, 5) { def.clone() } else { gen::delims(&mut c.rng) };
        let with_macros = c.rng.chance(1, 2) && !d.start.is_empty() && !d.end.is_empty() && !d.esc.is_empty();
        let macs: Vec<Mac> = if with_macros {
            vec![Mac { key: T::text("m"), raw: true, act: model::Act::Operands },
                 Mac { key: T::text("é"), raw: false, act: model::Act::Operands },
                 Mac { key: T::text("b"), raw: true, act: model::Act::Rebuild }]
        } else { vec![] };
        let heads: Vec<String> = if with_macros { vec!["m".into(), "é".into(), "b".into()] } else { vec![] };
        let max = if c.rng.chance(1, 60) { 3000 } else { 90 };
        let s = gen::input(&mut c.rng, &d, &heads, max);
        let sp = gen::splits(&mut c.rng, s.chars().count());
        let cfg = *c.rng.pick(&cfgs);
        let levels = if c.rng.chance(1, 2) { c.rng.range(1, 3) } else { 0 };
        position_case(c, &s, &d, cfg, &sp, &macs, levels)
    });
    let quick = ctx.quick();
    ctx.stage("unicode", (0x11_0000 / gen::SWEEP_BLOCK) as u64, |c| match sampled_sweep(c, quick, &def) {
        Some(s) => {
            let cfg = if c.rng.chance(1, 2) { base_cfg() } else { *c.rng.pick(&cfgs) };
            let sp = gen::splits(&mut c.rng, s.chars().count());
            position_case(c, &s, &def, cfg, &sp, &[], 0)
        }
        None => Ok(()),
    });
    magnitude_stage(ctx, |c, s, d, cfg| {
        let n = s.chars().count();
        let sp = if c.rng.chance(1, 2) && n < 5000 { (0..=n).collect() } else { gen::splits(&mut c.rng, n) };
        position_case(c, s, d, cfg, &sp, &[], 0)
    });
    // Long strings and chunks, what matters lying beyond sizes a counter may have.
    ctx.stage("long", ctx.pick(2, 8) * cfgs.len() as u64, |c| {
        let cfg = cfgs[c.idx as usize % cfgs.len()];
        let (s, sp) = gen::long(&mut c.rng, &def);
        position_case(c, &s, &def, cfg, &sp, &[], 0)
    });
    ctx.stage("from-strings", ctx.pick(60_000, 600_000), |c| {
        let s = gen::input(&mut c.rng, &def, &[], 30);
        let s = if c.rng.chance(1, 4) { gen::weird_start(&mut c.rng) + &s } else { s };
        c.describe(format!("texts made directly from {s:?}"));
        match c.idx % 12 {
            0 => direct_case::<TextVec<PosStr>>(c, &s),
            1 => direct_case::<TextDatumList<PosStr, i64>>(c, &s),
            2 => direct_case::<TextVec<PosStrish<Rc<str>>>>(c, &s),
            3 => direct_case::<TextVec<PosStrish<Rc<String>>>>(c, &s),
            4 => direct_case::<TextVec<PosStrish<Rc<Box<str>>>>>(c, &s),
            5 => direct_case::<TextVec<PosStrish<Arc<str>>>>(c, &s),
            6 => direct_case::<TextVec<PosStrish<Arc<String>>>>(c, &s),
            7 => direct_case::<TextVec<PosStrish<Arc<Box<str>>>>>(c, &s),
            8 => direct_case::<TextDatumList<PosStrish<Rc<str>>, i64>>(c, &s),
            9 => direct_case::<TextDatumList<PosStrish<Rc<String>>, i64>>(c, &s),
            10 => direct_case::<TextDatumList<PosStrish<Arc<Box<str>>>, i64>>(c, &s),
            _ => direct_case::<TextDatumList<PosStrish<Arc<str>>, i64>>(c, &s),
        }
    });
}

/// Texts made by the conversions, not by a parser: the positions count from zero.
fn direct_case<'s, TT>(c: &mut Case, s: &'s str) -> Result<(), String>
    where TT: Text, TT::Chunk: From<&'s str>, TT::Pos: PosView,
{
    let made = [lib(|| TT::from_str(s)), lib(|| TT::from_chunkish(s)), lib(|| TT::from_chunkish(TT::Chunk::from(s))), lib(|| TT::from(TT::Chunk::from(s)))];
    for (k, t) in made.iter().enumerate() {
        let mut got = lib(|| t.iter());
        let mut n = 0;
        for (i, (b, ch)) in s.char_indices().enumerate() {
            let x = lib(|| got.next());
            c.eval();
            n += 1;
            match &x {
                Some(x) if x.ch == ch && x.pos.cp() == i && (x.pos.bp() == NOPOS || x.pos.bp() == b) && x.pos.src().map_or(true, |(a, l)| (a, l) == (s.as_ptr() as usize, s.len())) => {}
                x => return Err(format!("character {i} of the text made by conversion {k} is {:?}", x.as_ref().map(|x| (x.ch, x.pos.cp(), x.pos.bp())))),
            }
        }
        if lib(|| got.next()).is_some() { return Err(format!("the text made by conversion {k} has more than the {n} characters of its string")) }
    }
    c.nontrivial(mix(hash_str(s), hash_str(std::any::type_name::<TT>())));
    Ok(())
}

// ----------------------------------------------------------------------- C05

fn same_run(a: &Run, b: &Run) -> Option<String> {
    if let Some(i) = same_items(&a.items, &b.items) {
        let f = |v: &[Item]| v.get(i).map_or("nothing".into(), Item::brief);
        return Some(format!("item {i}: {} versus {}", f(&a.items), f(&b.items)));
    }
    let k = a.calls.len().max(b.calls.len());
    for i in 0..k {
        match (a.calls.get(i), b.calls.get(i)) {
            (Some(x), Some(y)) if x.same(y) => {}
            (x, y) => return Some(format!("macro call {i}: {x:?} versus {y:?}")),
        }
    }
    None
}

fn equiv_case(c: &mut Case, src: &str, macs: &[Mac], d: &Delims, cfgs: &[Cfg], given: Option<&[usize]>) -> Result<(), String> {
    let mut job = Job::plain(src, &[], d);
    job.macs = macs;
    if !macs.is_empty() { job.bind = BindKind::Pairs }
    job.seed = c.rng.next();
    c.describe(describe(&job, Some(base_cfg())));
    let base = run_cfg(base_cfg(), &job);
    let n = src.chars().count();
    for cfg in cfgs {
        let sp = given.map_or_else(|| gen::splits(&mut c.rng, n), <[usize]>::to_vec);
        let mut j2 = job.clone();
        j2.splits = &sp;
        j2.seed = c.rng.next();
        if !macs.is_empty() && c.rng.chance(1, 2) { j2.bind = BindKind::Map(HashMode::Random) }
        c.describe(describe(&j2, Some(*cfg)));
        let r = run_cfg(*cfg, &j2);
        c.eval();
        c.count(&format!("runs over {:?} sources", cfg.src), 1);
        if n > 0 && base.items.iter().any(|i| !matches!(i, Item::Ok(T::Text(_)))) {
            c.nontrivial(mix(hash_str(src), mix(hash_str(&cfg.name()), hash_str(&format!("{sp:?}")))));
        }
        if let Some(m) = same_run(&base, &r) {
            return Err(format!("in-memory string and {} with splits {:?} disagree: {m}", cfg.name(), &sp[..sp.len().min(60)]));
        }
    }
    c.sample(|| format!("{src:?} in {} other configurations -> {}", cfgs.len(), brief_items(&base.items)));
    Ok(())
}

pub fn c05(ctx: &mut Ctx) {
    ctx.rule = "one input parsed as a single in-memory string and, with random chunk splits including empty chunks, through other combinations of source, text, storage and allocator types; an evaluation compares items, texts, errors and macro calls of one such pair of runs; non-trivial: the result is more than plain texts, distinct by input, configuration and splits".into();
    let def = Delims::default_set();
    let cfgs = all_cfgs();
    ctx.add(|c| c.count("configurations", cfgs.len() as u64));
    ctx.stage("exhaustive", gen::count_strings(5, ctx.pick(6, 8)), |c| {
        let s = gen::nth_string(c.idx, &['é', ' ', '{', '}', '\\']);
        let some: Vec<Cfg> = (0..3).map(|_| *c.rng.pick(&cfgs)).collect();
        equiv_case(c, &s, &[], &def, &some, None)
    });
    ctx.stage("all-configurations", ctx.pick(24_000, 144_000), |c| {
        let (macs, heads) = if c.rng.chance(1, 2) { gen::macros(&mut c.rng, &def, true) } else { (vec![], vec![]) };
        let s = gen::input(&mut c.rng, &def, &heads, 120);
        equiv_case(c, &s, &macs, &def, &cfgs, None)
    });
    // Every way to split short inputs.
    ctx.stage("all-splits", ctx.pick(300, 6_000), |c| {
        let s = loop {
            let s = gen::input(&mut c.rng, &def, &[], 9);
            let n = s.chars().count();
            if (2..=9).contains(&n) { break s }
        };
        let n = s.chars().count();
        let job = Job::plain(&s, &[], &def);
        let base = run_cfg(base_cfg(), &job);
        for bits in 0..1u32 << (n + 1) {
            let sp: Vec<usize> = (0..=n).filter(|i| bits >> i & 1 == 1).collect();
            let cfg = cfgs[(bits as usize + c.idx as usize) % cfgs.len()];
            let r = run_cfg(cfg, &Job { splits: &sp, ..job.clone() });
            c.eval();
            c.count("splits of short inputs", 1);
            if let Some(m) = same_run(&base, &r) {
                c.describe(describe(&Job { splits: &sp, ..job.clone() }, Some(cfg)));
                return Err(format!("{} with splits {sp:?} disagrees with the unsplit string: {m}", cfg.name()));
            }
        }
        Ok(())
    });
    ctx.stage("one-call", ctx.pick(128_000, 768_000), |c| {
        let s = gen::input(&mut c.rng, &def, &[], 200);
        let job = Job::plain(&s, &[], &def);
        c.describe(describe(&job, None));
        let mut base = run_cfg(base_cfg(), &job).items;
        if let Some(i) = base.iter().position(Item::is_err) { base.truncate(i + 1) }
        let a: Vec<Item> = kul::common::inmem::parse_str_with::<i64, u32>(&s, kul::common::inmem::OperatorBindings::default())
            .iter().map(obs_result).collect();
        let b: Vec<Item> = kul::common::stream::parse_stream_with::<_, i64, u32>(split_strings(&mut c.rng, &s).into_iter(), kul::common::stream::OperatorBindings::default())
            .iter().map(obs_result).collect();
        c.evals(2);
        if let Some(m) = diff(&base, &a) { return Err(format!("parse_str_with: {m}")) }
        if let Some(m) = diff(&base, &b) { return Err(format!("parse_stream_with: {m}")) }
        super::flow::plain_calls(c, &s)
    });
    magnitude_stage(ctx, |c, s, d, cfg| equiv_case(c, s, &[], d, &[cfg], None));
    ctx.stage("long", ctx.pick(1, 4) * cfgs.len() as u64, |c| {
        let cfg = cfgs[c.idx as usize % cfgs.len()];
        let (s, sp) = gen::long(&mut c.rng, &def);
        equiv_case(c, &s, &[], &def, &[cfg], Some(&sp))
    });
}

pub fn split_strings(rng: &mut Rng, s: &str) -> Vec<String> {
    let st = char_starts(s);
    let sp = gen::splits(rng, st.len() - 1);
    let mut prev = 0;
    sp.iter().chain(std::iter::once(&(st.len() - 1))).map(|&c| { let p = s[st[prev]..st[c]].to_string(); prev = c; p }).collect()
}

// ----------------------------------------------------------------------- C06

fn zero_copy_case(c: &mut Case, src: &str, cfg: Cfg, splits: &[usize]) -> Result<(), String> {
    let def = Delims::default_set();
    let mut job = Job::plain(src, splits, &def);
    let macs = [Mac { key: T::text("m"), raw: true, act: model::Act::Operands }];
    job.macs = &macs;
    job.bind = BindKind::Pairs;
    c.describe(describe(&job, Some(cfg)));
    let r = run_cfg(cfg, &job);
    c.eval();
    let mut n = 0;
    let mut bad = None;
    let mut look = |x: &Tx| {
        let mut len = 0;
        for ck in &x.chunks {
            len += ck.len;
            if ck.len == 0 { continue }
            n += 1;
            let inside = |&(p, l): &(usize, usize)| ck.ptr >= p && ck.ptr + ck.len <= p + l;
            let ok = match &r.whole {
                Some(w) => inside(w),
                None => r.pieces.iter().any(|&(p, l, _)| inside(&(p, l))),
            };
            if !ok { bad = Some(format!("a chunk of text {:?} is not a slice of the source's own memory", brief_str(&x.s))) }
        }
        if len != x.s.len() { bad = Some(format!("the chunks of text {:?} do not add up to it", brief_str(&x.s))) }
    };
    for it in &r.items { if let Item::Ok(t) = it { t.texts(&mut look) } }
    for call in &r.calls { call.operator.texts(&mut look); call.operands.texts(&mut look) }
    c.count("chunks inside the source", n);
    if n > 0 { c.nontrivial(mix(hash_str(src), mix(hash_str(&cfg.name()), hash_str(&format!("{splits:?}"))))) }
    c.sample(|| format!("{} {src:?} splits {splits:?}: {n} chunks inside the source buffers", cfg.name()));
    bad.map_or(Ok(()), Err)
}

pub fn c06(ctx: &mut Ctx) {
    ctx.rule = "in-memory and shared-chunk sources in every configuration that has them; address evaluations check that every non-empty chunk of every delivered text lies inside the source string or one of its chunk buffers; growth evaluations parse templates whose text runs are scaled by large factors and compare the heap bytes and requests made inside the parse steps; non-trivial: a chunk was located, or a scaled template was measured, distinct by input, configuration and splits".into();
    let cfgs: Vec<Cfg> = all_cfgs().into_iter().filter(|c| c.src != SrcKind::Chars).collect();
    let def = Delims::default_set();
    ctx.stage("exhaustive", gen::count_strings(5, ctx.pick(7, 9)), |c| {
        let s = gen::nth_string(c.idx, &['é', ' ', '{', '}', '\\']);
        let cfg = *c.rng.pick(&cfgs);
        let sp = gen::splits(&mut c.rng, s.chars().count());
        zero_copy_case(c, &s, cfg, &sp)
    });
    ctx.stage("random", ctx.pick(640_000, 3_840_000), |c| {
        let max = if c.rng.chance(1, 60) { 3000 } else { 100 };
        let s = gen::input(&mut c.rng, &def, &["m".into()], max);
        let cfg = *c.rng.pick(&cfgs);
        let sp = gen::splits(&mut c.rng, s.chars().count());
        zero_copy_case(c, &s, cfg, &sp)
    });
    ctx.stage("long", ctx.pick(2, 8) * cfgs.len() as u64, |c| {
        let cfg = cfgs[c.idx as usize % cfgs.len()];
        let (s, sp) = gen::long(&mut c.rng, &def);
        zero_copy_case(c, &s, cfg, &sp)
    });
    // Growth: text runs of a template are stretched; the number of source
    // chunks, forms and escapes stays the same.
    ctx.stage("growth", ctx.pick(24_000, 144_000), |c| {
        let shape = gen::input(&mut c.rng, &def, &[], 40);
        let cfg = *c.rng.pick(&cfgs);
        let pieces = c.rng.below(4);
        let stretch = |k: usize| -> (String, Vec<usize>) {
            let mut s = String::new();
            let mut prev_esc = false;
            for ch in shape.chars() {
                s.push(ch);
                if !prev_esc && !def.is_special(ch) && !def.is_ws(ch) {
                    for _ in 0..k { s.push(ch) }
                }
                prev_esc = ch == '\\' && !prev_esc;
            }
            let n = s.chars().count();
            (s, (1..=pieces).map(|i| i * n / (pieces + 1)).collect())
        };
        let measure = |k: usize| {
            let (s, sp) = stretch(k);
            let r = run_cfg(cfg, &Job::plain(&s, &sp, &def));
            (r.heap_calls, r.heap_bytes, s.len(), r.items.len())
        };
        c.describe(format!("template {shape:?}, {pieces} extra source chunks, {}", cfg.name()));
        let (a, b) = (measure(40), measure(40 * 25));
        c.eval();
        if a.2 == b.2 { return Ok(()) }
        c.nontrivial(mix(hash_str(&shape), mix(hash_str(&cfg.name()), pieces as u64)));
        c.count("growth measurements", 1);
        c.max("heap bytes of one scaled parse", b.1);
        c.max("length ratio", (b.2 / a.2.max(1)) as u64);
        c.sample(|| format!("{} template {shape:?}: {} bytes of input -> {} heap bytes, {} bytes of input -> {} heap bytes", cfg.name(), a.2, a.1, b.2, b.1));
        // Where the fixed splits fall differs between the two lengths, so a
        // chunk boundary more or less inside a text is allowed for.
        let slack = 4096 * (pieces as u64 + 1) * u64::from(pieces > 0) + 64;
        if b.3 != a.3 { return Ok(()) }
        if b.1 > a.1 + slack || b.0 > a.0 + 64 * (pieces as u64 + 1) {
            return Err(format!("heap use grows with text length: {} bytes of input took {} heap bytes in {} requests, {} bytes took {} in {}", a.2, a.1, a.0, b.2, b.1, b.0));
        }
        Ok(())
    });
}

// ----------------------------------------------------------------------- C07

pub fn c07(ctx: &mut Ctx) {
    ctx.rule = "inputs with any number of unmatched delimiters (exhaustive small, mutated structured, delimiter-dense, large) over all source kinds; an evaluation compares every item, the number and places of errors, what is delivered around them and the end of the iteration with the independent reader, and separately compares 'A } B' with A and B parsed alone; non-trivial: at least one delimiter error, distinct by input and configuration".into();
    let def = Delims::default_set();
    let cfgs = all_cfgs();
    let check = |c: &mut Case, s: &str, d: &Delims, cfg: Cfg, macs: &[Mac]| -> Result<(), String> {
        let sp = gen::splits(&mut c.rng, s.chars().count());
        let mut job = Job::plain(s, &sp, d);
        job.macs = macs;
        if !macs.is_empty() { job.bind = BindKind::Pairs }
        c.describe(describe(&job, Some(cfg)));
        let cs: Vec<char> = s.chars().collect();
        let e = model::expected(&cs, d, macs);
        let errs = e.items.iter().filter(|i| i.is_err()).count();
        let r = run_cfg(cfg, &job);
        c.eval();
        tally(c, &e);
        if errs > 0 { c.nontrivial(mix(hash_str(s), hash_str(&cfg.name()))) }
        c.sample(|| format!("{} {s:?} -> {}", cfg.name(), brief_items(&r.items)));
        if let Some(m) = diff(&e.items, &r.items) { return Err(m) }
        for (x, y) in e.items.iter().zip(&r.items) {
            if !x.same_with_err_pos(y) { return Err(format!("expected {} but observed {}", x.brief(), y.brief())) }
        }
        Ok(())
    };
    ctx.stage("exhaustive", gen::count_strings(5, ctx.pick(8, 10)), |c| {
        let s = gen::nth_string(c.idx, gen::SMALL);
        let cfg = if c.idx % 4 == 0 { *c.rng.pick(&cfgs) } else { base_cfg() };
        check(c, &s, &def, cfg, &[])
    });
    ctx.stage("random", ctx.pick(640_000, 3_840_000), |c| {
        let d = if c.rng.chance(3, 4) { def.clone() } else { gen::delims(&mut c.rng) };
        let b = 1 + c.rng.size(20);
        let s = gen::structured(&mut c.rng, &d, &[], b);
        let s = if c.rng.chance(1, 8) { gen::soup(&mut c.rng, &d, 60) } else { gen::mutate(&mut c.rng, &d, &s) };
        let cfg = *c.rng.pick(&cfgs);
        check(c, &s, &d, cfg, &[])
    });
    ctx.stage("with-macros", ctx.pick(240_000, 1_440_000), |c| {
        let (macs, heads) = gen::macros(&mut c.rng, &def, true);
        let s = gen::structured(&mut c.rng, &def, &heads, 6);
        let s = gen::mutate(&mut c.rng, &def, &s);
        let cfg = *c.rng.pick(&cfgs);
        check(c, &s, &def, cfg, &macs)
    });
    ctx.stage("pieces", ctx.pick(240_000, 1_440_000), |c| {
        // Well-formed pieces joined by stray ends.
        let cfg = *c.rng.pick(&cfgs);
        let k = c.rng.range(1, 5);
        let mut whole = String::new();
        let mut want: Vec<Item> = vec![];
        for i in 0..k {
            let part = if c.rng.chance(1, 6) { String::new() } else { gen::structured(&mut c.rng, &def, &[], 3) };
            let mut items = run_cfg(base_cfg(), &Job::plain(&part, &[], &def)).items;
            if items.iter().any(Item::is_err) { return Ok(()) }
            whole.push_str(&part);
            let last = i + 1 == k;
            if !last {
                whole.push('}');
                // The interrupted top-level text run is discarded.
                if matches!(items.last(), Some(Item::Ok(T::Text(_)))) { items.pop(); }
                items.push(Item::Unbalanced { cp: 0, bp: 0, src: None });
            }
            want.extend(items);
        }
        if c.rng.chance(1, 3) {
            // And an unclosed nest at the end.
            let mut t = gen::structured(&mut c.rng, &def, &[], 2);
            if let Some(p) = t.rfind('}') { t.truncate(p) }
            let open = run_cfg(base_cfg(), &Job::plain(&t, &[], &def)).items;
            if matches!(open.last(), Some(Item::Missing)) && !matches!(want.last(), Some(Item::Ok(T::Text(_)))) {
                whole.push_str(&t);
                want.extend(open);
            }
        }
        let sp = gen::splits(&mut c.rng, whole.chars().count());
        let job = Job::plain(&whole, &sp, &def);
        c.describe(describe(&job, Some(cfg)));
        let r = run_cfg(cfg, &job);
        c.eval();
        c.nontrivial(mix(hash_str(&whole), hash_str(&cfg.name())));
        diff(&want, &r.items).map_or(Ok(()), |m| Err(format!("pieces parsed alone and joined by stray ends differ: {m}")))
    });
    magnitude_stage(ctx, |c, s, d, cfg| check(c, s, d, cfg, &[]));
}

// ------------------------------------------------------------------ C08, C09

pub fn bind_kind(rng: &mut Rng) -> BindKind {
    match rng.below(6) {
        0 | 1 => BindKind::Pairs,
        2 => BindKind::Map(HashMode::Constant),
        3 => BindKind::Map(HashMode::Weak),
        4 => BindKind::Map(HashMode::Fnv),
        _ => BindKind::Map(HashMode::Random),
    }
}

pub fn check_calls(e: &Expected, r: &Run) -> Option<String> {
    let n = e.calls.len().max(r.calls.len());
    for i in 0..n {
        match (e.calls.get(i), r.calls.get(i)) {
            (Some(x), Some(y)) if x.same(y) => {}
            (x, y) => {
                let f = |c: Option<&model::Call>| c.map_or("none".into(), |c| format!("macro {} with operator {} and operands {}", c.mac, c.operator.brief(), c.operands.brief()));
                return Some(format!("call {i}: expected {}, observed {}", f(x), f(y)));
            }
        }
    }
    None
}

pub fn macro_case(c: &mut Case, s: &str, d: &Delims, macs: &[Mac], cfg: Cfg, bind: BindKind) -> Result<(), String> {
    let sp = gen::splits(&mut c.rng, s.chars().count());
    let mut job = Job::plain(s, &sp, d);
    job.macs = macs;
    job.bind = bind;
    job.seed = c.rng.next();
    c.describe(describe(&job, Some(cfg)));
    let cs: Vec<char> = s.chars().collect();
    let e = model::expected(&cs, d, macs);
    let r = run_cfg(cfg, &job);
    c.eval();
    tally(c, &e);
    for call in &e.calls {
        c.count(if macs[call.mac].raw { "calls with raw text" } else { "calls with a list" }, 1);
        c.count(&format!("calls doing {:?}", std::mem::discriminant(&macs[call.mac].act)).replace("Discriminant", "act"), 1);
    }
    if !e.calls.is_empty() { c.nontrivial(mix(hash_str(s), mix(hash_str(&cfg.name()), hash_str(&format!("{macs:?}"))))) }
    c.sample(|| format!("{s:?} with {:?} -> {} after {} calls", macs.iter().map(|m| (m.key.brief(), m.raw, m.act.clone())).collect::<Vec<_>>(), brief_items(&r.items), r.calls.len()));
    if let Some(m) = check_calls(&e, &r) { return Err(m) }
    if let Some(m) = diff(&e.items, &r.items) { return Err(m) }
    if e.calls_at != r.calls_at { return Err(format!("calls made by the time each item was delivered: expected {:?}, observed {:?}", e.calls_at, r.calls_at)) }
    Ok(())
}

pub fn c08(ctx: &mut Ctx) {
    ctx.rule = "random macro sets (text, compound, empty, list and payload keys; raw-text and list macros that remove, fail, build forms, stand in head position) and inputs rich in bound heads, in every configuration and kind of bindings, plus all short strings over an alphabet containing two bound heads; an evaluation compares the complete log of calls, with operators and operands, and all items with the independent reader; non-trivial: at least one call, distinct by input, configuration and macro set".into();
    let def = Delims::default_set();
    let cfgs = all_cfgs();
    ctx.stage("exhaustive", gen::count_strings(6, ctx.pick(7, 9)), |c| {
        use model::Act::*;
        let acts = [Remove, Operands, Operator, Rebuild, Fail(7), EmptyNest, Cons, Count, EmptyList];
        let s = gen::nth_string(c.idx, &['m', 'n', ' ', '{', '}', '\\']);
        let k = c.idx as usize;
        let macs = [Mac { key: T::text("m"), raw: k % 2 == 0, act: acts[k % 9].clone() },
                    Mac { key: T::text("n"), raw: k % 3 == 0, act: acts[(k / 9) % 9].clone() },
                    Mac { key: T::EmptyNest, raw: k % 5 == 0, act: acts[(k / 81) % 9].clone() }];
        macro_case(c, &s, &def, &macs[..2 + k % 2], base_cfg(), BindKind::Pairs)
    });
    ctx.stage("random", ctx.pick(960_000, 5_760_000), |c| {
        let d = if c.rng.chance(5, 6) { def.clone() } else {
            loop {
                let d = gen::delims(&mut c.rng);
                if !d.start.is_empty() && !d.end.is_empty() && !d.esc.is_empty() && d.ws.as_ref().map_or(true, |w| !w.is_empty()) { break d }
            }
        };
        let (macs, heads) = gen::macros(&mut c.rng, &d, true);
        let max = if c.rng.chance(1, 60) { 2000 } else { 90 };
        let s = gen::input(&mut c.rng, &d, &heads, max);
        let cfg = if c.rng.chance(1, 3) { base_cfg() } else { *c.rng.pick(&cfgs) };
        let b = bind_kind(&mut c.rng);
        macro_case(c, &s, &d, &macs, cfg, b)
    });
    ctx.stage("large", ctx.pick(30, 150), |c| {
        use model::Act::*;
        // Deep nests of calls make the call log quadratic.
        let top = if matches!(c.idx % 5, 2 | 4) { 9 } else { 17 };
        let n = (1usize << c.rng.range(6, top)) + c.rng.below(3) - 1;
        let macs = [Mac { key: T::text("m"), raw: false, act: [Remove, Operands, Rebuild, Count][c.idx as usize % 4].clone() },
                    Mac { key: T::text("r"), raw: true, act: [Remove, Operands, Count][c.idx as usize % 3].clone() }];
        let s = match c.idx % 5 {
            0 => "{m x{r \\}{}}}".repeat(n),
            1 => format!("{{h {}}}", "{m}t{r}".repeat(n)),
            2 => "{m ".repeat(n) + &"}".repeat(n),
            3 => format!("{{r {}{}}}", "{m ".repeat(n), "}".repeat(n)),
            _ => format!("{}h a}}", "{{m}".repeat(n)) + &"}".repeat(n),
        };
        let cfg = *c.rng.pick(&cfgs);
        macro_case(c, &s, &def, &macs, cfg, BindKind::Map(HashMode::Random))
    });
}

/// Parses under `d`, and renamed under the default delimiters, and compares.
fn rename_case(c: &mut Case, s: &str, d: &Delims, def: &Delims, cfgs: &[Cfg], macs: &[Mac]) -> Result<(), String> {
    let cs: Vec<char> = s.chars().collect();
    let mut spare = 0u32;
    let mapped: String = cs.iter().map(|&ch| {
        if d.start.contains(&ch) { '{' } else if d.end.contains(&ch) { '}' } else if d.esc.contains(&ch) { '\\' }
        else if d.is_ws(ch) { ' ' }
        else if def.is_special(ch) || def.is_ws(ch) { spare += 1; char::from_u32(0xe000 + spare % 0x1000).unwrap() }
        else { ch }
    }).collect();
    let cfg = if c.rng.chance(1, 2) { base_cfg() } else { *c.rng.pick(cfgs) };
    let sp = gen::splits(&mut c.rng, cs.len());
    let mut job = Job::plain(s, &sp, d);
    job.macs = macs;
    if !macs.is_empty() { job.bind = BindKind::Pairs }
    c.describe(format!("{}\nmapped input {mapped:?}", describe(&job, Some(cfg))));
    let custom = run_cfg(cfg, &job);
    let mut plain = run_cfg(base_cfg(), &Job { src: &mapped, splits: &[], delims: def, ..job.clone() });
    for it in &mut plain.items { if let Item::Ok(t) = it { back(t, &cs)? } }
    for call in &mut plain.calls { back(&mut call.operator, &cs)?; back(&mut call.operands, &cs)? }
    c.eval();
    for i in &plain.items { c.count(i.kind(), 1) }
    c.count("macro calls", plain.calls.len() as u64);
    if mapped != s && plain.items.iter().any(|i| !matches!(i, Item::Ok(T::Text(_)))) { c.nontrivial(mix(hash_str(s), hash_str(&format!("{d:?}{macs:?}")))) }
    c.sample(|| format!("{s:?} under start {:?} end {:?} escape {:?} whitespace {:?} -> {}", d.start, d.end, d.esc, d.ws, brief_items(&custom.items)));
    same_run(&plain, &custom).map_or(Ok(()), |m| Err(format!("renamed delimiters change the result: {m}")))
}

pub fn c26(ctx: &mut Ctx) {
    ctx.rule = "random disjoint delimiter classes (including swapped default roles, several or no characters per class) and inputs built for them, also with macros on raw text and on lists; an evaluation parses the input under the custom classes and, independently, the input with each delimiter replaced by the default of its class and each default-only delimiter replaced by an ordinary character under the provided default classifier, and compares structure and mapped-back characters; non-trivial: some character is a delimiter under exactly one of the two choices and the result is more than plain texts, distinct by input and classes".into();
    let def = Delims::default_set();
    let cfgs = all_cfgs();
    ctx.stage("random", ctx.pick(1_920_000, 11_520_000), |c| {
        let d = gen::delims(&mut c.rng);
        // Inputs for the custom classes, with default delimiters mixed in.
        let mut s = gen::input(&mut c.rng, &d, &[], 80);
        if c.rng.chance(1, 2) {
            let mut v: Vec<char> = s.chars().collect();
            for _ in 0..c.rng.range(1, 4) {
                let at = c.rng.below(v.len() + 1);
                v.insert(at, *c.rng.pick(&['{', '}', '\\', ' ', '\n']));
            }
            s = v.into_iter().collect();
        }
        if d.start.is_empty() && c.rng.chance(1, 2) { s.push_str("x{y z}") }
        rename_case(c, &s, &d, &def, &cfgs, &[])
    });
    ctx.stage("macros", ctx.pick(960_000, 5_760_000), |c| {
        let d = loop {
            let d = gen::delims(&mut c.rng);
            if !d.start.is_empty() && !d.end.is_empty() { break d }
        };
        use model::Act::*;
        let acts = [Operands, Operands, Rebuild, Pair, Remove, Operator, Count, EmptyNest, Cons];
        let keys = ["μ", "ξξ", "ψ"];
        let macs: Vec<Mac> = keys.iter().map(|k| Mac { key: T::text(*k), raw: c.rng.chance(2, 3), act: c.rng.pick(&acts).clone() }).collect();
        let heads: Vec<String> = keys.iter().map(|k| k.to_string()).collect();
        let s = gen::input(&mut c.rng, &d, &heads, 80);
        let mut v: Vec<char> = s.chars().collect();
        for _ in 0..c.rng.below(5) {
            let at = c.rng.below(v.len() + 1);
            v.insert(at, *c.rng.pick(&['{', '}', '\\', ' ', '\n']));
        }
        let s: String = v.into_iter().collect();
        rename_case(c, &s, &d, &def, &cfgs, &macs)
    });
    ctx.stage("magnitude", 3 * 16 * 20, |c| {
        let d = loop {
            let d = gen::delims(&mut c.rng);
            if !d.start.is_empty() && !d.end.is_empty() && !d.esc.is_empty() && d.ws.as_ref().map_or(true, |w| !w.is_empty()) { break d }
        };
        let Some((_, s)) = gen::magnitude(c.idx, 17, 12, &d) else { return Ok(()) };
        rename_case(c, &s, &d, &def, &[base_cfg()], &[])
    });
    // Every character as each kind of delimiter.
    let quick = ctx.quick();
    ctx.stage("every-character", 0x11_0000 / 512, |c| {
        if quick && c.idx > 25 && !c.rng.chance(1, 10) { return Ok(()) }
        for u in c.idx as u32 * 512..(c.idx as u32 + 1) * 512 {
            let Some(ch) = char::from_u32(u) else { continue };
            let d0 = Delims { start: vec!['('], end: vec![')'], esc: vec!['/'], ws: Some(vec!['_']), provided_default: false };
            if d0.is_special(ch) || d0.is_ws(ch) { continue }
            let role = (u % 4) as usize;
            let mut d = d0.clone();
            match role { 0 => d.start = vec![ch], 1 => d.end = vec![ch], 2 => d.esc = vec![ch], _ => d.ws = Some(vec![ch]) }
            let o = d.start[0]; let e = d.end[0]; let x = d.esc[0]; let w = d.ws.as_ref().unwrap()[0];
            let s: String = [o, w, 'h', w, w, 't', x, ch, x, x, o, 'i', e, '{', e, e, 'z', x, e].iter().collect();
            let cs: Vec<char> = s.chars().collect();
            let exp = model::expected(&cs, &d, &[]);
            let job = Job::plain(&s, &[], &d);
            let r = run_cfg(base_cfg(), &job);
            c.eval();
            c.count("characters tried as delimiters", 1);
            c.nontrivial(mix(u64::from(u), 77));
            if let Some(m) = diff(&exp.items, &r.items) {
                c.describe(describe(&job, None));
                return Err(m);
            }
        }
        Ok(())
    });
}

fn back(t: &mut T, cs: &[char]) -> Result<(), String> {
    match t {
        T::Text(x) => {
            let mut s = String::new();
            for &p in &x.cpos {
                match cs.get(p) { Some(c) => s.push(*c), None => return Err("a position lies outside the input".into()) }
            }
            x.s = s;
        }
        T::Comb(a, b) => { back(a, cs)?; back(b, cs)? }
        T::List(v, t) => { for x in v { back(x, cs)? } if let Some(t) = t { back(t, cs)? } }
        _ => {}
    }
    Ok(())
}

// ----------------------------------------------------------------------- C11

fn demand_case(c: &mut Case, s: &str, d: &Delims, macs: &[Mac], cfg: Cfg) -> Result<(), String> {
    let n = s.chars().count();
    let sp = gen::splits(&mut c.rng, n);
    let mut job = Job::plain(s, &sp, d);
    job.macs = macs;
    if !macs.is_empty() { job.bind = BindKind::Pairs }
    c.describe(describe(&job, Some(cfg)));
    let cs: Vec<char> = s.chars().collect();
    let e = model::expected(&cs, d, macs);
    let r = run_cfg(cfg, &job);
    c.eval();
    if diff(&e.items, &r.items).is_some() {
        // What is delivered is judged elsewhere; without agreement on it there
        // is nothing to compare the requests with.
        c.count("runs with unexpected content (judged by other checks)", 1);
        return Ok(());
    }
    // Number of pieces that have to be requested to see `k` characters.
    let bounds: Vec<usize> = sp.iter().copied().chain(std::iter::once(n)).collect();
    let pieces_for = |k: usize| -> usize {
        if cfg.src == SrcKind::Chars { return k }
        if k > n { return bounds.len() + 1 }
        if k == 0 { return 0 }
        bounds.iter().position(|&b| b >= k).unwrap() + 1
    };
    for (i, it) in r.items.iter().enumerate() {
        // The end of the input may have to be requested to know that it ends.
        let allow = pieces_for(e.need[i]);
        let got = r.reads_at[i];
        c.count("steps observed", 1);
        if got > allow {
            return Err(format!("when item {i} ({}) was delivered {got} pieces had been requested, only {allow} can be needed to see its end", it.brief()));
        }
        if got < allow { c.count("steps that needed less than allowed", 1) }
    }
    if r.items.len() > 1 { c.nontrivial(mix(hash_str(s), mix(hash_str(&cfg.name()), hash_str(&format!("{sp:?}"))))) }
    c.sample(|| format!("{} {s:?} splits {sp:?}: pieces requested after each item {:?}", cfg.name(), r.reads_at));
    Ok(())
}

pub fn c11(ctx: &mut Ctx) {
    ctx.rule = "streaming sources (character iterators and string iterators, all splits including empty strings, all storage and allocator types) that count what is requested from them; an evaluation runs one input and compares, at every delivered item, the number of requested pieces with the piece holding the last character that item can depend on; non-trivial: at least two items were delivered, distinct by input, configuration and splits".into();
    let def = Delims::default_set();
    let cfgs: Vec<Cfg> = all_cfgs().into_iter().filter(|c| c.src != SrcKind::Text).collect();
    ctx.stage("exhaustive", gen::count_strings(5, ctx.pick(7, 9)), |c| {
        let s = gen::nth_string(c.idx, gen::SMALL);
        let cfg = *c.rng.pick(&cfgs);
        demand_case(c, &s, &def, &[], cfg)
    });
    ctx.stage("random", ctx.pick(960_000, 5_760_000), |c| {
        let d = if c.rng.chance(4, 5) { def.clone() } else { gen::delims(&mut c.rng) };
        let (macs, heads) = if d == def && c.rng.chance(1, 2) { gen::macros(&mut c.rng, &def, true) } else { (vec![], vec![]) };
        let max = if c.rng.chance(1, 60) { 3000 } else { 90 };
        let s = gen::input(&mut c.rng, &d, &heads, max);
        let cfg = *c.rng.pick(&cfgs);
        demand_case(c, &s, &d, &macs, cfg)
    });
    ctx.stage("large", ctx.pick(60, 300), |c| {
        let Some((_, s)) = gen::magnitude(c.idx * 7 % 400, 12, 9, &def) else { return Ok(()) };
        let cfg = *c.rng.pick(&cfgs);
        demand_case(c, &s, &def, &[], cfg)
    });
    ctx.stage("long", ctx.pick(1, 6) * cfgs.len() as u64, |c| {
        let cfg = cfgs[c.idx as usize % cfgs.len()];
        let (s, _) = gen::long(&mut c.rng, &def);
        demand_case(c, &s, &def, &[], cfg)
    });
}
