//! Checks of lookup, one-call functions, exhaustion, robustness, reuse and of
//! how user-supplied parts are driven (C09, C10, C12, C14, C24, C25).

use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::hash::Hash;
use std::rc::Rc;
use std::sync::Arc;

use kul::datum::MutRefDatum;
use kul::parser::*;
use kul::source_stream::*;
use kul::text::chunk::{PosStr, PosStrish};
use kul::text::{TextDatumList, TextVec};
use kul::{Combiner, Datum, DerefTryMut, Error, Parser, SourceStream, Text, TextBase, TextConcat};

use super::parse::{bind_kind, check_calls, describe, diff, macro_case, split_strings};
use crate::configs::*;
use crate::gen;
use crate::heap;
use crate::model::{self, Act, Call, Delims, Mac};
use crate::monsrc::{after_step, MonSrc};
use crate::obs::*;
use crate::rng::{hash_str, mix, Rng};
use crate::runner::*;
use crate::wrap::lib;

type DD<DA> = Datum<<DA as DatumAllocator>::TT, <DA as DatumAllocator>::ET, <DA as DatumAllocator>::DR>;

fn slots<'d, TT>(n: usize) -> Vec<MutRefDatum<'d, TT, i64>> { (0..n).map(|_| Datum::EmptyNest).collect() }

// ----------------------------------------------------------------------- C09

/// All small forms: the leaves, and one level of every kind of node over some.
fn small_forms() -> Vec<T> {
    let leaves: Vec<T> = ["", "a", "b", "ab", "ba", "a ", "é"].iter().map(|s| T::text(s))
        .chain([T::EmptyNest, T::EmptyList, T::Extra(0), T::Extra(1)]).collect();
    let few = [T::text(""), T::text("a"), T::text("b"), T::EmptyNest, T::EmptyList, T::Extra(0)];
    let mut v = leaves;
    for a in &few {
        v.push(T::List(vec![a.clone()], None));
        for b in &few {
            v.push(T::comb(a.clone(), b.clone()));
            v.push(T::List(vec![a.clone(), b.clone()], None));
            if !matches!(b, T::EmptyList) { v.push(T::List(vec![a.clone()], Some(Box::new(b.clone())))) }
        }
    }
    let (a, b) = (T::text("a"), T::text("b"));
    v.push(T::comb(T::comb(a.clone(), b.clone()), T::EmptyList));
    v.push(T::comb(a.clone(), T::list(vec![b.clone()])));
    v.push(T::comb(a.clone(), T::comb(b.clone(), T::EmptyList)));
    v.push(T::list(vec![T::list(vec![a.clone()]), b.clone()]));
    v.push(T::list(vec![a.clone(), T::list(vec![b.clone()])]));
    v.push(T::list(vec![T::list(vec![a, b])]));
    v
}

struct Who(Cell<u32>);

/// Looks all probes up in real bindings of all kinds made from `keys`.
fn lookups<'k, DA>(c: &mut Case, da: &mut DA, keys: &'k [T], probes: &'k [T]) -> Result<(), String>
    where DA: DatumAllocator<ET = i64>, DA::TT: Assemble<DA> + Hash + Eq, DA::DR: Hash + Eq,
          <DA::TT as Text>::Chunk: MkChunk<'k>,
{
    type Pair<DA> = (DD<DA>, Combiner<OR<DA>, AR<DA>>);
    let mk = |da: &mut DA, rng: &mut Rng| -> Vec<Pair<DA>> {
        keys.iter().enumerate().map(|(i, k)| {
            let i = i as u32;
            let comb: Combiner<OR<DA>, AR<DA>> = if i % 2 == 0 {
                Combiner::Operative(Box::new(move |_, _, _| Err(Error::FailedCombiner(i))))
            } else {
                Combiner::Applicative(Box::new(move |_, _, _| Err(Error::FailedCombiner(i))))
            };
            (mk_datum(k, da, rng), comb)
        }).collect()
    };
    let who = |da: &mut DA, f: Option<&Combiner<OR<DA>, AR<DA>>>| -> Option<u32> {
        let w = Who(Cell::new(u32::MAX));
        let r = match f? {
            Combiner::Operative(f) => f(Datum::EmptyNest, DA::TT::empty(), da),
            Combiner::Applicative(f) => f(Datum::EmptyNest, Datum::EmptyNest, da),
        };
        if let Err(Error::FailedCombiner(i)) = r { w.0.set(i) }
        Some(w.0.get())
    };
    let want: Vec<Option<u32>> = probes.iter()
        .map(|p| keys.iter().position(|k| k.same(p)).map(|i| i as u32)).collect();
    let mut rng = c.rng.clone();
    let judge = |c: &mut Case, kind: &str, i: usize, got: Option<u32>| -> Result<(), String> {
        c.eval();
        c.count(if want[i].is_some() { "lookups that found the bound macro" } else { "lookups that found nothing" }, 1);
        if got == want[i] { return Ok(()) }
        Err(format!("{kind}: looking up {} gave {got:?}, expected {:?}; bound operators {:?}",
                    probes[i].brief(), want[i], keys.iter().map(T::brief).collect::<Vec<_>>()))
    };
    macro_rules! try_one {
        ($kind:expr, $binds:expr) => {{
            let binds = $binds;
            for (i, p) in probes.iter().enumerate() {
                let probe = mk_datum(p, da, &mut rng);
                let got = lib(|| binds.lookup(&probe));
                let got = who(da, got);
                judge(c, $kind, i, got)?;
            }
        }};
    }
    for mode in [HashMode::Random, HashMode::Constant, HashMode::Weak, HashMode::Fnv] {
        // Filling a map whose keys collide is quadratic.
        if keys.len() > 1500 && matches!(mode, HashMode::Constant | HashMode::Weak) { continue }
        let mut h = HashMap::with_hasher(AnyBuild::new(mode));
        for (k, v) in mk(da, &mut rng) { h.entry(k).or_insert(v); }
        try_one!(&format!("map with {mode:?} hashing"), HashMapOperatorBindings::<DA, OR<DA>, AR<DA>, u32, AnyBuild>::new(h));
    }
    let v = mk(da, &mut rng);
    try_one!("pairs in a vector", PairOperatorBindings::<_, DA, OR<DA>, AR<DA>, u32>::new(v));
    let v = mk(da, &mut rng);
    try_one!("pairs in a borrowed slice", PairOperatorBindings::<&[Pair<DA>], DA, OR<DA>, AR<DA>, u32>::new(&v[..]));
    let v: Box<[Pair<DA>]> = mk(da, &mut rng).into();
    try_one!("pairs in a boxed slice", PairOperatorBindings::<_, DA, OR<DA>, AR<DA>, u32>::new(v));
    let v: Rc<[Pair<DA>]> = mk(da, &mut rng).into();
    try_one!("pairs in a shared slice", PairOperatorBindings::<_, DA, OR<DA>, AR<DA>, u32>::new(v));
    Ok(())
}

fn lookups_in(c: &mut Case, which: usize, keys: &[T], probes: &[T]) -> Result<(), String> {
    let names = ["Box/TextVec<PosStr>", "Rc/TextVec<PosStrish<Rc<String>>>", "Arc/TextVec<PosStrish<Arc<str>>>", "Slice/TextDatumList<PosStr>", "Slice/TextVec<PosStr>"];
    c.describe(format!("{} keys {:?}\nprobes {:?}", names[which % 5], keys.iter().map(T::brief).collect::<Vec<_>>(), probes.iter().map(T::brief).collect::<Vec<_>>()));
    let key: String = format!("{:?}", keys.iter().map(T::brief).collect::<Vec<_>>());
    for p in probes { c.nontrivial(mix(hash_str(&key), mix(hash_str(&p.brief()), which as u64 % 5))) }
    let cost = |v: &[T]| -> usize {
        v.iter().map(|t| {
            let mut n = t.nodes_below(false);
            t.texts(&mut |x| n += x.s.chars().count() + 20);
            n
        }).sum::<usize>()
    };
    let room = (cost(keys) + cost(probes)) * 9 + 64;
    match which % 5 {
        0 => lookups(c, &mut BoxDatumAllocator::<TextVec<PosStr>, i64>::default(), keys, probes),
        1 => lookups(c, &mut RcDatumAllocator::<TextVec<PosStrish<Rc<String>>>, i64>::default(), keys, probes),
        2 => lookups(c, &mut ArcDatumAllocator::<TextVec<PosStrish<Arc<str>>>, i64>::default(), keys, probes),
        3 => {
            let mut store = slots::<TextDatumList<PosStr, i64>>(room);
            lookups(c, &mut SliceDatumAllocator::new(&mut store[..]), keys, probes)
        }
        _ => {
            let mut store = slots::<TextVec<PosStr>>(room);
            lookups(c, &mut SliceDatumAllocator::new(&mut store[..]), keys, probes)
        }
    }
}

/// A form that differs from `t` in one place.
fn near_miss(t: &T, rng: &mut Rng) -> T {
    match t {
        T::Text(x) => {
            let mut v: Vec<char> = x.s.chars().collect();
            match rng.below(4) {
                0 => { let at = rng.below(v.len() + 1); v.insert(at, 'q') }
                1 if !v.is_empty() => { let at = rng.below(v.len()); v.remove(at); }
                2 if !v.is_empty() => { let at = rng.below(v.len()); v[at] = if v[at] == 'z' { 'y' } else { 'z' } }
                _ => return if rng.chance(1, 2) { T::EmptyNest } else { T::list(vec![t.clone()]) },
            }
            T::text(&v.into_iter().collect::<String>())
        }
        T::Comb(a, b) => match rng.below(4) {
            0 => T::comb(near_miss(a, rng), (**b).clone()),
            1 => T::comb((**a).clone(), near_miss(b, rng)),
            2 => T::comb((**b).clone(), (**a).clone()),
            _ => T::list(vec![(**a).clone(), (**b).clone()]),
        },
        T::List(v, tail) => {
            let mut v = v.clone();
            let at = rng.below(v.len());
            match rng.below(4) {
                0 => v[at] = near_miss(&v[at], rng),
                1 => { v.remove(at); }
                2 => v.insert(at, T::EmptyNest),
                _ => return T::List(v, Some(Box::new(match tail { None => T::EmptyNest, Some(t) => near_miss(t, rng) }))),
            }
            match tail {
                None => T::list(v),
                Some(t) if v.is_empty() => (**t).clone(),
                t => T::List(v, t.clone()),
            }
        }
        T::EmptyNest => T::EmptyList,
        T::EmptyList => if rng.chance(1, 2) { T::EmptyNest } else { T::text("") },
        T::Extra(n) => if rng.chance(1, 2) { T::Extra(n + 1) } else { T::EmptyNest },
    }
}

/// Any form, also ones only macros can produce.
pub fn any_form(rng: &mut Rng, left: &mut usize) -> T {
    if *left == 0 || rng.chance(1, 3) {
        return match rng.below(6) {
            0 => T::EmptyNest,
            1 => T::EmptyList,
            2 => T::Extra(rng.below(3) as i64),
            3 => T::text(*rng.pick(&["", "a", "b", "ab", "{", "}", "é", "a b"])),
            _ => T::Text(gen::hostile_text(rng, 4)),
        };
    }
    *left -= 1;
    if rng.chance(1, 2) {
        let a = any_form(rng, left);
        return T::comb(a, any_form(rng, left));
    }
    let n = rng.range(1, 4);
    let v = (0..n).map(|_| any_form(rng, left)).collect();
    let tail = if rng.chance(1, 5) {
        match any_form(rng, left) { T::EmptyList | T::List(..) => None, t => Some(Box::new(t)) }
    } else { None };
    T::List(v, tail)
}

pub fn c09(ctx: &mut Ctx) {
    ctx.rule = "direct lookups in real map bindings (random, constant, weak and simple hashing) and pair bindings (vector, slice, boxed and shared slice), over five allocator and text types, with keys and probes built separately with different chunking: all pairs of small forms, and random sets of forms probed with rebuilt keys, near misses and other forms, with and without duplicates; plus parses with bound macros of every kind of head; an evaluation is one lookup compared with a structural search for the first equal key, or one parse compared with the independent reader; non-trivial: distinct by bound keys, probe and types".into();
    let forms = small_forms();
    ctx.exhaustive_note = Some(format!("every one of {} small forms bound alone and probed with all of them", forms.len()));
    ctx.stage("small-forms", forms.len() as u64 * 5, |c| {
        let k = c.idx as usize / 5;
        lookups_in(c, c.idx as usize, std::slice::from_ref(&forms[k]), &forms)
    });
    ctx.stage("all-small-forms-bound", 25, |c| {
        // All of them bound (in a random order, sometimes with duplicates).
        let mut keys = forms.clone();
        for i in (1..keys.len()).rev() { let j = c.rng.below(i + 1); keys.swap(i, j) }
        if c.idx % 2 == 1 { let extra: Vec<T> = (0..20).map(|_| c.rng.pick(&forms).clone()).collect(); keys.extend(extra) }
        if c.idx % 3 == 0 { keys.truncate(forms.len() / 2) }
        lookups_in(c, c.idx as usize, &keys, &forms)
    });
    ctx.stage("random-forms", ctx.pick(40_000, 240_000), |c| {
        let n = c.rng.range(1, 8);
        let mut keys = vec![];
        for _ in 0..n {
            let mut left = c.rng.size(12);
            keys.push(any_form(&mut c.rng, &mut left));
        }
        if c.rng.chance(1, 3) { let k = c.rng.pick(&keys).clone(); keys.push(k) }
        let mut probes = keys.clone();
        for k in &keys { probes.push(near_miss(k, &mut c.rng)) }
        for _ in 0..3 { let mut left = c.rng.size(6); probes.push(any_form(&mut c.rng, &mut left)) }
        lookups_in(c, c.idx as usize, &keys, &probes)
    });
    ctx.stage("large-forms", ctx.pick(40, 300), |c| {
        let n = c.rng.range(50, 3000);
        let long = T::list((0..n).map(|i| if i % 3 == 0 { T::EmptyNest } else { T::text(if i % 2 == 0 { "x" } else { "y" }) }).collect());
        let text = T::text(&"héad ".repeat(n));
        let mut deep = T::text("d");
        for i in 0..n.min(400) { deep = if i % 2 == 0 { T::comb(deep, T::EmptyList) } else { T::list(vec![deep]) } }
        let keys = vec![long.clone(), T::comb(T::text("h"), long), text, deep];
        let mut probes = keys.clone();
        for k in &keys { for _ in 0..3 { probes.push(near_miss(k, &mut c.rng)) } }
        lookups_in(c, c.idx as usize, &keys, &probes)
    });
    ctx.stage("many-bindings", ctx.pick(30, 150), |c| {
        let n = match c.idx % 3 { 0 => 257 + c.rng.below(300), 1 => 3_000 + c.rng.below(3000), _ => 65_530 + c.rng.below(9000) };
        let n = if c.idx % 5 == 3 { n.min(6_000) } else { n };
        let mut keys: Vec<T> = (0..n).map(|i| match i % 7 { 5 => T::list(vec![T::text(&i.to_string())]), 6 => T::Extra(i as i64), _ => T::text(&format!("k{i}")) }).collect();
        for i in 0..20 { let k = keys[c.rng.below(n)].clone(); let at = if i < 10 { keys.len() } else { c.rng.below(keys.len()) }; keys.insert(at, k) }
        let mut probes = vec![keys[0].clone(), keys[keys.len() - 1].clone(), T::text("k"), T::text("none"), T::EmptyNest];
        for _ in 0..25 { let k = c.rng.pick(&keys); probes.push(k.clone()); let m = near_miss(k, &mut c.rng); probes.push(m) }
        lookups_in(c, c.idx as usize, &keys, &probes)
    });
    let def = Delims::default_set();
    let cfgs = all_cfgs();
    ctx.stage("parsing", ctx.pick(400_000, 2_400_000), |c| {
        let dup = c.rng.chance(1, 3);
        let (mut macs, heads) = gen::macros(&mut c.rng, &def, !dup);
        if dup && c.rng.chance(1, 2) {
            // The same operator again, doing something else.
            let mut m = c.rng.pick(&macs).clone();
            m.act = Act::Extra(77);
            m.raw = !m.raw;
            let at = c.rng.below(macs.len() + 1);
            macs.insert(at, m);
        }
        let s = gen::input(&mut c.rng, &def, &heads, 60);
        let cfg = *c.rng.pick(&cfgs);
        let b = if dup { BindKind::Pairs } else { bind_kind(&mut c.rng) };
        macro_case(c, &s, &def, &macs, cfg, b)
    });
}

// ----------------------------------------------------------------------- C10

/// Inputs with an error and something after it.
fn erroneous(rng: &mut Rng, d: &Delims, heads: &[String]) -> String {
    let b = rng.range(1, 5);
    let mut s = gen::structured(rng, d, heads, b);
    if rng.chance(2, 3) { s.push('}') }
    else if let Some(h) = (!heads.is_empty()).then(|| rng.pick(heads)) { s.push_str(&format!("{{{h} x}}")) }
    let b = rng.range(1, 8);
    s.push_str(&gen::structured(rng, d, heads, b));
    if rng.chance(1, 4) { s = gen::mutate(rng, d, &s) }
    s
}

/// The one-call functions without bindings and the provided parsers.
pub fn plain_calls(c: &mut Case, s: &str) -> Result<(), String> {
    use kul::common::{inmem, stream};
    let def = Delims::default_set();
    let cs: Vec<char> = s.chars().collect();
    let e = model::expected(&cs, &def, &[]);
    let mut cut = e.items.clone();
    let mut need = cs.len() + 1;
    if let Some(i) = cut.iter().position(Item::is_err) { cut.truncate(i + 1); need = e.need[i] }
    let judge = |c: &mut Case, name: &str, want: &[Item], got: Vec<Item>| -> Result<(), String> {
        c.eval();
        c.nontrivial(mix(hash_str(s), hash_str(name)));
        c.count(&format!("runs of {name}"), 1);
        diff(want, &got).map_or(Ok(()), |m| Err(format!("{name}: {m}")))
    };
    judge(c, "parse_str", &cut, lib(|| inmem::parse_str(s)).iter().map(obs_result).collect())?;
    let pieces = split_strings(&mut c.rng, s);
    let mut allow = pieces.len() + 1;
    let mut seen = 0;
    if need <= cs.len() {
        for (i, p) in pieces.iter().enumerate() {
            seen += p.chars().count();
            if seen >= need { allow = i + 1; break }
        }
    }
    let reads = Rc::new(ReadLog::default());
    let it = Counted::new(pieces.clone().into_iter(), reads.clone());
    judge(c, "parse_stream", &cut, lib(|| stream::parse_stream(it)).iter().map(obs_result).collect())?;
    if cut.len() < e.items.len() && reads.count.get() > allow {
        return Err(format!("parse_stream: {} pieces were requested, the first error is decided by the first {allow}", reads.count.get()));
    }
    let most = cs.len() + 8;
    let text: inmem::Text = Text::from_str(s);
    let mut p = inmem::parser::<i64, u32>(Default::default());
    judge(c, "the provided in-memory parser", &e.items, lib(|| p.parse(text.iter()).take(most).collect::<Vec<_>>()).iter().map(obs_result).collect())?;
    let mut p = stream::parser::<(), ()>(Default::default());
    judge(c, "the provided stream parser", &e.items, lib(|| p.parse(StrishIterSourceStream::new(pieces.into_iter().map(Rc::new))).take(most).collect::<Vec<_>>()).iter().map(obs_result).collect())?;
    {
        use kul::premade::inmem;
        let n = 4 * cs.len() + 8;
        let text: inmem::Text = Text::from_str(s);
        let mut store: Vec<inmem::DatumType> = (0..n).map(|_| Datum::EmptyNest).collect();
        let mut p = inmem::parser_no_bind(&mut store[..]);
        judge(c, "parse_text_with without bindings", &cut, lib(|| inmem::parse_text_with(&text, &mut p).take(most).collect::<Vec<_>>()).iter().map(obs_result).collect())?;
        let mut store: Vec<inmem::DatumType> = (0..n).map(|_| Datum::EmptyNest).collect();
        let mut p = inmem::parser_no_bind(&mut store[..]);
        judge(c, "the provided parser without bindings", &e.items, lib(|| p.parse(text.iter()).take(most).collect::<Vec<_>>()).iter().map(obs_result).collect())?;
    }
    Ok(())
}

pub fn c10(ctx: &mut Ctx) {
    ctx.rule = "inputs with delimiter errors and failing macros, with macros and forms after them, through parse_str_with, parse_stream_with (counting what is requested from the iterator) and the core crate's parse_text_with (counting slice nodes); an evaluation compares one call's results, macro calls and consumption with the independent reader cut at the first error, and heap requests with those for the same input cut right after the error; non-trivial: an error occurs, distinct by function and input".into();
    let def = Delims::default_set();
    let case = |c: &mut Case, s: &str, macs: &[Mac]| -> Result<(), String> {
        let job = Job { macs, ..Job::plain(s, &[], &def) };
        c.describe(describe(&job, None));
        let cs: Vec<char> = s.chars().collect();
        let mut e = model::expected(&cs, &def, macs);
        let err = e.items.iter().position(Item::is_err);
        let mut need = cs.len() + 1;
        if let Some(i) = err {
            e.items.truncate(i + 1);
            e.calls.truncate(e.calls_at[i]);
            need = e.need[i];
            c.count(&format!("first errors: {}", e.items[i].kind()), 1);
        }
        let mut key_rng = c.rng.clone();
        // parse_str_with
        {
            let run = |src: &str, rng: &mut Rng| -> (Vec<Item>, Vec<Call>, u64) {
                let log: Rc<RefCell<Vec<Call>>> = Rc::default();
                let mut da = BoxDatumAllocator::<TextVec<PosStr>, i64>::default();
                let mut h = HashMap::new();
                for (i, m) in macs.iter().enumerate() {
                    h.entry(mk_datum(&m.key, &mut da, rng)).or_insert(mk_combiner(i, m, &log));
                }
                let b = kul::common::inmem::OperatorBindings::new(h);
                // The log's own growth must not count.
                log.borrow_mut().reserve(4 * src.len() + 16);
                let m0 = heap::mark();
                let r = lib(|| kul::common::inmem::parse_str_with::<i64, u32>(src, b));
                let m1 = heap::mark();
                let items = r.iter().map(obs_result).collect();
                drop(r);
                let calls = log.borrow().clone();
                (items, calls, m1.0 - m0.0)
            };
            let (items, calls, heap1) = run(s, &mut key_rng);
            c.eval();
            if err.is_some() { c.nontrivial(mix(hash_str(s), 1)) }
            c.sample(|| format!("parse_str_with {s:?} -> {}", brief_items(&items)));
            if let Some(m) = diff(&e.items, &items) { return Err(format!("parse_str_with: {m}")) }
            if let Some(m) = check_calls(&e, &Run { calls, ..Run::default() }) { return Err(format!("parse_str_with: {m}")) }
            if err.is_some() && need < cs.len() {
                let cut: String = cs[..need].iter().collect();
                let (_, _, heap0) = run(&cut, &mut key_rng);
                c.count("heap comparisons with the input cut after the error", 1);
                // Macro calls observe their operands on the heap, equally in both.
                if heap1 > heap0 + 2 {
                    return Err(format!("parse_str_with: {heap1} heap requests, but only {heap0} when the input ends right after the first error"));
                }
            }
        }
        // parse_stream_with
        {
            let log: Rc<RefCell<Vec<Call>>> = Rc::default();
            let mut da = BoxDatumAllocator::<TextVec<PosStrish<Rc<String>>>, i64>::default();
            let mut h = HashMap::new();
            for (i, m) in macs.iter().enumerate() {
                h.entry(mk_datum(&m.key, &mut da, &mut key_rng)).or_insert(mk_combiner(i, m, &log));
            }
            let pieces = split_strings(&mut c.rng, s);
            let mut seen = 0;
            let mut allow = pieces.len() + 1;
            if need <= cs.len() {
                for (i, p) in pieces.iter().enumerate() {
                    seen += p.chars().count();
                    if seen >= need { allow = i + 1; break }
                }
            }
            let reads = Rc::new(ReadLog::default());
            let it = Counted::new(pieces.into_iter(), reads.clone());
            let b = kul::common::stream::OperatorBindings::new(h);
            let items: Vec<Item> = lib(|| kul::common::stream::parse_stream_with::<_, i64, u32>(it, b)).iter().map(obs_result).collect();
            let calls = log.borrow().clone();
            c.eval();
            if err.is_some() { c.nontrivial(mix(hash_str(s), 2)) }
            c.count("stream pieces requested", reads.count.get() as u64);
            if let Some(m) = diff(&e.items, &items) { return Err(format!("parse_stream_with: {m}")) }
            if let Some(m) = check_calls(&e, &Run { calls, ..Run::default() }) { return Err(format!("parse_stream_with: {m}")) }
            if err.is_some() && reads.count.get() > allow {
                return Err(format!("parse_stream_with: {} pieces were requested, the first error is decided by the first {allow}", reads.count.get()));
            }
        }
        // parse_text_with of the core crate
        {
            use kul::premade::inmem;
            let log: Rc<RefCell<Vec<Call>>> = Rc::default();
            let n = 4 * cs.len() + 64 + 8 * macs.len() * cs.len();
            let mut keys_store = slots::<TextDatumList<PosStr, i64>>(400 + macs.len() * 80);
            let mut store = slots::<TextDatumList<PosStr, i64>>(n);
            let mut store2 = slots::<TextDatumList<PosStr, i64>>(n);
            let mut kda = SliceDatumAllocator::new(&mut keys_store[..]);
            let owned: Vec<_> = macs.iter().enumerate().map(|(i, m)| mk_combiner(i, m, &log)).collect();
            let pairs: Vec<_> = macs.iter().zip(&owned).map(|(m, f)| {
                let f = match f {
                    Combiner::Operative(f) => Combiner::Operative(&**f),
                    Combiner::Applicative(f) => Combiner::Applicative(&**f),
                };
                (mk_datum(&m.key, &mut kda, &mut key_rng), f)
            }).collect();
            let text: TextDatumList<PosStr, i64> = Text::from_str(s);
            let mut parser = inmem::parser::<i64, u32>(&mut store[..], &pairs[..]);
            let mut items = vec![];
            {
                let mut it = inmem::parse_text_with(&text, &mut parser);
                loop {
                    match lib(|| it.next()) { Some(r) => items.push(obs_result(&r)), None => break }
                    if items.len() > cs.len() + 8 { items.push(Item::Overrun); break }
                }
                // Asking again changes nothing.
                for _ in 0..3 { if lib(|| it.next()).is_some() { items.push(Item::AfterEnd) } }
            }
            let used = n - parser.allocator.unused().map_or(0, |s| s.len());
            let calls = log.replace(vec![]);
            // The same step by step, stopping at the first error.
            let mut parser = inmem::parser::<i64, u32>(&mut store2[..], &pairs[..]);
            for r in parser.parse(text.iter()) { if r.is_err() { break } }
            let used2 = n - parser.allocator.unused().map_or(0, |s| s.len());
            c.eval();
            if err.is_some() { c.nontrivial(mix(hash_str(s), 3)) }
            c.count("slice nodes used", used as u64);
            if let Some(m) = diff(&e.items, &items) { return Err(format!("parse_text_with: {m}")) }
            if let Some(m) = check_calls(&e, &Run { calls, ..Run::default() }) { return Err(format!("parse_text_with: {m}")) }
            if used != used2 { return Err(format!("parse_text_with used {used} nodes, stopping at the first error by hand uses {used2}")) }
        }
        Ok(())
    };
    ctx.stage("exhaustive", gen::count_strings(6, ctx.pick(6, 8)), |c| {
        let s = gen::nth_string(c.idx, &['m', 'e', ' ', '{', '}', '\\']);
        let macs = [Mac { key: T::text("m"), raw: c.idx % 2 == 0, act: if c.idx % 3 == 0 { Act::Remove } else { Act::Rebuild } },
                    Mac { key: T::text("e"), raw: c.idx % 5 == 0, act: if c.idx % 7 == 0 { Act::FailMissing } else { Act::Fail(5) } }];
        case(c, &s, &macs)
    });
    ctx.stage("random", ctx.pick(192_000, 1_152_000), |c| {
        let (mut macs, mut heads) = gen::macros(&mut c.rng, &def, true);
        if c.rng.chance(1, 2) && !macs.iter().any(|m| m.key.same(&T::text("ee"))) {
            macs.push(Mac { key: T::text("ee"), raw: c.rng.chance(1, 2), act: Act::Fail(9) });
            heads.push("ee".into());
        }
        let s = erroneous(&mut c.rng, &def, &heads);
        case(c, &s, &macs)
    });
    ctx.stage("without-macros", ctx.pick(192_000, 1_152_000), |c| {
        let s = if c.rng.chance(1, 2) { erroneous(&mut c.rng, &def, &[]) } else { gen::input(&mut c.rng, &def, &[], 80) };
        c.describe(format!("input {s:?}"));
        plain_calls(c, &s)
    });
    ctx.stage("many-forms", ctx.pick(24, 120), |c| {
        // Many forms before the error, and many after it.
        let n = (1usize << c.rng.range(8, 17)) + c.rng.below(3) - 1;
        let unit = *c.rng.pick(&["{}", "a{b}", "{a b}", "a{}\\\\"]);
        let err = *c.rng.pick(&["}", "x}", "{a{b}"]);
        let s = format!("{}{err}{}", unit.repeat(n), unit.repeat(c.rng.below(50)));
        c.describe(format!("{unit:?} {n} times, then {err:?}, then some again"));
        plain_calls(c, &s)
    });
    ctx.stage("long-rest", ctx.pick(60, 600), |c| {
        let macs = [Mac { key: T::text("m"), raw: false, act: Act::Rebuild }, Mac { key: T::text("e"), raw: false, act: Act::Fail(5) }];
        let head = *c.rng.pick(&["}", "a}", "{m x}}", "{e}", "{m {e}}", "t{m}{a {e }}"]);
        let n = c.rng.range(50, 400);
        let rest = *c.rng.pick(&["{m a}b\\c", "{x {m y}}", "}", "{e}", "{a b}{m}}"]);
        let s = format!("{head}{}", rest.repeat(n));
        case(c, &s, &macs)
    });
}

// ----------------------------------------------------------------------- C12

/// Hands out nodes to which it (sometimes) keeps a reference itself, so that
/// they cannot be modified.
pub struct HoldAlloc<A: DatumAllocator> { inner: A, hold: Vec<A::DR>, plan: FailPlan, n: usize, forget: bool }
impl<A: DatumAllocator> HoldAlloc<A> {
    pub fn new(inner: A, plan: FailPlan, forget: bool) -> Self { HoldAlloc { inner, hold: vec![], plan, n: 0, forget } }
}
impl<A: DatumAllocator> DatumAllocator for HoldAlloc<A> where A::DR: Clone {
    type TT = A::TT;
    type ET = A::ET;
    type DR = A::DR;
    fn new_datum(&mut self, from: DD<A>) -> Result<A::DR, AllocError> {
        let r = self.inner.new_datum(from)?;
        // Some are released again later, so a node's answer changes.
        if self.forget && self.n % 3 == 0 { self.hold.pop(); }
        if self.plan.fails(self.n) { self.hold.push(r.clone()) }
        self.n += 1;
        Ok(r)
    }
}

fn is_exhaustion(i: &Item) -> bool { matches!(i, Item::Alloc | Item::NotMutable) }

/// The items between two exhaustion errors must be those of parsing some rest
/// of the input.
fn segments_ok(cs: &[char], d: &Delims, macs: &[Mac], items: &[Item]) -> Option<String> {
    let first = items.iter().position(is_exhaustion)?;
    let exp: Vec<Vec<Item>> = (0..=cs.len()).map(|q| model::expected(&cs[q..], d, macs).items).collect();
    let mut from = first + 1;
    loop {
        let end = items[from..].iter().position(is_exhaustion).map(|i| from + i);
        let seg = &items[from..end.unwrap_or(items.len())];
        let ok = exp.iter().any(|e| {
            e.len() >= seg.len() && same_items(&e[..seg.len()], seg).is_none() && (end.is_some() || e.len() == seg.len())
        });
        if !ok {
            return Some(format!("after an exhaustion error the parser delivered {}, which is not the parse of any rest of the input", brief_items(seg)));
        }
        match end { Some(e) => from = e + 1, None => return None }
    }
}

/// Unlimited versus limited run.
fn limited(full: &Run, r: &Run, n: usize) -> Result<(), String> {
    let first = full.allocs_at.iter().position(|&a| a > n).unwrap_or(full.items.len());
    if let Some(i) = same_items(&full.items[..first], &r.items[..first.min(r.items.len())]) {
        return Err(format!("item {i} fits in {n} nodes but differs: {} without limit, {} with", full.items[i].brief(), r.items.get(i).map_or("nothing".into(), Item::brief)));
    }
    if first < full.items.len() {
        match r.items.get(first) {
            Some(Item::Alloc) => {}
            x => return Err(format!("item {first} needs more than {n} nodes: expected an allocation error, observed {}", x.map_or("nothing".into(), Item::brief))),
        }
    } else if full.allocs <= n && r.items.len() != full.items.len() {
        return Err(format!("everything fits in {n} nodes, but {} items were delivered instead of {}", r.items.len(), full.items.len()));
    }
    if let Some(m) = &r.changed { return Err(format!("with {n} nodes: {m}")) }
    Ok(())
}

fn exhaustion_case(c: &mut Case, s: &str, d: &Delims, macs: &[Mac], cfg: Cfg) -> Result<(), String> {
    let cs: Vec<char> = s.chars().collect();
    let sp = gen::splits(&mut c.rng, cs.len());
    let mut job = Job::plain(s, &sp, d);
    job.macs = macs;
    if !macs.is_empty() { job.bind = BindKind::Pairs }
    job.seed = c.rng.next();
    c.describe(describe(&job, Some(cfg)));
    let full = run_cfg(cfg, &job);
    let can_fail = macs.iter().any(|m| m.act == Act::FailAlloc);
    // Exactly the reachable nodes are used.
    if macs.is_empty() && full.items.iter().all(|i| matches!(i, Item::Ok(_))) {
        let links = cfg.text == TextKind::List;
        let want: usize = full.items.iter().map(|i| if let Item::Ok(t) = i { t.nodes_below(links) } else { 0 }).sum();
        c.eval();
        c.count("parses whose nodes were counted", 1);
        c.count("nodes counted", want as u64);
        if want != full.allocs { return Err(format!("{} nodes were allocated, {want} are reachable from the results", full.allocs)) }
        if let Some(left) = full.left {
            if left + want != room(&job) { return Err(format!("of {} nodes {want} are reachable from the results, but {left} are left over", room(&job))) }
        }
    }
    let total = full.allocs;
    c.max("nodes of one parse", total as u64);
    // Every amount of memory when small, some otherwise.
    let amounts: Vec<usize> = if total <= 24 { (0..=total + 1).collect() } else {
        let mut v: Vec<usize> = (0..16).map(|_| c.rng.below(total + 1)).collect();
        v.extend([0, 1, total - 1, total, total + 1]);
        v
    };
    for &n in &amounts {
        let mut j = job.clone();
        if cfg.alloc == AllocKind::Slice && c.rng.chance(3, 4) { j.nodes = n } else { j.fail = FailPlan::From(n) }
        c.describe(describe(&j, Some(cfg)));
        let r = run_cfg(cfg, &j);
        c.eval();
        if n < total { c.nontrivial(mix(hash_str(s), mix(hash_str(&cfg.name()), n as u64))); c.count("runs that ran out", 1) }
        else { c.count("runs that fit", 1) }
        limited(&full, &r, n)?;
        if let (Some(left), true) = (r.left, j.nodes == n) {
            if n >= total && left != n - total { return Err(format!("{total} of {n} nodes were needed, but {left} are left over")) }
        }
        if !can_fail && cs.len() <= 60 {
            if let Some(m) = segments_ok(&cs, d, macs, &r.items) { return Err(m) }
        }
    }
    // Failures at single and at arbitrary moments.
    for k in 0..4 {
        let mut j = job.clone();
        j.fail = if k < 2 { FailPlan::At(c.rng.below(total + 1)) } else { FailPlan::OneIn(c.rng.range(2, 6), c.rng.next()) };
        c.describe(describe(&j, Some(cfg)));
        let r = run_cfg(cfg, &j);
        c.eval();
        c.count("allocations made to fail", r.allocs_failed as u64);
        let first = (0..=total).find(|&i| j.fail.fails(i)).unwrap_or(total);
        let upto = full.allocs_at.iter().position(|&a| a > first).unwrap_or(full.items.len());
        if let Some(i) = same_items(&full.items[..upto], &r.items[..upto.min(r.items.len())]) {
            return Err(format!("item {i} was complete before the first failing allocation {first}, but differs: {} and {}", full.items[i].brief(), r.items.get(i).map_or("nothing".into(), Item::brief)));
        }
        if upto < full.items.len() && !matches!(r.items.get(upto), Some(Item::Alloc)) {
            return Err(format!("allocation {first} failed while item {upto} was parsed, but the result is {}", r.items.get(upto).map_or("nothing".into(), Item::brief)));
        }
        if let Some(m) = &r.changed { return Err(m.clone()) }
        let errs = r.items.iter().filter(|i| matches!(i, Item::Alloc)).count();
        if !can_fail && errs != r.allocs_failed { return Err(format!("{} allocations failed, but {errs} allocation errors were reported", r.allocs_failed)) }
        if !can_fail && cs.len() <= 60 {
            if let Some(m) = segments_ok(&cs, d, macs, &r.items) { return Err(m) }
        }
    }
    c.sample(|| format!("{} {s:?}: {total} nodes, tried with {amounts:?}", cfg.name()));
    Ok(())
}

/// Nodes that cannot be modified.
fn unmodifiable_case(c: &mut Case, s: &str, d: &Delims, macs: &[Mac]) -> Result<(), String> {
    let cs: Vec<char> = s.chars().collect();
    let sp = gen::splits(&mut c.rng, cs.len());
    let mut job = Job::plain(s, &sp, d);
    job.macs = macs;
    if !macs.is_empty() { job.bind = BindKind::Pairs }
    c.describe(describe(&job, None));
    let full = run_cfg(base_cfg(), &job);
    for k in 0..6 {
        let plan = match k { 0 => FailPlan::From(0), 1 | 2 => FailPlan::At(c.rng.below(full.allocs + 1)), _ => FailPlan::OneIn(c.rng.range(1, 5), c.rng.next()) };
        let forget = c.rng.chance(1, 3);
        c.describe(format!("{}\nallocator keeps references per {plan:?}, forgets {forget}", describe(&job, None)));
        let mut r = Run::default();
        macro_rules! go {
            ($a:ty) => {{ over_text(&job, HoldAlloc::new(<$a>::default(), FailPlan::Never, false), HoldAlloc::new(<$a>::default(), plan.clone(), forget), &mut r); }};
        }
        match k % 4 {
            0 => go!(RcDatumAllocator<TextVec<PosStr>, i64>),
            1 => go!(ArcDatumAllocator<TextVec<PosStr>, i64>),
            2 => go!(RcDatumAllocator<TextVec<PosStrish<Rc<str>>>, i64>),
            _ => go!(ArcDatumAllocator<TextVec<PosStrish<Arc<String>>>, i64>),
        }
        c.eval();
        let upto = r.items.iter().position(is_exhaustion).unwrap_or(r.items.len());
        c.count("errors about nodes that cannot be modified", r.items.iter().filter(|i| matches!(i, Item::NotMutable)).count() as u64);
        if upto < r.items.len() { c.nontrivial(mix(hash_str(s), mix(hash_str(&format!("{plan:?}")), k as u64))) }
        if let Some(i) = same_items(&full.items[..upto.min(full.items.len())], &r.items[..upto]) {
            return Err(format!("item {i}: {} with modifiable nodes, {} with nodes that partly cannot be modified", full.items.get(i).map_or("nothing".into(), Item::brief), r.items.get(i).map_or("nothing".into(), Item::brief)));
        }
        if upto == r.items.len() && r.items.len() != full.items.len() {
            return Err(format!("{} items without an error, {} with modifiable nodes", r.items.len(), full.items.len()));
        }
        if let Some(m) = &r.changed { return Err(m.clone()) }
        if cs.len() <= 60 && !macs.iter().any(|m| m.act == Act::FailAlloc) {
            if let Some(m) = segments_ok(&cs, d, macs, &r.items) { return Err(m) }
        }
    }
    Ok(())
}

/// Parses several inputs, each with the nodes the previous one left over.
fn remainder_case(c: &mut Case, inputs: &[String], total: usize) -> Result<(), String> {
    macro_rules! go {
        ($tt:ty) => {{
            let mut store = slots::<$tt>(total);
            let mut rest = Some(&mut store[..]);
            let mut kept = vec![];
            let mut seen: Vec<Item> = vec![];
            for s in inputs {
                let text: $tt = Text::from_str(s);
                let slice = rest.take().unwrap_or(&mut []);
                let have = slice.len();
                let mut parser = Parser { classifier: DefaultCharClassifier, allocator: SliceDatumAllocator::new(slice), bindings: Binds::Empty(EmptyOperatorBindings) };
                let from = kept.len();
                let mut exp = model::expected(&s.chars().collect::<Vec<_>>(), &Delims::default_set(), &[]).items;
                let mut out = false;
                for r in parser.parse(text.iter()) {
                    let it = obs_result(&r);
                    if matches!(it, Item::Alloc) { out = true; break }
                    seen.push(it);
                    kept.push(r);
                }
                if out { exp.truncate(kept.len() - from) }
                c.eval();
                if let Some(m) = diff(&exp, &seen[from..]) { return Err(format!("parsing {s:?} with the {have} nodes left over: {m}")) }
                rest = parser.allocator.unused();
                c.count("parses with left-over nodes", u64::from(from > 0));
                for (i, r) in kept.iter().enumerate() {
                    if !obs_result(r).same_with_err_pos(&seen[i]) {
                        return Err(format!("result {i} was {} and became {} when left-over nodes were used", seen[i].brief(), obs_result(r).brief()));
                    }
                }
                if out { break }
            }
            // No node is in two results.
            let mut addrs: Vec<usize> = vec![];
            for r in &kept { if let Ok(d) = r { node_addrs(d, &mut addrs) } }
            let n = addrs.len();
            addrs.sort_unstable();
            addrs.dedup();
            if addrs.len() != n { return Err("a node was handed out twice".into()) }
            c.nontrivial(mix(hash_str(&inputs.concat()), total as u64));
        }};
    }
    if c.idx % 2 == 0 { go!(TextDatumList<PosStr, i64>) } else { go!(TextVec<PosStr>) }
    Ok(())
}

fn node_addrs<TT, DR>(d: &Datum<TT, i64, DR>, out: &mut Vec<usize>)
    where DR: DerefTryMut<Target = Datum<TT, i64, DR>>,
{
    match d {
        Datum::Combination { operator: a, operands: b } | Datum::List { elem: a, next: b } => {
            for x in [a, b] {
                out.push(&**x as *const _ as usize);
                node_addrs(x, out);
            }
        }
        _ => {}
    }
}

fn no_fail_alloc(mut macs: Vec<Mac>) -> Vec<Mac> {
    for m in &mut macs { if m.act == Act::FailAlloc { m.act = Act::Cons } }
    macs
}

pub fn c12(ctx: &mut Ctx) {
    ctx.rule = "inputs (exhaustive small, random with and without macros, large) parsed without limit and then with every (or many) smaller amounts of nodes, with real slices of that size and with allocators that fail from or at a moment or at random, with allocators whose nodes cannot be modified, and with the nodes an earlier parse left over; an evaluation is one limited run compared with the unlimited one item by item, or one count of used nodes compared with the nodes reachable from the results; non-trivial: memory ran out in the run, distinct by input, configuration and amount".into();
    let def = Delims::default_set();
    let cfgs = all_cfgs();
    let slices: Vec<Cfg> = cfgs.iter().copied().filter(|c| c.alloc == AllocKind::Slice).collect();
    ctx.stage("exhaustive", gen::count_strings(5, ctx.pick(7, 8)), |c| {
        let s = gen::nth_string(c.idx, gen::SMALL);
        if !s.contains('{') && !s.contains('\\') { return Ok(()) }
        let cfg = if c.rng.chance(1, 2) { slices[0] } else { *c.rng.pick(&slices) };
        let cfg = if s.contains('\\') { Cfg { text: TextKind::List, ..cfg } } else { cfg };
        exhaustion_case(c, &s, &def, &[], cfg)
    });
    ctx.stage("random", ctx.pick(64_000, 384_000), |c| {
        let (macs, heads) = if c.rng.chance(1, 2) { gen::macros(&mut c.rng, &def, true) } else { (vec![], vec![]) };
        let macs = no_fail_alloc(macs);
        let max = if c.rng.chance(1, 20) { 400 } else { 60 };
        let s = gen::input(&mut c.rng, &def, &heads, max);
        let cfg = if c.rng.chance(2, 3) { *c.rng.pick(&slices) } else { *c.rng.pick(&cfgs) };
        exhaustion_case(c, &s, &def, &macs, cfg)
    });
    ctx.stage("unmodifiable", ctx.pick(64_000, 384_000), |c| {
        let (macs, heads) = if c.rng.chance(1, 2) { gen::macros(&mut c.rng, &def, true) } else { (vec![], vec![]) };
        let s = gen::input(&mut c.rng, &def, &heads, 60);
        unmodifiable_case(c, &s, &def, &no_fail_alloc(macs))
    });
    ctx.stage("remainder", ctx.pick(64_000, 384_000), |c| {
        let n = c.rng.range(2, 6);
        let inputs: Vec<String> = (0..n).map(|_| gen::input(&mut c.rng, &def, &[], 50)).collect();
        let total = c.rng.size(120);
        c.describe(format!("inputs {inputs:?} with {total} nodes in all"));
        remainder_case(c, &inputs, total)
    });
    ctx.stage("large", ctx.pick(40, 300), |c| {
        let Some((_, s)) = gen::magnitude(c.rng.below(900) as u64, 10, 8, &def) else { return Ok(()) };
        let cfg = *c.rng.pick(&slices);
        exhaustion_case(c, &s, &def, &[], cfg)
    });
    ctx.stage("huge", ctx.pick(16, 64), |c| {
        let n = (1usize << c.rng.range(15, 16)) + c.rng.below(3) - 1;
        let s = match c.idx % 4 {
            0 => format!("{{h {}}}", "{}t".repeat(n / 4)),
            1 => "{a b}".repeat(n / 4),
            2 => "{n ".repeat(4000) + "leaf" + &"}".repeat(4000) + &"{x}".repeat(n / 4),
            _ => format!("{{h {}}}{{a}}", "{{i}j}".repeat(n / 8)),
        };
        let cfg = if c.rng.chance(1, 4) { base_cfg() } else { *c.rng.pick(&slices) };
        exhaustion_case(c, &s, &def, &[], cfg)
    });
}

// ----------------------------------------------------------------------- C25

fn over_mon<'k, DA>(job: &Job<'k>, prep: DA, inner: DA, src: MonSrc<'k>, strict: bool, run: &mut Run)
    where DA: DatumAllocator<ET = i64>,
          DA::TT: Assemble<CountAlloc<DA>> + Hash + Eq + Text<Chunk = PosStr<'k>> + TextBase<Pos = kul::text::chunk::StrPos<'k>>,
          DA::DR: Hash + Eq,
{
    let mut pda = count_alloc(prep);
    let keys = keys_for(job, &mut pda);
    let log = src.log.clone();
    let n = job.src.chars().count();
    let can_fail = job.macs.iter().any(|m| m.act == Act::FailAlloc);
    drive_hooked(count_alloc(inner), src, job, keys, &Rc::default(), run, &|item, calls, failed| {
        after_step(&log, strict, n, item, calls, failed, can_fail)
    });
}

fn driving_case(c: &mut Case, s: &str, d: &Delims, macs: &[Mac], which: usize, plan: FailPlan, fail: FailPlan, strict: bool) -> Result<Run, String> {
    let mut job = Job::plain(s, &[], d);
    job.macs = macs;
    if !macs.is_empty() { job.bind = bind_kind(&mut c.rng) }
    job.seed = c.rng.next();
    job.fail = fail;
    let seed = c.rng.next();
    let kind = ["Vec/Box", "Vec/Rc", "Vec/Arc", "Seg/Box", "Vec/Slice", "List/Slice"][which % 6];
    c.describe(format!("{}\ntexts and allocator {kind}, source fails per {plan:?}, variant {}", describe(&job, None), seed & 3));
    let src = MonSrc::new(s, d, plan, seed, strict);
    let log = src.log.clone();
    let mut run = Run::default();
    let r = &mut run;
    match which % 6 {
        0 => over_mon(&job, Default::default(), BoxDatumAllocator::<TextVec<PosStr>, i64>::default(), src, strict, r),
        1 => over_mon(&job, Default::default(), RcDatumAllocator::<TextVec<PosStr>, i64>::default(), src, strict, r),
        2 => over_mon(&job, Default::default(), ArcDatumAllocator::<TextVec<PosStr>, i64>::default(), src, strict, r),
        3 => over_mon(&job, Default::default(), BoxDatumAllocator::<SegText<PosStr>, i64>::default(), src, strict, r),
        k => {
            let (a, b) = (node_room(&job), room(&job));
            if k == 4 {
                let (mut x, mut y) = (slots::<TextVec<PosStr>>(a), slots(b));
                over_mon(&job, SliceDatumAllocator::new(&mut x[..]), SliceDatumAllocator::new(&mut y[..]), src, strict, r)
            } else {
                let (mut x, mut y) = (slots::<TextDatumList<PosStr, i64>>(a), slots(b));
                over_mon(&job, SliceDatumAllocator::new(&mut x[..]), SliceDatumAllocator::new(&mut y[..]), src, strict, r)
            }
        }
    }
    c.eval();
    let l = log.borrow();
    c.count("steps watched", l.steps);
    c.count("peeks", l.peeks);
    c.count("plain advances", l.advances);
    c.count("accumulating advances", l.accumulated);
    c.count("finishes", l.finishes);
    c.count("failures of the source", l.failures);
    c.count("failures of the allocator", run.allocs_failed as u64);
    c.max("source operations per consumed character in one step", l.max_ops_per_char);
    if l.accumulated > 0 { c.nontrivial(mix(hash_str(s), mix(which as u64 % 6, seed))) }
    c.sample(|| format!("{kind} {s:?}: {} peeks, {} advances, {} accumulating, {} finishes, {} failures -> {}", l.peeks, l.advances, l.accumulated, l.finishes, l.failures, brief_items(&run.items)));
    drop(l);
    Ok(run)
}

fn some_plan(rng: &mut Rng, n: usize) -> FailPlan {
    match rng.below(5) {
        0 | 1 => FailPlan::Never,
        2 => FailPlan::At(rng.below(n + 2)),
        3 => FailPlan::From(rng.below(n + 2)),
        _ => FailPlan::OneIn(rng.range(2, 12), rng.next()),
    }
}

pub fn c25(ctx: &mut Ctx) {
    ctx.rule = "an instrumented source (with own accumulation, optionally failing in accumulating or finishing) and failing allocators under the real parser, over exhaustive small, random, macro-rich, erroneous and large inputs with default and random disjoint delimiters; an evaluation watches one whole parse: every consumption needs a peek or a preceding escape, and after every step the accumulated, finished and abandoned characters are compared with the delivered form, the macro arguments and the reported error; non-trivial: something was accumulated, distinct by input, types and failure variant".into();
    let def = Delims::default_set();
    ctx.stage("exhaustive", gen::count_strings(5, ctx.pick(8, 9)), |c| {
        let s = gen::nth_string(c.idx, gen::SMALL);
        let plan = if c.idx % 3 == 0 { FailPlan::At(c.rng.below(s.len() + 1)) } else { FailPlan::Never };
        driving_case(c, &s, &def, &[], c.idx as usize, plan, FailPlan::Never, true).map(|_| ())
    });
    ctx.stage("random", ctx.pick(960_000, 5_760_000), |c| {
        let d = if c.rng.chance(3, 4) { def.clone() } else { gen::delims(&mut c.rng) };
        let (macs, heads) = if d == def && c.rng.chance(2, 3) { gen::macros(&mut c.rng, &def, true) } else { (vec![], vec![]) };
        let max = if c.rng.chance(1, 60) { 2000 } else { 80 };
        let s = gen::input(&mut c.rng, &d, &heads, max);
        let n = s.chars().count();
        let (p, f) = (some_plan(&mut c.rng, n), some_plan(&mut c.rng, n));
        let f = if c.rng.chance(1, 2) { FailPlan::Never } else { f };
        driving_case(c, &s, &d, &macs, c.idx as usize, p, f, true).map(|_| ())
    });
    ctx.stage("large", 960, |c| {
        let Some((_, s)) = gen::magnitude(c.idx, ctx_p(c), 9, &def) else { return Ok(()) };
        let k = if s.contains('\\') { c.idx as usize % 5 } else { c.idx as usize };
        driving_case(c, &s, &def, &[], k, FailPlan::Never, FailPlan::Never, true).map(|_| ())
    });
}

fn ctx_p(c: &Case) -> u32 { if c.tier == Tier::Quick { 14 } else { 17 } }

// ----------------------------------------------------------------------- C14

/// Delimiter classes that may overlap or be empty.
fn wild_delims(rng: &mut Rng) -> Delims {
    let pool = ['{', '}', '\\', ' ', 'a', 'b', '\n', 'é'];
    let class = |rng: &mut Rng| -> Vec<char> { let n = rng.below(4); (0..n).map(|_| *rng.pick(&pool)).collect() };
    Delims { start: class(rng), end: class(rng), esc: class(rng), ws: Some(class(rng)), provided_default: false }
}

/// Continues after having reported its end.
struct Unfused<I> { it: I, n: usize, gap: usize }
impl<I: Iterator> Iterator for Unfused<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.n += 1;
        if self.n % self.gap == 0 { return None }
        self.it.next()
    }
}

pub fn c14(ctx: &mut Ctx) {
    ctx.rule = "every configuration with arbitrary (also overlapping or empty) delimiter classes, macro sets, failing allocators and sources, abandoned iterations, sources that continue after their end, all Unicode, all shapes and sizes; an evaluation is one whole parse in which no step may panic or abort, the iteration must end with at most one item per character, classifier questions stay linear in the input and source operations per step stay linear in the characters consumed; non-trivial: at least two items or an error, distinct by input, configuration and hostility".into();
    let def = Delims::default_set();
    let cfgs = all_cfgs();
    let judge = |c: &mut Case, s: &str, r: &Run, key: u64| -> Result<(), String> {
        let n = s.chars().count();
        c.eval();
        c.count("items", r.items.len() as u64);
        if r.items.len() > 1 || r.items.iter().any(Item::is_err) { c.nontrivial(mix(hash_str(s), key)) }
        if r.items.len() > n { return Err(format!("{} items from {n} characters", r.items.len())) }
        if r.items.iter().any(|i| matches!(i, Item::AfterEnd | Item::Overrun)) { return Err("the iteration did not stay finished".into()) }
        Ok(())
    };
    ctx.stage("exhaustive-overlapping", gen::count_strings(4, ctx.pick(7, 8)), |c| {
        let s = gen::nth_string(c.idx, &['{', '}', '\\', ' ']);
        let d = wild_delims(&mut c.rng);
        let job = Job { macs: &[], ..Job::plain(&s, &[], &d) };
        c.describe(describe(&job, None));
        let r = run_cfg(base_cfg(), &job);
        judge(c, &s, &r, hash_str(&format!("{d:?}")))
    });
    ctx.stage("hostile", ctx.pick(1_280_000, 7_680_000), |c| {
        let d = match c.rng.below(4) { 0 | 1 => def.clone(), 2 => gen::delims(&mut c.rng), _ => wild_delims(&mut c.rng) };
        let (macs, heads) = if c.rng.chance(2, 3) { gen::macros(&mut c.rng, &def, false) } else { (vec![], vec![]) };
        let max = if c.rng.chance(1, 80) { 2000 } else { 70 };
        let mut s = if c.rng.chance(1, 2) { gen::input(&mut c.rng, &def, &heads, max) } else if d.esc.is_empty() || d.start.is_empty() || d.end.is_empty() { gen::soup(&mut c.rng, &d, max) } else { gen::input(&mut c.rng, &d, &[], max) };
        if c.rng.chance(1, 4) { s = gen::mutate(&mut c.rng, &def, &s) }
        let n = s.chars().count();
        let sp = gen::splits(&mut c.rng, n);
        let cfg = *c.rng.pick(&cfgs);
        let mut job = Job::plain(&s, &sp, &d);
        job.macs = &macs;
        if !macs.is_empty() { job.bind = bind_kind(&mut c.rng) }
        job.seed = c.rng.next();
        if c.rng.chance(1, 3) { job.fail = some_plan(&mut c.rng, n) }
        if c.rng.chance(1, 6) { job.nodes = c.rng.below(n + 1) }
        if c.rng.chance(1, 6) { job.stop_after = c.rng.below(4) }
        c.describe(describe(&job, Some(cfg)));
        let r = run_cfg(cfg, &job);
        c.sample(|| format!("{} {s:?} {:?} -> {}", cfg.name(), job.fail, brief_items(&r.items)));
        let key = mix(hash_str(&cfg.name()), hash_str(&format!("{d:?}{macs:?}{:?}", job.fail)));
        judge(c, &s, &r, key)
    });
    // Nodes that cannot be modified, at any moment.
    ctx.stage("unmodifiable", ctx.pick(128_000, 768_000), |c| {
        let d = if c.rng.chance(2, 3) { def.clone() } else { wild_delims(&mut c.rng) };
        let (macs, heads) = if c.rng.chance(1, 2) { gen::macros(&mut c.rng, &def, false) } else { (vec![], vec![]) };
        let s = gen::input(&mut c.rng, &def, &heads, 70);
        let n = s.chars().count();
        let sp = gen::splits(&mut c.rng, n);
        let mut job = Job::plain(&s, &sp, &d);
        job.macs = &macs;
        if !macs.is_empty() { job.bind = bind_kind(&mut c.rng) }
        job.seed = c.rng.next();
        if c.rng.chance(1, 4) { job.fail = some_plan(&mut c.rng, n) }
        let plan = match c.rng.below(3) { 0 => FailPlan::From(c.rng.below(6)), 1 => FailPlan::At(c.rng.below(n + 1)), _ => FailPlan::OneIn(c.rng.range(1, 5), c.rng.next()) };
        let forget = c.rng.chance(1, 3);
        c.describe(format!("{}\nallocator keeps references per {plan:?}, forgets {forget}", describe(&job, None)));
        let mut r = Run::default();
        macro_rules! go {
            ($over:ident $(::<$($g:ty),*>)?, $a:ty) => {{ $over $(::<$($g),*>)? (&job, HoldAlloc::new(<$a>::default(), FailPlan::Never, false), HoldAlloc::new(<$a>::default(), plan.clone(), forget), &mut r); }};
        }
        let which = c.idx % 6;
        match which {
            0 => go!(over_text, RcDatumAllocator<TextVec<PosStr>, i64>),
            1 => go!(over_text, ArcDatumAllocator<TextVec<PosStrish<Arc<Box<str>>>>, i64>),
            2 => go!(over_chars::<_, Rc<str>>, RcDatumAllocator<TextVec<PosStrish<Rc<str>>>, i64>),
            3 => go!(over_chars::<_, Arc<String>>, ArcDatumAllocator<TextVec<PosStrish<Arc<String>>>, i64>),
            4 => go!(over_strs::<_, Rc<String>>, RcDatumAllocator<TextVec<PosStrish<Rc<String>>>, i64>),
            _ => go!(over_strs::<_, Arc<str>>, ArcDatumAllocator<TextVec<PosStrish<Arc<str>>>, i64>),
        }
        c.count("errors about nodes that cannot be modified", r.items.iter().filter(|i| matches!(i, Item::NotMutable)).count() as u64);
        judge(c, &s, &r, mix(which, hash_str(&format!("{d:?}{macs:?}{plan:?}"))))
    });
    ctx.stage("watched-source", ctx.pick(320_000, 1_920_000), |c| {
        let d = if c.rng.chance(1, 2) { def.clone() } else { wild_delims(&mut c.rng) };
        let (macs, heads) = if c.rng.chance(1, 2) { gen::macros(&mut c.rng, &def, true) } else { (vec![], vec![]) };
        let s = gen::input(&mut c.rng, &def, &heads, 120);
        let n = s.chars().count();
        let (p, f) = (some_plan(&mut c.rng, n), some_plan(&mut c.rng, n));
        // A source failing without consuming does not get on: each failure adds
        // a result, and many in a row reach the bound of the run.
        let p = match p { FailPlan::From(_) => FailPlan::Never, p => p };
        let steady = matches!(p, FailPlan::Never);
        let r = driving_case(c, &s, &d, &macs, c.idx as usize, p, f, false)?;
        if r.items.iter().filter(|i| !matches!(i, Item::Alloc | Item::Overrun)).count() > n { return Err(format!("{} items from {n} characters", r.items.len())) }
        if steady && r.items.iter().any(|i| matches!(i, Item::Overrun)) { return Err(format!("more than {} items from {n} characters", r.items.len() - 1)) }
        Ok(())
    });
    ctx.stage("unfused", ctx.pick(160_000, 960_000), |c| {
        let s = gen::input(&mut c.rng, &def, &[], 60);
        let n = s.chars().count();
        let gap = c.rng.range(2, 7);
        c.describe(format!("input {s:?} from an iterator that reports its end at every request divisible by {gap}"));
        let mut items = vec![];
        macro_rules! go {
            ($src:expr, $tt:ty) => {{
                let mut parser = Parser { classifier: Cls::new(&def, 8 * n + 8), allocator: BoxDatumAllocator::<$tt, i64>::default(), bindings: Binds::Empty(EmptyOperatorBindings) };
                let mut it = parser.parse($src);
                for _ in 0..2 * n + 16 { if let Some(r) = lib(|| it.next()) { items.push(obs_result(&r)) } }
            }};
        }
        if c.idx % 2 == 0 {
            go!(CharIterSourceStream::new(Unfused { it: s.chars(), n: 0, gap }, to_rc_string), TextVec<PosStrish<Rc<String>>>)
        } else {
            let v: Vec<Arc<str>> = split_strings(&mut c.rng, &s).into_iter().map(Into::into).collect();
            go!(StrishIterSourceStream::new(Unfused { it: v.into_iter(), n: 0, gap }), TextVec<PosStrish<Arc<str>>>)
        }
        c.eval();
        if items.len() > 1 { c.nontrivial(mix(hash_str(&s), 1000 + gap as u64)) }
        // Each report of the end may itself be answered with an error.
        if items.len() > 2 * n + 16 { return Err(format!("{} items from {n} characters", items.len())) }
        Ok(())
    });
    let quick = ctx.quick();
    ctx.stage("unicode", (0x11_0000 / gen::SWEEP_BLOCK) as u64, |c| {
        if quick && c.idx > 20 && !c.rng.chance(1, 12) { return Ok(()) }
        let Some(s) = gen::sweep(c.idx, &def) else { return Ok(()) };
        let cfg = *c.rng.pick(&cfgs);
        let sp = gen::splits(&mut c.rng, s.chars().count());
        let job = Job::plain(&s, &sp, &def);
        c.describe(describe(&job, Some(cfg)));
        let r = run_cfg(cfg, &job);
        judge(c, &s, &r, hash_str(&cfg.name()))
    });
    super::parse::magnitude_stage(ctx, |c, s, d, cfg| {
        let n = s.chars().count();
        let sp = gen::splits(&mut c.rng, n);
        let mut job = Job::plain(s, &sp, d);
        if c.rng.chance(1, 3) { job.fail = some_plan(&mut c.rng, n) }
        c.describe(describe(&job, Some(cfg)));
        let r = run_cfg(cfg, &job);
        c.max("input characters", n as u64);
        judge(c, s, &r, hash_str(&cfg.name()))
    });
}

// ----------------------------------------------------------------------- C24

/// One parse of a sequence on one parser.
#[derive(Clone, Debug)]
struct Step { input: usize, macs: usize, delims: usize, stop_after: usize, stream: usize, fail: FailPlan }

struct Plan { inputs: Vec<String>, macs: Vec<Vec<Mac>>, delims: Vec<Delims>, splits: Vec<Vec<usize>>, steps: Vec<Step> }

fn fresh_run(plan: &Plan, st: &Step) -> Run {
    let macs = &plan.macs[st.macs];
    let mut job = Job::plain(&plan.inputs[st.input], &[], &plan.delims[st.delims]);
    job.macs = macs;
    if !macs.is_empty() { job.bind = BindKind::Pairs }
    job.stop_after = st.stop_after;
    job.fail = st.fail.clone();
    run_cfg(base_cfg(), &job)
}

/// Parses from `src` with the given parser and compares with a fresh parser.
fn one_parse<DA, S>(c: &mut Case, parser: &mut Parser<Cls, CountAlloc<DA>, Binds<CountAlloc<DA>>>, src: S, plan: &Plan, st: &Step,
                    calls: &Rc<RefCell<Vec<Call>>>, kept: &mut Vec<(Item, Result<DD<DA>, Error<<DA::TT as TextBase>::Pos, u32>>)>, k: usize) -> Result<(), String>
    where DA: DatumAllocator<ET = i64>,
          DA::TT: TextConcat<CountAlloc<DA>> + Hash + Eq, DA::DR: Hash + Eq,
          <DA::TT as TextBase>::Pos: PosView, <DA::TT as Text>::Chunk: ChunkView,
          S: SourceStream<CountAlloc<DA>>,
{
    let n = plan.inputs[st.input].chars().count();
    parser.allocator.log.calls.set(0);
    parser.allocator.fail = st.fail.clone();
    calls.borrow_mut().clear();
    let mut got = Run::default();
    {
        let mut it = parser.parse(src);
        while got.items.len() < st.stop_after {
            let Some(r) = lib(|| it.next()) else { break };
            let item = obs_result(&r);
            got.items.push(item.clone());
            kept.push((item, r));
            if got.items.len() > n + 8 { got.items.push(Item::Overrun); break }
        }
    }
    parser.allocator.fail = FailPlan::Never;
    got.calls = calls.borrow().clone();
    let want = fresh_run(plan, st);
    c.eval();
    c.count("parses on a used parser", u64::from(k > 0));
    if let Some(m) = diff(&want.items, &got.items) {
        return Err(format!("parse {k} of the sequence ({st:?}) differs from the same parse by a fresh parser: {m}"));
    }
    let e = model::Expected { calls: want.calls, ..Default::default() };
    if let Some(m) = check_calls(&e, &got) { return Err(format!("parse {k} of the sequence ({st:?}) differs from the same parse by a fresh parser: {m}")) }
    // What an earlier parse leaves behind might affect fresh parsers too.
    if matches!(st.fail, FailPlan::Never) {
        let mut e = model::expected(&plan.inputs[st.input].chars().collect::<Vec<_>>(), &plan.delims[st.delims], &plan.macs[st.macs]);
        if st.stop_after <= e.items.len() {
            e.calls.truncate(if st.stop_after == 0 { 0 } else { e.calls_at[st.stop_after - 1] });
            e.items.truncate(st.stop_after);
        }
        c.eval();
        if let Some(m) = diff(&e.items, &got.items).or_else(|| check_calls(&e, &got)) {
            return Err(format!("parse {k} of the sequence ({st:?}) differs from what its input, delimiters and macros give: {m}"));
        }
    }
    for (i, (item, r)) in kept.iter().enumerate() {
        if !obs_result(r).same_with_err_pos(item) {
            return Err(format!("result {i} was {} when delivered and is {} after parse {k}", item.brief(), obs_result(r).brief()));
        }
    }
    c.count("earlier results seen unchanged", kept.len() as u64);
    Ok(())
}

fn reuse_texts<'k, DA>(c: &mut Case, plan: &'k Plan, prep: DA, inner: DA) -> Result<(), String>
    where DA: DatumAllocator<ET = i64>,
          DA::TT: Assemble<CountAlloc<DA>> + Hash + Eq, DA::DR: Hash + Eq,
          <DA::TT as TextBase>::Pos: PosView, <DA::TT as Text>::Chunk: MkChunk<'k>,
{
    let mut pda = count_alloc(prep);
    // The text values themselves are parsed repeatedly.
    let texts: Vec<DA::TT> = plan.inputs.iter().zip(&plan.splits).map(|(s, sp)| {
        let st = char_starts(s);
        DA::TT::assemble(mk_chunks(s, &st, sp), &mut pda)
    }).collect();
    let calls: Rc<RefCell<Vec<Call>>> = Rc::default();
    let total: usize = plan.inputs.iter().map(|s| s.chars().count()).sum();
    let mut parser = Parser { classifier: Cls::new(&plan.delims[0], 0), allocator: count_alloc(inner), bindings: Binds::Empty(EmptyOperatorBindings) };
    let mut kept = vec![];
    for (k, st) in plan.steps.iter().enumerate() {
        parser.classifier = Cls::new(&plan.delims[st.delims], 4 * total);
        let job = Job { macs: &plan.macs[st.macs], ..Job::plain("", &[], &plan.delims[0]) };
        let keys = keys_for(&job, &mut pda);
        if k > 0 && c.rng.chance(1, 2) {
            rebind(&mut parser.bindings, keys, job.macs, &calls, &mut c.rng);
            c.count("parses after changing the bindings in place", 1);
        } else {
            let kind = if job.macs.is_empty() { BindKind::Empty } else { bind_kind(&mut c.rng) };
            parser.bindings = mk_binds(kind, keys, job.macs, &calls);
        }
        one_parse(c, &mut parser, texts[st.input].iter(), plan, st, &calls, &mut kept, k)?;
    }
    Ok(())
}

fn reuse_streams<'k, DA, S>(c: &mut Case, plan: &'k Plan, prep: DA, inner: DA) -> Result<(), String>
    where DA: DatumAllocator<ET = i64>, S: Storage,
          DA::TT: Text<Pos = kul::text::chunk::CharPos, Chunk = PosStrish<S>>,
          DA::TT: Assemble<CountAlloc<DA>> + Hash + Eq, DA::DR: Hash + Eq,
{
    let mut pda = count_alloc(prep);
    let calls: Rc<RefCell<Vec<Call>>> = Rc::default();
    let total: usize = plan.inputs.iter().map(|s| s.chars().count()).sum();
    let mut parser = Parser { classifier: Cls::new(&plan.delims[0], 0), allocator: count_alloc(inner), bindings: Binds::Empty(EmptyOperatorBindings) };
    let mut kept = vec![];
    for (k, st) in plan.steps.iter().enumerate() {
        parser.classifier = Cls::new(&plan.delims[st.delims], 4 * total);
        let job = Job { macs: &plan.macs[st.macs], ..Job::plain("", &[], &plan.delims[0]) };
        let keys = keys_for(&job, &mut pda);
        if k > 0 && c.rng.chance(1, 2) {
            rebind(&mut parser.bindings, keys, job.macs, &calls, &mut c.rng);
            c.count("parses after changing the bindings in place", 1);
        } else {
            let kind = if job.macs.is_empty() { BindKind::Empty } else { bind_kind(&mut c.rng) };
            parser.bindings = mk_binds(kind, keys, job.macs, &calls);
        }
        let s = &plan.inputs[st.input];
        if st.stream % 2 == 0 {
            one_parse(c, &mut parser, CharIterSourceStream::new(s.chars(), S::conv()), plan, st, &calls, &mut kept, k)?;
        } else {
            let v: Vec<S> = split_strings(&mut c.rng, s).iter().map(|p| S::from_str(p)).collect();
            one_parse(c, &mut parser, StrishIterSourceStream::new(v.into_iter()), plan, st, &calls, &mut kept, k)?;
        }
    }
    Ok(())
}

fn reuse_plan(rng: &mut Rng, slices: bool) -> Plan {
    let def = Delims::default_set();
    let mut macs = vec![vec![]];
    let mut heads = vec![];
    for _ in 0..2 { let (m, h) = gen::macros(rng, &def, true); macs.push(m); heads.extend(h) }
    if rng.chance(1, 2) {
        // The same operators with other macros and in another order, some of
        // them twice.
        let a: &Vec<Mac> = &macs[1];
        if !a.is_empty() {
            let n = a.len();
            let m = (0..n + rng.below(3)).map(|_| {
                let (k, x) = (rng.below(n), rng.below(n));
                Mac { key: a[k].key.clone(), raw: a[x].raw, act: a[x].act.clone() }
            }).collect();
            macs[2] = m;
        }
    }
    let n = rng.range(1, 4);
    let inputs: Vec<String> = (0..n).map(|_| {
        let s = gen::input(rng, &def, &heads, 60);
        if rng.chance(1, 3) { gen::mutate(rng, &def, &s) } else { s }
    }).collect();
    let splits = inputs.iter().map(|s| gen::splits(rng, s.chars().count())).collect();
    let delims = vec![def.clone(), def, gen::delims(rng)];
    let k = rng.range(2, 9);
    // In slices the node counts of linked texts differ, so failing moments
    // would not be comparable.
    let steps = (0..k).map(|_| Step {
        input: rng.below(n), macs: rng.below(3), delims: rng.below(3),
        stop_after: if rng.chance(1, 3) { rng.below(3) } else { usize::MAX },
        stream: rng.below(2),
        fail: if !slices && rng.chance(1, 5) { FailPlan::At(rng.below(12)) } else { FailPlan::Never },
    }).collect();
    Plan { inputs, macs, delims, splits, steps }
}

pub fn c24(ctx: &mut Ctx) {
    ctx.rule = "sequences of 2 to 9 parses on one parser, changing input, macros and delimiters in between, with errors, failing allocations and abandoned iterations, over nine combinations of text, allocator and source types, parsing the same text values repeatedly and keeping all results; an evaluation compares one parse of a sequence with the same parse by a fresh parser and all earlier results with what they were; non-trivial: a parse after the first of its sequence, distinct by sequence and types".into();
    ctx.stage("sequences", ctx.pick(128_000, 768_000), |c| {
        let which = c.idx as usize % 9;
        let plan = reuse_plan(&mut c.rng, which == 4);
        c.describe(format!("types {which}\ninputs {:?}\nsplits {:?}\nmacros {:?}\ndelimiters {:?}\nsteps {:?}", plan.inputs, plan.splits, plan.macs, plan.delims, plan.steps));
        for k in 1..plan.steps.len() { c.nontrivial(mix(hash_str(&c.desc), k as u64)) }
        let n: usize = plan.inputs.iter().map(|s| s.chars().count()).sum();
        let keys: usize = plan.macs.iter().flatten().map(|m| key_nodes(&m.key)).sum();
        let (a, b) = (plan.steps.len() * keys + n * 3 + 200, plan.steps.len() * (40 * n + 64));
        match which {
            0 => reuse_texts(c, &plan, Default::default(), BoxDatumAllocator::<TextVec<PosStr>, i64>::default())?,
            1 => reuse_texts(c, &plan, Default::default(), RcDatumAllocator::<TextVec<PosStr>, i64>::default())?,
            2 => reuse_texts(c, &plan, Default::default(), ArcDatumAllocator::<TextVec<PosStr>, i64>::default())?,
            3 => {
                let (mut x, mut y) = (slots::<TextVec<PosStr>>(a), slots(b));
                reuse_texts(c, &plan, SliceDatumAllocator::new(&mut x[..]), SliceDatumAllocator::new(&mut y[..]))?
            }
            4 => {
                let (mut x, mut y) = (slots::<TextDatumList<PosStr, i64>>(a), slots(b));
                reuse_texts(c, &plan, SliceDatumAllocator::new(&mut x[..]), SliceDatumAllocator::new(&mut y[..]))?
            }
            5 => reuse_texts(c, &plan, Default::default(), BoxDatumAllocator::<TextVec<PosStrish<Rc<String>>>, i64>::default())?,
            6 => reuse_streams::<_, Rc<String>>(c, &plan, Default::default(), BoxDatumAllocator::<TextVec<PosStrish<Rc<String>>>, i64>::default())?,
            7 => reuse_streams::<_, Arc<str>>(c, &plan, Default::default(), ArcDatumAllocator::<TextVec<PosStrish<Arc<str>>>, i64>::default())?,
            _ => reuse_streams::<_, Rc<Box<str>>>(c, &plan, Default::default(), RcDatumAllocator::<TextVec<PosStrish<Rc<Box<str>>>>, i64>::default())?,
        }
        c.sample(|| format!("{} parses of {:?}: {:?}", plan.steps.len(), plan.inputs, plan.steps));
        Ok(())
    });
    // Very many parses on one parser.
    ctx.stage("many-parses", ctx.pick(12, 60), |c| {
        let def = Delims::default_set();
        let pool: Vec<(String, Vec<Item>)> = (0..60).map(|_| {
            let s = gen::input(&mut c.rng, &def, &[], 14);
            let s = if c.rng.chance(1, 3) { gen::mutate(&mut c.rng, &def, &s) } else { s };
            let e = model::expected(&s.chars().collect::<Vec<_>>(), &def, &[]).items;
            (s, e)
        }).collect();
        let times = [400, 5_000, 70_000][c.idx as usize % 3];
        c.describe(format!("{times} parses of {:?}", pool.iter().map(|p| &p.0).collect::<Vec<_>>()));
        macro_rules! go {
            ($made:expr, $parser:ident, $s:ident, $most:ident, $parse:expr) => {{
                let mut $parser = $made;
                let mut kept = vec![];
                for k in 0..times {
                    let ($s, e) = c.rng.pick(&pool);
                    let stop = if c.rng.chance(1, 4) { c.rng.below(3) } else { usize::MAX };
                    let $most = stop.min($s.len() + 8);
                    let rs: Vec<_> = $parse;
                    let items: Vec<Item> = rs.iter().map(obs_result).collect();
                    c.eval();
                    if k > 0 { c.nontrivial(mix(hash_str($s), mix(k as u64, c.idx))) }
                    if let Some(m) = diff(&e[..stop.min(e.len())], &items) { return Err(format!("parse {k}, of {:?}: {m}", $s)) }
                    if k % 499 == 0 { kept.push((items, rs)) }
                }
                for (i, (items, rs)) in kept.iter().enumerate() {
                    let now: Vec<Item> = rs.iter().map(obs_result).collect();
                    if let Some(m) = diff(items, &now) { return Err(format!("results of parse {} changed: {m}", i * 499)) }
                }
                c.count("parses by parsers that parse hundreds of times", times as u64);
            }};
        }
        use kul::common::{inmem, stream};
        match c.idx / 3 % 4 {
            0 => go!(inmem::parser::<i64, u32>(Default::default()), p, s, most, {
                let t: inmem::Text = Text::from_str(s);
                lib(|| p.parse(t.iter()).take(most).collect())
            }),
            1 => go!(stream::parser::<(), ()>(Default::default()), p, s, most,
                     lib(|| p.parse(StrishIterSourceStream::new(s.chars().map(|ch| Rc::new(ch.to_string())))).take(most).collect())),
            2 => go!(stream::parser::<(), ()>(Default::default()), p, s, most,
                     lib(|| p.parse(CharIterSourceStream::new(s.chars(), kul::source_stream::to_rc_string)).take(most).collect())),
            _ => {
                let mut store = slots::<TextDatumList<PosStr, i64>>(times * 48);
                go!(Parser { classifier: DefaultCharClassifier, allocator: SliceDatumAllocator::new(&mut store[..]), bindings: Binds::Empty(EmptyOperatorBindings) }, p, s, most, {
                    let t: TextDatumList<PosStr, i64> = Text::from_str(s);
                    lib(|| p.parse(t.iter()).take(most).collect())
                })
            }
        }
        Ok(())
    });
    // The same text value by the iterator directly, and through results of
    // parses kept and parsed again.
    ctx.stage("results-as-sources", ctx.pick(128_000, 768_000), |c| {
        let def = Delims::default_set();
        let macs = [Mac { key: T::text("m"), raw: true, act: Act::Operands }];
        let s = gen::input(&mut c.rng, &def, &["m".into()], 80);
        let cfg = *c.rng.pick(&all_cfgs());
        let sp = gen::splits(&mut c.rng, s.chars().count());
        let mut job = Job { macs: &macs, bind: BindKind::Pairs, reparse: 3, ..Job::plain(&s, &sp, &def) };
        c.describe(describe(&job, Some(cfg)));
        let r = run_cfg(cfg, &job);
        c.eval();
        if let Some(m) = r.changed { return Err(m) }
        job.reparse = 0;
        let again = run_cfg(cfg, &job);
        if let Some(m) = diff(&again.items, &r.items) { return Err(m) }
        for (tx, items) in &r.again {
            let e = model::expected(&tx.s.chars().collect::<Vec<_>>(), &def, &macs);
            c.eval();
            c.count("result texts parsed by the same parser", 1);
            c.nontrivial(mix(hash_str(&tx.s), hash_str(&cfg.name())));
            if let Some(m) = diff(&e.items, items) { return Err(format!("parsing the delivered text {:?} with the same parser: {m}", tx.s)) }
        }
        Ok(())
    });
}

