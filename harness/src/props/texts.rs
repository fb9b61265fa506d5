//! Checks of texts, trees as values, and source streams (C19, C20, C21, C23).

use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::ops::Deref;
use std::rc::Rc;
use std::sync::Arc;

use kul::datum::{ArcDatum, BoxDatum, DatumArc, DatumBox, DatumRc, MutRefDatum, RcDatum};
use kul::parser::*;
use kul::source_stream::*;
use kul::text::chunk::{PosStr, PosStrish, SourceStream as ChunkSourceStream};
use kul::text::{TextDatumList, TextVec};
use kul::{Datum, DerefTryMut, SourceIterItem, SourceStream, Text, TextBase, TextChunk, TextConcat};

use super::flow::any_form;
use crate::configs::*;
use crate::gen;
use crate::model::Delims;
use crate::obs::*;
use crate::rng::{hash_str, mix, Rng};
use crate::runner::*;
use crate::wrap::lib;

pub(super) fn slots<'d, TT>(n: usize) -> Vec<MutRefDatum<'d, TT, i64>> { (0..n).map(|_| Datum::EmptyNest).collect() }

/// An allocator nothing is requested from.
pub(super) type NoNodes<TT> = BoxDatumAllocator<TT, i64>;

// ------------------------------------------------------------- making texts

/// How a text value came about.
#[derive(Clone, Debug)]
pub(super) struct Made { s: String, pos: Vec<usize>, how: String }

/// The pieces of a text before they are concatenated: each is a piece of a
/// larger source (so it starts anywhere in it), itself chunked.
#[derive(Clone, Debug)]
pub(super) struct Recipe { pub src: String, pub cuts: Vec<usize>, pub take: Vec<(usize, usize)>, order: u64, carve: bool }

pub(super) fn recipe(rng: &mut Rng, want: &str) -> Recipe {
    // The wanted characters are spread over the source, with others between.
    let cs: Vec<char> = want.chars().collect();
    let mut src = String::new();
    let mut n = 0;
    let mut take = vec![];
    let carve = rng.chance(1, 2);
    let mut i = 0;
    loop {
        let skip = if rng.chance(1, 2) { rng.below(3) } else { 0 };
        for _ in 0..skip { src.push(gen::any_char(rng)); n += 1 }
        if rng.chance(1, 8) { take.push((n, n)) }
        if i >= cs.len() { break }
        let most = if rng.chance(1, 3) { 1 } else { 9 };
        let k = rng.range(1, most.min(cs.len() - i));
        for c in &cs[i..i + k] { src.push(*c) }
        take.push((n, n + k));
        n += k;
        i += k;
    }
    let cuts = gen::splits(rng, n);
    Recipe { src, cuts, take, order: rng.next(), carve }
}

fn cook_made(r: &Recipe) -> Made {
    let cs: Vec<char> = r.src.chars().collect();
    let mut m = Made { s: String::new(), pos: vec![], how: format!("{r:?}") };
    for &(a, b) in &r.take { for i in a..b { m.s.push(cs[i]); m.pos.push(i) } }
    m
}

fn must<X>(r: Result<X, AllocError>) -> X {
    r.unwrap_or_else(|_| violate("an operation reported exhausted allocation although there was room".into()))
}

/// Concatenates in a random tree order.
fn concat_tree<TT: TextConcat<DA>, DA>(mut v: Vec<TT>, order: u64, da: &mut DA) -> TT {
    let mut rng = Rng::new(order);
    if v.is_empty() { return TT::empty() }
    if rng.chance(1, 5) { let at = rng.below(v.len() + 1); v.insert(at, TT::empty()) }
    while v.len() > 1 {
        let i = match order % 3 { 0 => 0, 1 => v.len() - 2, _ => rng.below(v.len() - 1) };
        let b = v.remove(i + 1);
        let a = std::mem::replace(&mut v[i], TT::empty());
        v[i] = must(lib(|| a.concat(b, da)));
    }
    v.pop().unwrap()
}

pub(super) fn cook<'k, DA>(r: &'k Recipe, da: &mut DA) -> DA::TT
    where DA: DatumAllocator, DA::TT: Assemble<DA>, <DA::TT as Text>::Chunk: MkChunk<'k>,
{
    let st = char_starts(&r.src);
    let mut parts = vec![];
    if r.carve {
        // Accumulated from a stream over the whole source.
        let whole = DA::TT::assemble(mk_chunks(&r.src, &st, &r.cuts), da);
        let mut it = whole.iter();
        let mut at = 0;
        for &(a, b) in &r.take {
            while at < a { Iterator::next(&mut it); at += 1 }
            while at < b { must(it.next_accum(da)); at += 1 }
            parts.push(must(it.accum_done(da)));
        }
    } else {
        for &(a, b) in &r.take {
            let mut chunks = vec![];
            let mut prev = a;
            for &c in r.cuts.iter().filter(|&&c| c >= a && c <= b).chain(std::iter::once(&b)) {
                chunks.push(MkChunk::mk(&r.src, st[prev], st[c], prev));
                prev = c;
            }
            parts.push(DA::TT::assemble(chunks, da));
        }
    }
    concat_tree(parts, r.order, da)
}

/// What a text on its own must look like.
fn alone<TT>(c: &mut Case, t: &TT, m: &Made) -> Result<(), String>
    where TT: Text, TT::Pos: PosView, TT::Chunk: ChunkView,
{
    for round in 0..2 {
        let x = lib(|| obs_text(t));
        if x.s != m.s { return Err(format!("iteration {round} gives {:?}, expected {:?}", x.s, m.s)) }
        if x.cpos != m.pos { return Err(format!("iteration {round} over {:?} gives positions {:?}, expected {:?}", m.s, x.cpos, m.pos)) }
        if !x.bpos.is_empty() {
            // Byte offsets must lead to the very characters.
            for (i, ch) in m.s.chars().enumerate() {
                let (p, n) = x.srcs[i];
                let src = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p as *const u8, n)) };
                if src.get(x.bpos[i]..).and_then(|r| r.chars().next()) != Some(ch) {
                    return Err(format!("character {i} of {:?} is said to be at byte {} of its source, where another character is", m.s, x.bpos[i]));
                }
            }
        }
        let by_chars: String = lib(|| t.chars().collect());
        if by_chars != m.s { return Err(format!("chars() gives {by_chars:?}, expected {:?}", m.s)) }
        let by_chunks: String = lib(|| t.iter_chunks().map(|c| c.sv().to_string()).collect());
        if by_chunks != m.s { return Err(format!("the chunks give {by_chunks:?}, expected {:?}", m.s)) }
        // A chunk on its own iterates to its characters from its position.
        for ch in t.iter_chunks() {
            let s: String = ch.src_strm().map(|i| i.ch).collect();
            if s != ch.sv() { return Err(format!("a chunk gives {s:?}, its string is {:?}", ch.sv())) }
            if ch.src_strm().enumerate().any(|(i, it)| it.pos.cp() != ch.cpv() + i) { return Err(format!("the positions in chunk {s:?} do not count up from its own")) }
            if ch.is_empty() != s.is_empty() { return Err(format!("is_empty() of chunk {s:?} is {}", ch.is_empty())) }
        }
    }
    if lib(|| t.is_empty()) != m.s.is_empty() { return Err(format!("is_empty() of {:?} is {}", m.s, t.is_empty())) }
    c.count("characters iterated", 2 * m.pos.len() as u64);
    c.max("chunks of a text", t.iter_chunks().count() as u64);
    Ok(())
}

/// Feeds exactly what it is given to a digest.
fn digests<X: Hash>(x: &X) -> [u64; 2] {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    let mut f = std::hash::BuildHasher::build_hasher(&AnyBuild::new(HashMode::Fnv));
    x.hash(&mut f);
    [h.finish(), f.finish()]
}

fn text_digest<TT: Text>(x: &TT) -> u64 {
    let mut h = DefaultHasher::new();
    Text::hash(x, &mut h);
    h.finish()
}

fn pair<A, B>(c: &mut Case, a: &A, b: &B, sa: &str, sb: &str) -> Result<(), String>
    where A: Text + PartialEq<B> + PartialOrd<B> + Hash, B: Text + PartialEq<A> + PartialOrd<A> + Hash,
{
    let eq = sa == sb;
    let ord = sa.chars().cmp(sb.chars());
    c.evals(8);
    c.count(match ord { Ordering::Equal => "equal pairs", Ordering::Less => "pairs in order", Ordering::Greater => "pairs in reverse order" }, 1);
    let got = lib(|| (Text::eq(a, b), a == b, b == a, Text::eq(b, a), a != b));
    if got != (eq, eq, eq, eq, !eq) { return Err(format!("comparing {sa:?} with {sb:?}: (Text::eq, ==, reversed ==, reversed Text::eq, !=) is {got:?}")) }
    let got = lib(|| (Text::cmp(a, b), Text::cmp(b, a).reverse(), a.partial_cmp(b), b.partial_cmp(a).map(Ordering::reverse)));
    if got != (ord, ord, Some(ord), Some(ord)) { return Err(format!("ordering {sa:?} and {sb:?}: expected {ord:?}, (cmp, reversed cmp, partial_cmp, reversed partial_cmp) is {got:?}")) }
    let ops = lib(|| (a < b, a <= b, a > b, a >= b));
    if ops != (ord.is_lt(), ord.is_le(), ord.is_gt(), ord.is_ge()) { return Err(format!("ordering {sa:?} and {sb:?}: (<, <=, >, >=) is {ops:?}")) }
    if eq {
        let (x, y) = lib(|| (digests(a), digests(b)));
        let (p, q) = lib(|| (text_digest(a), text_digest(b)));
        if x != y || p != q { return Err(format!("equal texts {sa:?} hash differently")) }
        c.count("equal pairs hashed", 1);
    } else {
        // As strings would: with this hasher two of these cases agree by
        // chance less than once in 2^40 runs.
        let (x, y) = lib(|| (digests(a)[0], digests(b)[0]));
        let (p, q) = lib(|| (text_digest(a), text_digest(b)));
        if x == y || p == q { return Err(format!("different texts {sa:?} and {sb:?} hash the same")) }
        c.count("different pairs hashed", 1);
    }
    Ok(())
}

fn total<A: Ord + Text>(a: &A, b: &A, sa: &str, sb: &str) -> Result<(), String> {
    let ord = sa.chars().cmp(sb.chars());
    let got = lib(|| Ord::cmp(a, b));
    if got != ord { return Err(format!("Ord::cmp of {sa:?} and {sb:?} is {got:?}, expected {ord:?}")) }
    Ok(())
}

/// A string related to `s`: the same, or differing in some place.
fn related(rng: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    match rng.below(7) {
        0 | 1 => {}
        2 => { let at = rng.below(v.len() + 1); v.insert(at, gen::any_char(rng)) }
        3 if !v.is_empty() => { let at = rng.below(v.len()); v.remove(at); }
        4 if !v.is_empty() => {
            let at = rng.below(v.len());
            // Characters whose order differs between encodings.
            v[at] = *rng.pick(&['\u{ffff}', '\u{10000}', '\u{e000}', '\u{7f}', '\u{80}', 'a', '\0', '\u{d7ff}']);
        }
        5 => v.truncate(rng.below(v.len() + 1)),
        6 if v.len() > 1 => { let at = rng.below(v.len() - 1); v.swap(at, at + 1) }
        _ => return gen::soup(rng, &Delims::default_set(), 8),
    }
    v.into_iter().collect()
}

pub(super) fn recipe_room(r: &Recipe) -> usize { 3 * (r.cuts.len() + r.take.len()) + r.src.chars().count() + 16 }

macro_rules! with_text {
    // Cooks `$r` as each kind of text in turn and binds it.
    ($k:expr, $r:expr, |$t:ident| $body:expr) => {{
        let r = &$r;
        match $k {
            0 => { let $t = cook(r, &mut NoNodes::<TextVec<PosStr>>::default()); $body }
            1 => { let $t = cook(r, &mut NoNodes::<TextVec<PosStrish<Rc<String>>>>::default()); $body }
            2 => { let $t = cook(r, &mut NoNodes::<TextVec<PosStrish<Arc<str>>>>::default()); $body }
            3 => { let mut store = slots::<TextDatumList<PosStr, i64>>(recipe_room(r)); let $t = cook(r, &mut SliceDatumAllocator::new(&mut store[..])); $body }
            4 => { let mut store = slots::<TextDatumList<PosStrish<Rc<Box<str>>>, i64>>(recipe_room(r)); let $t = cook(r, &mut SliceDatumAllocator::new(&mut store[..])); $body }
            5 => { let $t = cook(r, &mut NoNodes::<TextVec<PosStrish<Rc<str>>>>::default()); $body }
            6 => { let $t = cook(r, &mut NoNodes::<TextVec<PosStrish<Arc<String>>>>::default()); $body }
            7 => { let $t = cook(r, &mut NoNodes::<TextVec<PosStrish<Arc<Box<str>>>>>::default()); $body }
            8 => { let $t = cook(r, &mut NoNodes::<TextVec<PosStrish<Rc<Box<str>>>>>::default()); $body }
            _ => { let $t = cook(r, &mut NoNodes::<SegText<PosStr>>::default()); $body }
        }
    }};
}

macro_rules! with_text5 {
    ($k:expr, $r:expr, |$t:ident| $body:expr) => {{
        let r = &$r;
        match $k % 5 {
            0 => { let $t = cook(r, &mut NoNodes::<TextVec<PosStr>>::default()); $body }
            1 => { let $t = cook(r, &mut NoNodes::<TextVec<PosStrish<Rc<String>>>>::default()); $body }
            2 => { let $t = cook(r, &mut NoNodes::<TextVec<PosStrish<Arc<str>>>>::default()); $body }
            3 => { let mut store = slots::<TextDatumList<PosStr, i64>>(recipe_room(r)); let $t = cook(r, &mut SliceDatumAllocator::new(&mut store[..])); $body }
            _ => { let mut store = slots::<TextDatumList<PosStrish<Rc<Box<str>>>, i64>>(recipe_room(r)); let $t = cook(r, &mut SliceDatumAllocator::new(&mut store[..])); $body }
        }
    }};
}

fn text_case(c: &mut Case, sa: &str, sb: &str) -> Result<(), String> {
    let (ra, rb) = (recipe(&mut c.rng, sa), recipe(&mut c.rng, sb));
    let (ma, mb) = (cook_made(&ra), cook_made(&rb));
    if ma.s != sa || mb.s != sb { panic!("harness: recipe does not give the wanted text") }
    let (ka, kb) = (c.rng.below(5), c.rng.below(5));
    let ks = c.rng.below(10);
    c.describe(format!("first {} as {ka}\nsecond {} as {kb}\nfirst also as {ks}", ma.how, mb.how));
    c.nontrivial(mix(hash_str(&ma.how), mix(hash_str(&mb.how), (ka * 5 + kb) as u64)));
    with_text5!(ka, ra, |a| with_text5!(kb, rb, |b| {
        alone(c, &a, &ma)?;
        alone(c, &b, &mb)?;
        pair(c, &a, &b, sa, sb)?;
        pair(c, &a, &a, sa, sa)?;
    }));
    with_text!(ks, ra, |a| { alone(c, &a, &ma)?; c.eval(); });
    same_type(c, &ra, &rb, sa, sb)?;
    c.sample(|| format!("{sa:?} (type {ka}) against {sb:?} (type {kb})"));
    Ok(())
}

fn same_type(c: &mut Case, ra: &Recipe, rb: &Recipe, sa: &str, sb: &str) -> Result<(), String> {
    c.eval();
    let mut da = NoNodes::<TextVec<PosStr>>::default();
    total(&cook(ra, &mut da), &cook(rb, &mut da), sa, sb)?;
    let mut da = NoNodes::<TextVec<PosStrish<Arc<str>>>>::default();
    total(&cook(ra, &mut da), &cook(rb, &mut da), sa, sb)?;
    let mut store = slots::<TextDatumList<PosStr, i64>>(recipe_room(ra) + recipe_room(rb));
    let mut da = SliceDatumAllocator::new(&mut store[..]);
    total(&cook(ra, &mut da), &cook(rb, &mut da), sa, sb)?;
    // A clone is the same text and independent of the original.
    let mut da = NoNodes::<TextVec<PosStrish<Rc<String>>>>::default();
    let a: TextVec<PosStrish<Rc<String>>> = cook(ra, &mut da);
    let b = a.clone();
    let ab = must(lib(|| a.clone().concat(cook(rb, &mut da), &mut da)));
    let (ma, mb) = (cook_made(ra), cook_made(rb));
    alone(c, &a, &ma)?;
    alone(c, &b, &ma)?;
    let both = Made { s: format!("{}{}", ma.s, mb.s), pos: [&ma.pos[..], &mb.pos].concat(), how: String::new() };
    alone(c, &ab, &both)
}

pub fn c19(ctx: &mut Ctx) {
    ctx.rule = "texts of ten types built from chunks, carved out of longer sources by accumulation, and concatenated in random order, with empty chunks; related pairs (equal, prefix, one character different, code points around encoding boundaries, characters that are equivalent under case or normalisation, look alike or are one bit apart) compared both ways with Text::eq, ==, cmp, partial_cmp, <, Ord::cmp and hashes; an evaluation is one comparison with the result for the plain strings, or one text compared with its characters and positions; non-trivial: distinct by how both texts were made and their types".into();
    ctx.stage("small", ctx.pick(gen::count_strings(3, 4) * 12, gen::count_strings(3, 4) * gen::count_strings(3, 4)), |c| {
        let n = gen::count_strings(3, 4);
        let al = ['a', 'b', '\u{10000}'];
        let (i, j) = (c.idx % n, if c.tier == Tier::Thorough { c.idx / n } else { c.rng.below(n as usize) as u64 });
        let (a, b) = (gen::nth_string(i, &al), gen::nth_string(j, &al));
        text_case(c, &a, &b)
    });
    ctx.stage("related", ctx.pick(720_000, 2_160_000), |c| {
        let max = if c.rng.chance(1, 30) { 600 } else { 24 };
        let n = c.rng.size(max);
        let a = gen::soup(&mut c.rng, &Delims::default_set(), n);
        let b = related(&mut c.rng, &a);
        text_case(c, &a, &b)
    });
    ctx.stage("alike", ctx.pick(60_000, 600_000), |c| {
        // The same but for one or two places holding characters that are alike.
        let n = c.rng.size(12);
        let mut v: Vec<char> = gen::soup(&mut c.rng, &Delims::default_set(), n).chars().collect();
        let mut w = v.clone();
        for _ in 0..c.rng.range(1, 2) {
            let (x, y) = gen::alike(&mut c.rng);
            let at = c.rng.below(v.len() + 1);
            v.insert(at, x);
            w.insert(at, y);
        }
        let (a, b) = (v.into_iter().collect::<String>(), w.into_iter().collect::<String>());
        text_case(c, &a, &b)
    });
    ctx.stage("long", ctx.pick(50, 500), |c| {
        let n = c.rng.range(65_500, 140_000);
        let unit = *c.rng.pick(&['a', 'é', '▷', '😀']);
        let s: String = (0..n).map(|i| if i % 11 == 3 { 'x' } else { unit }).collect();
        let t: String = {
            let mut v: Vec<char> = s.chars().collect();
            match c.rng.below(4) { 0 => v[n - 1] = 'z', 1 => { v.pop(); } 2 => { let at = c.rng.below(n); v[at] = '\u{10ffff}' } _ => v.push('y') }
            v.into_iter().collect()
        };
        let mk = |s: &str, r: &mut Rng| {
            let n = s.chars().count();
            let mut cuts: Vec<usize> = (0..r.below(5)).map(|_| r.below(n + 1)).collect();
            cuts.sort_unstable();
            let mut at: Vec<usize> = (0..r.below(3)).map(|_| r.below(n + 1)).chain([0, n]).collect();
            at.sort_unstable();
            Recipe { src: s.into(), cuts, take: at.windows(2).map(|w| (w[0], w[1])).collect(), order: r.next(), carve: r.chance(1, 2) }
        };
        let (ra, rb) = (mk(&s, &mut c.rng), mk(&t, &mut c.rng));
        c.describe(format!("{n} characters of {unit:?}, cuts {:?} {:?}, orders {} {}", ra.cuts, rb.cuts, ra.order, rb.order));
        c.nontrivial(mix(ra.order, rb.order));
        let (ka, kb) = (c.rng.below(5), c.rng.below(5));
        with_text5!(ka, ra, |a| with_text5!(kb, rb, |b| {
            alone(c, &a, &cook_made(&ra))?;
            pair(c, &a, &b, &s, &t)?;
        }));
        let rc = mk(&s, &mut c.rng);
        with_text5!(kb, ra, |a| with_text5!(ka, rc, |b| pair(c, &a, &b, &s, &s)?));
        Ok(())
    });
    ctx.stage("many-chunks", ctx.pick(300, 3000), |c| {
        // Long texts in many (also empty) chunks, concatenated one by one.
        let n = c.rng.range(200, 1500);
        let s: String = (0..n).map(|i| if i % 3 == 0 { 'é' } else { 'x' }).collect();
        let t = { let mut v: Vec<char> = s.chars().collect(); let at = v.len() - 1 - c.rng.below(3); v[at] = 'y'; v.into_iter().collect::<String>() };
        let mk = |s: &str, r: &mut Rng| {
            let n = s.chars().count();
            let step = r.range(1, 4);
            let mut cuts: Vec<usize> = (0..n).step_by(step).collect();
            if r.chance(1, 2) { cuts = cuts.iter().flat_map(|&x| [x, x]).collect() }
            Recipe { src: s.into(), cuts, take: (0..n).step_by(7).map(|i| (i, (i + 7).min(n))).collect(), order: r.next(), carve: r.chance(1, 2) }
        };
        let (ra, rb) = (mk(&s, &mut c.rng), mk(&t, &mut c.rng));
        c.describe(format!("{} characters, orders {} {}", n, ra.order, rb.order));
        c.nontrivial(mix(ra.order, rb.order));
        let (ka, kb) = (c.rng.below(5), c.rng.below(5));
        with_text5!(ka, ra, |a| with_text5!(kb, rb, |b| {
            alone(c, &a, &cook_made(&ra))?;
            pair(c, &a, &b, &s, &t)?;
        }));
        with_text5!(kb, ra, |a| with_text5!(ka, ra, |b| pair(c, &a, &b, &s, &s)?));
        Ok(())
    });
}

// ----------------------------------------------------------------------- C23

fn export_one<TT: Text>(c: &mut Case, t: &TT, s: &str, room: usize) -> Result<(), String> {
    let fill = c.rng.next();
    let byte = |i: usize| mix(fill, i as u64) as u8;
    let mut buf: Vec<u8> = (0..room).map(byte).collect();
    let start = buf.as_ptr() as usize;
    let mut fits = 0;
    for ch in s.chars() { if fits + ch.len_utf8() <= room { fits += ch.len_utf8() } else { break } }
    let r = lib(|| t.encode_utf8(&mut buf));
    c.eval();
    let (ok, got) = match r { Ok(x) => (true, x), Err(x) => (false, x) };
    let at = got.as_ptr() as usize;
    let (got, bytes) = (got.to_string(), got.len());
    c.count(if ok { "exports that fit" } else { "exports cut short" }, 1);
    if !ok && fits < room { c.count("exports that leave room smaller than the next character", 1) }
    if ok != (s.len() <= room) { return Err(format!("exporting {s:?} ({} bytes) into {room} bytes reported {}", s.len(), if ok { "success" } else { "failure" })) }
    if got != s[..fits] { return Err(format!("exporting {s:?} into {room} bytes gave {got:?}, expected {:?}", &s[..fits])) }
    if bytes > 0 && at != start { return Err(format!("exporting {s:?} into {room} bytes returned another string than the start of the buffer")) }
    if let Some(i) = (bytes..room).find(|&i| buf[i] != byte(i)) { return Err(format!("exporting {s:?} into {room} bytes changed byte {i}, beyond the returned {bytes}")) }
    if buf[..bytes] != *s[..fits].as_bytes() { return Err(format!("exporting {s:?} into {room} bytes: the buffer does not hold the returned text")) }
    Ok(())
}

pub fn c23(ctx: &mut Ctx) {
    ctx.rule = "texts of ten types, chunked and concatenated in random ways, exported into random-filled buffers of every length from 0 to beyond the needed one; an evaluation is one export whose returned string and every byte of the buffer are compared with the longest fitting prefix; non-trivial: the text is not empty, distinct by text, making and type".into();
    let case = |c: &mut Case, s: &str, rooms: &[usize]| -> Result<(), String> {
        let r = recipe(&mut c.rng, s);
        let k = c.rng.below(10);
        c.describe(format!("{:?} as {k}", r));
        if !s.is_empty() { c.nontrivial(mix(hash_str(s), mix(hash_str(&format!("{r:?}")), k as u64))) }
        with_text!(k, r, |t| for &room in rooms { export_one(c, &t, s, room)? });
        c.sample(|| format!("{s:?} into {rooms:?} bytes"));
        Ok(())
    };
    let al = ['a', 'é', '€', '𝝰', '\0'];
    ctx.stage("small", gen::count_strings(5, ctx.pick(4, 5)) * 3, |c| {
        let s = gen::nth_string(c.idx / 3, &al);
        let rooms: Vec<usize> = (0..=s.len() + 3).collect();
        case(c, &s, &rooms)
    });
    ctx.stage("random", ctx.pick(320_000, 960_000), |c| {
        let n = c.rng.size(40);
        let s: String = (0..n).map(|_| gen::any_char(&mut c.rng)).collect();
        let rooms: Vec<usize> = (0..=s.len() + 5).collect();
        case(c, &s, &rooms)
    });
    ctx.stage("unicode", 0x11_0000 / 64, |c| {
        if c.tier == Tier::Quick && c.idx > 64 && !c.rng.chance(1, 16) { return Ok(()) }
        let s: String = (c.idx as u32 * 64..c.idx as u32 * 64 + 64).filter_map(char::from_u32).collect();
        let n = s.len();
        let mut rooms: Vec<usize> = (0..10).map(|_| c.rng.below(n + 1)).collect();
        rooms.extend([n, n + 1, n.saturating_sub(1)]);
        case(c, &s, &rooms)
    });
    ctx.stage("long", ctx.pick(60, 1000), |c| {
        let n = if c.idx % 6 == 5 { c.rng.range(22_000, 90_000) } else { c.rng.range(1000, 20_000) };
        let s: String = (0..n).map(|_| gen::any_char(&mut c.rng)).collect();
        let rooms: Vec<usize> = (0..6).map(|_| c.rng.below(s.len() + 2)).chain([s.len(), s.len() - 1, s.len() + 100, 255, 256, 65535, 65536]).collect();
        case(c, &s, &rooms)
    });
}

// ----------------------------------------------------------------------- C21

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op { Peek, Next, Accum, Done }

/// What the stream must do.
struct Ideal<'a> { cs: &'a [char], first: usize, at: usize, pending: Vec<usize> }

impl Ideal<'_> {
    fn item(&self) -> Option<(char, usize)> { self.cs.get(self.at).map(|&c| (c, self.first + self.at)) }
}

fn plain<P: PosView>(i: Option<&SourceIterItem<P>>) -> Option<(char, usize)> { i.map(|i| (i.ch, i.pos.cp())) }

fn step_fail(k: usize, op: Op, want: &str, got: &str) -> String { format!("operation {k} ({op:?}): expected {want}, observed {got}") }

fn run_ops<DA, S>(c: &mut Case, mut s: S, da: &mut DA, cs: &[char], starts: Option<&[usize]>, ops: &[Op]) -> Result<(), String>
    where DA: DatumAllocator, S: SourceStream<DA> + Iterator<Item = SourceIterItem<<DA::TT as TextBase>::Pos>>,
          <DA::TT as TextBase>::Pos: PosView, <DA::TT as Text>::Chunk: ChunkView, DA::TT: Text,
{
    let mut m = Ideal { cs, first: 0, at: 0, pending: vec![] };
    let mut kept: Vec<(DA::TT, Vec<usize>)> = vec![];
    for (k, &op) in ops.iter().enumerate() {
        c.eval();
        let want = m.item();
        match op {
            Op::Peek => {
                let i = lib(|| s.peek());
                if let (Some(i), Some(st)) = (i, starts) { if i.pos.bp() != st[m.at] { return Err(step_fail(k, op, &format!("byte {}", st[m.at]), &format!("byte {}", i.pos.bp()))) } }
                let got = plain(i);
                if got != want { return Err(step_fail(k, op, &format!("{want:?}"), &format!("{got:?}"))) }
                c.count("peeks", 1);
            }
            Op::Next | Op::Accum => {
                let i = if op == Op::Next { m.pending.clear(); lib(|| s.next()) } else {
                    if want.is_some() { m.pending.push(m.at) }
                    must(lib(|| s.next_accum(da)))
                };
                if let (Some(i), Some(st)) = (&i, starts) { if i.pos.bp() != st[m.at] { return Err(step_fail(k, op, &format!("byte {}", st[m.at]), &format!("byte {}", i.pos.bp()))) } }
                let got = plain(i.as_ref());
                if got != want { return Err(step_fail(k, op, &format!("{want:?}"), &format!("{got:?}"))) }
                c.count(if op == Op::Next { "plain advances" } else { "accumulating advances" }, 1);
                if want.is_some() { m.at += 1 } else { c.count("operations at the end", 1) }
            }
            Op::Done => {
                let t = must(lib(|| s.accum_done(da)));
                let x = lib(|| obs_text(&t));
                let ws: String = m.pending.iter().map(|&i| cs[i]).collect();
                if x.s != ws || x.cpos != m.pending {
                    return Err(step_fail(k, op, &format!("{ws:?} at {:?}", m.pending), &format!("{:?} at {:?}", x.s, x.cpos)));
                }
                if let Some(st) = starts {
                    if x.bpos.iter().zip(&m.pending).any(|(b, &i)| *b != st[i]) { return Err(step_fail(k, op, "byte offsets of those characters", &format!("{:?}", x.bpos))) }
                }
                if t.is_empty() != ws.is_empty() { return Err(step_fail(k, op, &format!("is_empty {}", ws.is_empty()), &format!("{}", t.is_empty()))) }
                c.count("finishes", 1);
                if !ws.is_empty() { c.count("finishes with characters", 1) }
                kept.push((t, std::mem::take(&mut m.pending)));
            }
        }
    }
    // What was finished earlier stays.
    for (t, p) in &kept {
        let x = obs_text(t);
        if x.cpos != *p { return Err(format!("a finished text changed later: now {:?}, was at {p:?}", x.cpos)) }
    }
    Ok(())
}

fn run_chunk_ops<C>(c: &mut Case, chunk: &C, first: usize, cs: &[char], starts: &[usize], ops: &[Op]) -> Result<(), String>
    where C: TextChunk + ChunkView, C::Pos: PosView,
{
    let mut s = chunk.src_strm();
    let mut m = Ideal { cs, first, at: 0, pending: vec![] };
    for (k, &op) in ops.iter().enumerate() {
        c.eval();
        let want = m.item();
        let got = match op {
            Op::Peek => plain(lib(|| ChunkSourceStream::peek(&mut s))),
            Op::Next => { m.pending.clear(); let i = lib(|| s.next()); if i.is_some() { m.at += 1 } plain(i.as_ref()) }
            Op::Accum => { if want.is_some() { m.pending.push(m.at) } let i = lib(|| s.next_accum()); if i.is_some() { m.at += 1 } plain(i.as_ref()) }
            Op::Done => {
                let d = lib(|| s.accum_done());
                let ws: String = m.pending.iter().map(|&i| cs[i]).collect();
                let wp = m.pending.first().map(|&i| first + i);
                if d.sv() != ws || wp.is_some_and(|p| p != d.cpv()) || (d.bpv() != NOPOS && m.pending.first().is_some_and(|&i| d.bpv() != starts[first + i])) {
                    return Err(format!("chunk stream: {}", step_fail(k, op, &format!("{ws:?} at {wp:?}"), &format!("{:?} at {} (byte {})", d.sv(), d.cpv(), d.bpv() as isize))));
                }
                if d.is_empty() != ws.is_empty() { return Err(format!("chunk stream: is_empty of {ws:?} is {}", d.is_empty())) }
                m.pending.clear();
                continue;
            }
        };
        if got != want { return Err(format!("chunk stream: {}", step_fail(k, op, &format!("{want:?}"), &format!("{got:?}")))) }
    }
    Ok(())
}

fn ops_strish<S: Storage>(c: &mut Case, s: &str, sp: &[usize], ops: &[Op], kind: usize) -> Result<(), String> {
    let cs: Vec<char> = s.chars().collect();
    let st = char_starts(s);
    let strs = || -> Vec<S> { mk_chunks::<PosStrish<S>>(s, &st, sp).iter().map(|x| S::from_str(x.sv())).collect() };
    let room = 2 * (cs.len() + sp.len() + ops.len()) + 64;
    let mut da = NoNodes::<TextVec<PosStrish<S>>>::default();
    let mut store = slots::<TextDatumList<PosStrish<S>, i64>>(room);
    let mut sda = SliceDatumAllocator::new(&mut store[..]);
    match kind {
        0 => run_ops(c, CharIterSourceStream::new(s.chars(), S::conv()), &mut da, &cs, None, ops),
        1 => run_ops(c, StrishIterSourceStream::new(strs()), &mut da, &cs, None, ops),
        2 => { let t = TextVec::assemble(mk_chunks::<PosStrish<S>>(s, &st, sp), &mut da); run_ops(c, t.iter(), &mut da, &cs, None, ops) }
        3 => run_ops(c, CharIterSourceStream::new(s.chars(), S::conv()), &mut sda, &cs, None, ops),
        4 => run_ops(c, StrishIterSourceStream::new(strs()), &mut sda, &cs, None, ops),
        5 => { let t = TextDatumList::assemble(mk_chunks::<PosStrish<S>>(s, &st, sp), &mut sda); run_ops(c, t.iter(), &mut sda, &cs, None, ops) }
        _ => {
            for (i, ch) in mk_chunks::<PosStrish<S>>(s, &st, sp).iter().enumerate() {
                let a = if i == 0 { 0 } else { sp[i - 1] };
                let b = sp.get(i).copied().unwrap_or(cs.len());
                run_chunk_ops(c, ch, a, &cs[a..b], &st, ops)?;
                // And on a piece of the chunk.
                let mut it = ch.src_strm();
                if b > a + 1 {
                    it.next();
                    while it.next_accum().is_some() {}
                    run_chunk_ops(c, &it.accum_done(), a + 1, &cs[a + 1..b], &st, ops)?;
                }
            }
            Ok(())
        }
    }
}

fn ops_case(c: &mut Case, s: &str, sp: &[usize], ops: &[Op], which: usize) -> Result<(), String> {
    let cs: Vec<char> = s.chars().collect();
    let st = char_starts(s);
    c.describe(format!("source {s:?} splits {sp:?} stream kind {which} operations {ops:?}"));
    c.nontrivial(mix(hash_str(s), mix(hash_str(&format!("{sp:?}{ops:?}")), which as u64)));
    c.sample(|| format!("kind {which}, source {s:?} split at {sp:?}: {ops:?}"));
    let room = 2 * (cs.len() + sp.len() + ops.len()) + 64;
    match which {
        0 => { let mut da = NoNodes::default(); let t = TextVec::assemble(mk_chunks::<PosStr>(s, &st, sp), &mut da); run_ops(c, t.iter(), &mut da, &cs, Some(&st), ops) }
        1 => {
            let mut store = slots::<TextDatumList<PosStr, i64>>(room);
            let mut da = SliceDatumAllocator::new(&mut store[..]);
            let t = TextDatumList::assemble(mk_chunks::<PosStr>(s, &st, sp), &mut da);
            run_ops(c, t.iter(), &mut da, &cs, Some(&st), ops)
        }
        2 => { let mut da = NoNodes::default(); let t = SegText(mk_chunks::<PosStr>(s, &st, sp)); run_ops(c, t.iter(), &mut da, &cs, Some(&st), ops) }
        3 => {
            for (i, ch) in mk_chunks::<PosStr>(s, &st, sp).iter().enumerate() {
                let a = if i == 0 { 0 } else { sp[i - 1] };
                let b = sp.get(i).copied().unwrap_or(cs.len());
                run_chunk_ops(c, ch, a, &cs[a..b], &st, ops)?;
            }
            Ok(())
        }
        k => match (k - 4) % 6 {
            0 => ops_strish::<Rc<String>>(c, s, sp, ops, (k - 4) / 6),
            1 => ops_strish::<Arc<str>>(c, s, sp, ops, (k - 4) / 6),
            2 => ops_strish::<Rc<Box<str>>>(c, s, sp, ops, (k - 4) / 6),
            3 => ops_strish::<Arc<String>>(c, s, sp, ops, (k - 4) / 6),
            4 => ops_strish::<Rc<str>>(c, s, sp, ops, (k - 4) / 6),
            _ => ops_strish::<Arc<Box<str>>>(c, s, sp, ops, (k - 4) / 6),
        },
    }
}

const KINDS: usize = 4 + 6 * 7;

pub fn c21(ctx: &mut Ctx) {
    ctx.rule = "every provided stream (texts of chunks, character iterators, string iterators, with all storage and text types, and the streams of single chunks and of pieces of chunks) under all operation sequences up to a length over several chunkings, and random longer sequences with runs of one operation and operations at the end; an evaluation is one operation whose result (character, position, byte offset, accumulated text) is compared with an ideal stream; non-trivial: distinct by source, chunking, sequence and stream".into();
    let short: Vec<(String, Vec<usize>)> = vec![
        ("".into(), vec![]), ("é".into(), vec![]), ("aé".into(), vec![1]), ("a𝝰b".into(), vec![]), ("a𝝰b".into(), vec![1, 2]),
        ("a𝝰b".into(), vec![0, 0, 1, 1, 1, 3]), ("ab€".into(), vec![2]), ("".into(), vec![0, 0]),
    ];
    let len = ctx.pick(6, 7);
    let per = gen::count_strings(4, len);
    let all = [Op::Peek, Op::Next, Op::Accum, Op::Done];
    let reps = [0usize, 1, 2, 3, 4, 10, 16, 23, 29, 34, 40];
    let n = per * short.len() as u64;
    ctx.exhaustive_note = Some(format!("all {per} sequences of up to {len} operations on {} short chunked sources, on every case one of {} stream kinds in turn", short.len(), reps.len()));
    ctx.stage("sequences", n * ctx.pick(6, reps.len() as u64), |c| {
        let i = c.idx / n;
        let k = c.idx % n;
        let word = gen::nth_string(k % per, &['p', 'n', 'a', 'd']);
        let ops: Vec<Op> = word.chars().map(|w| all["pnad".find(w).unwrap()]).collect();
        let (s, sp) = &short[(k / per) as usize];
        let which = if c.tier == Tier::Quick { c.rng.below(KINDS) } else { reps[i as usize] };
        ops_case(c, s, sp, &ops, which)
    });
    ctx.stage("random", ctx.pick(2_400_000, 7_200_000), |c| {
        let n = c.rng.size(30);
        let s: String = (0..n).map(|_| gen::any_char(&mut c.rng)).collect();
        let sp = gen::splits(&mut c.rng, n);
        let len = c.rng.range(1, 3 * n + 6);
        let mut ops = vec![];
        while ops.len() < len {
            let op = *c.rng.pick(&all);
            let k = if c.rng.chance(1, 4) { c.rng.range(1, 8) } else { 1 };
            for _ in 0..k { ops.push(op) }
        }
        // Often drain, so that the end is reached with something pending.
        if c.rng.chance(1, 2) { for _ in 0..n + 2 { ops.push(Op::Accum); if c.rng.chance(1, 5) { ops.push(Op::Peek) } } ops.push(Op::Done) }
        ops_case(c, &s, &sp, &ops, c.idx as usize % KINDS)
    });
    ctx.stage("long", ctx.pick(600, 6000), |c| {
        let huge = c.idx % 10 < 2;
        let n = if huge { c.rng.range(65_500, 140_000) } else { c.rng.range(500, 9000) };
        let plain = c.rng.chance(1, 2);
        let s: String = (0..n).map(|i| if i % 5 == 0 && !plain { '€' } else { 'x' }).collect();
        let pieces = if huge { 4 } else { 200 };
        let mut sp: Vec<usize> = (0..c.rng.range(0, pieces)).map(|_| c.rng.below(n + 1)).collect();
        sp.sort_unstable();
        if c.rng.chance(1, 4) { sp = block_splits(&mut c.rng, n) }
        let mut ops = vec![];
        while ops.len() < n + 20 {
            let op = *c.rng.pick(&[Op::Accum, Op::Accum, Op::Accum, Op::Next, Op::Done, Op::Peek]);
            let k = if op == Op::Accum { let most = if huge { 90_000 } else { 700 }; c.rng.range(1, most) } else { c.rng.range(1, 3) };
            for _ in 0..k { ops.push(op) }
        }
        ops.push(Op::Done);
        ops_case(c, &s, &sp, &ops, c.idx as usize % KINDS)
    });
}

// ----------------------------------------------------------------------- C20

/// A reference type of the harness: plain shared references.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct ByRef<'d, TT>(&'d Datum<TT, i64, ByRef<'d, TT>>);
impl<'d, TT> Deref for ByRef<'d, TT> {
    type Target = Datum<TT, i64, ByRef<'d, TT>>;
    fn deref(&self) -> &Self::Target { self.0 }
}
impl<TT> DerefTryMut for ByRef<'_, TT> { fn get_mut(_: &mut Self) -> Option<&mut Self::Target> { None } }

/// Hands out leaked-until-dropped plain references.
struct RefAlloc<'d, TT> { arena: &'d Arena<'d, TT> }
struct Arena<'d, TT>(std::cell::RefCell<Vec<Box<Datum<TT, i64, ByRef<'d, TT>>>>>);
impl<'d, TT: Text> DatumAllocator for RefAlloc<'d, TT> {
    type TT = TT;
    type ET = i64;
    type DR = ByRef<'d, TT>;
    fn new_datum(&mut self, from: Datum<TT, i64, ByRef<'d, TT>>) -> Result<ByRef<'d, TT>, AllocError> {
        let b = Box::new(from);
        let p: *const _ = &*b;
        self.arena.0.borrow_mut().push(b);
        // SAFETY: boxed values do not move and are only dropped with the arena.
        Ok(ByRef(unsafe { &*p }))
    }
}

fn tree_pair<TA, DA_, TB, DB_>(c: &mut Case, a: &Datum<TA, i64, DA_>, b: &Datum<TB, i64, DB_>, same: bool) -> Result<(), String>
    where DA_: Hash + DerefTryMut<Target = Datum<TA, i64, DA_>>, DB_: Hash + DerefTryMut<Target = Datum<TB, i64, DB_>>,
          TA: PartialEq<TB> + Hash, TB: PartialEq<TA> + Hash,
{
    c.evals(3);
    c.count(if same { "equal pairs" } else { "unequal pairs" }, 1);
    let got = lib(|| (a == b, b == a, a != b, b != a));
    if got != (same, same, !same, !same) { return Err(format!("(==, reversed ==, !=, reversed !=) is {got:?}, the trees are {}", if same { "equal" } else { "different" })) }
    if same {
        let (x, y) = lib(|| (digests(a), digests(b)));
        if x != y { return Err("equal trees hash differently".into()) }
        c.count("equal pairs hashed", 1);
    }
    Ok(())
}

fn form_room(t: &T) -> usize {
    let mut n = t.nodes_below(false) + 8;
    t.texts(&mut |x| n += 2 * x.s.chars().count() + 24);
    n
}

macro_rules! with_tree {
    ($k:expr, $t:expr, $rng:expr, |$d:ident| $body:expr) => {{
        let t = $t;
        match $k {
            0 => { let $d = mk_datum(t, &mut BoxDatumAllocator::<TextVec<PosStr>, i64>::default(), $rng); $body }
            1 => { let $d = mk_datum(t, &mut RcDatumAllocator::<TextVec<PosStrish<Rc<String>>>, i64>::default(), $rng); $body }
            2 => { let $d = mk_datum(t, &mut ArcDatumAllocator::<TextVec<PosStr>, i64>::default(), $rng); $body }
            3 => { let mut s = slots::<TextDatumList<PosStr, i64>>(form_room(t)); let $d = mk_datum(t, &mut SliceDatumAllocator::new(&mut s[..]), $rng); $body }
            _ => { let arena = Arena(Default::default()); let $d = mk_datum(t, &mut RefAlloc::<TextVec<PosStr>> { arena: &arena }, $rng); $body }
        }
    }};
}

/// One change somewhere in the tree; may also give an equal tree.
fn changed(t: &T, rng: &mut Rng) -> T {
    match t {
        T::Text(x) => if rng.chance(1, 6) { [T::EmptyNest, T::EmptyList, T::Extra(0)][rng.below(3)].clone() } else { T::text(&related(rng, &x.s)) },
        T::Comb(a, b) => match rng.below(8) {
            0 => T::comb((**b).clone(), (**a).clone()),
            1 => T::List(vec![(**a).clone()], match &**b { T::EmptyList => None, T::List(..) => return (**b).clone(), o => Some(Box::new(o.clone())) }),
            2..=4 => T::comb(changed(a, rng), (**b).clone()),
            _ => T::comb((**a).clone(), changed(b, rng)),
        },
        T::List(v, tail) => {
            let mut v = v.clone();
            let mut tail = tail.clone();
            match rng.below(8) {
                0 => { let i = rng.below(v.len()); v.remove(i); }
                1 => { let i = rng.below(v.len()); let x = v[i].clone(); v.insert(i, x) }
                2 if v.len() > 1 => { let i = rng.below(v.len() - 1); v.swap(i, i + 1) }
                3 => tail = if tail.is_some() { None } else { Some(Box::new([T::EmptyNest, T::text(""), T::Extra(1)][rng.below(3)].clone())) },
                4 => { if let Some(t) = &tail { tail = match changed(t, rng) { T::List(..) | T::EmptyList => None, t => Some(Box::new(t)) } } }
                _ => { let i = rng.below(v.len()); v[i] = changed(&v[i], rng) }
            }
            if v.is_empty() { tail.map_or(T::EmptyList, |t| *t) } else { T::List(v, tail) }
        }
        T::EmptyNest => [T::EmptyList, T::EmptyNest, T::text(""), T::comb(T::EmptyNest, T::EmptyList)][rng.below(4)].clone(),
        T::EmptyList => [T::EmptyNest, T::EmptyList, T::list(vec![T::EmptyList]), T::text("")][rng.below(4)].clone(),
        T::Extra(n) => [T::Extra(n + 1), T::Extra(-n), T::EmptyNest, T::Extra(*n)][rng.below(4)].clone(),
    }
}

fn tree_case(c: &mut Case, a: &T, b: &T, ka: usize, kb: usize) -> Result<(), String> {
    let same = a.same(b);
    c.describe(format!("{} (type {ka}) against {} (type {kb})", a.brief(), b.brief()));
    c.nontrivial(mix(hash_str(&format!("{a:?}")), mix(hash_str(&format!("{b:?}")), (ka * 5 + kb) as u64)));
    c.sample(|| format!("{} (type {ka}) {} {} (type {kb})", a.brief(), if same { "equals" } else { "differs from" }, b.brief()));
    let mut r = c.rng.clone();
    with_tree!(ka, a, &mut r, |x| with_tree!(kb, b, &mut r, |y| tree_pair(c, &x, &y, same)?));
    Ok(())
}

/// What huge trees are made of: chains along lists and head positions.
#[derive(Clone, Debug)]
enum Huge { Leaf(u8), Chain(Vec<Link>) }
#[derive(Clone, Debug)]
enum Link { List(Huge), Comb(Huge) }

fn huge_plan(rng: &mut Rng, budget: &mut usize, depth: usize) -> Huge {
    if depth == 0 || *budget < 4 || rng.chance(1, 4) { return Huge::Leaf(rng.below(5) as u8) }
    let n = rng.range(1, 4).min(*budget);
    let mut v = vec![];
    for _ in 0..n {
        *budget = budget.saturating_sub(1);
        let sub = huge_plan(rng, budget, depth - 1);
        v.push(if rng.chance(1, 2) { Link::List(sub) } else { Link::Comb(sub) });
    }
    Huge::Chain(v)
}

type Node<TT, DR> = Datum<TT, i64, DR>;

/// Builds the plan with every chain link repeated `rep` times; `diff` is
/// counted down at each leaf, and the leaf reached at zero is different.
fn build_huge<TT, DR>(p: &Huge, rep: usize, diff: &mut i64, new: &dyn Fn(Node<TT, DR>) -> DR, text: &dyn Fn(&'static str) -> TT) -> Node<TT, DR>
    where DR: DerefTryMut<Target = Node<TT, DR>>,
{
    match p {
        Huge::Leaf(k) => {
            *diff -= 1;
            match (k, *diff == -1) {
                (0, false) => Datum::EmptyNest,
                (1, false) => Datum::EmptyList,
                (2, false) => Datum::Extra(7),
                (3, false) => Datum::Text(text("same")),
                (_, false) => Datum::Text(text("")),
                (0, true) => Datum::EmptyList,
                (1, true) => Datum::EmptyNest,
                (2, true) => Datum::Extra(8),
                (3, true) => Datum::Text(text("samf")),
                (_, true) => Datum::Text(text("x")),
            }
        }
        Huge::Chain(links) => {
            *diff -= 1;
            let mut d = if *diff == -1 { Datum::EmptyNest } else { Datum::EmptyList };
            for _ in 0..rep {
                for l in links {
                    d = match l {
                        Link::List(e) => { let e = build_huge(e, 1, diff, new, text); Datum::List { elem: new(e), next: new(d) } }
                        Link::Comb(o) => { let o = build_huge(o, 1, diff, new, text); Datum::Combination { operator: new(d), operands: new(o) } }
                    };
                }
            }
            d
        }
    }
}

/// Payloads with an equality of their own: the first is not equal to itself,
/// the second and third are equal but not the same.
const ODD: [f64; 4] = [f64::NAN, 0.0, -0.0, 1.0];
fn odd(n: i64) -> f64 { ODD[n.rem_euclid(4) as usize] }

fn odd_same(a: &T, b: &T) -> bool {
    match (a, b) {
        (T::Extra(x), T::Extra(y)) => odd(*x) == odd(*y),
        (T::Comb(a, b), T::Comb(c, d)) => odd_same(a, c) && odd_same(b, d),
        (T::List(v, t), T::List(w, u)) => v.len() == w.len() && v.iter().zip(w).all(|(x, y)| odd_same(x, y)) && match (t, u) {
            (None, None) => true,
            (Some(t), Some(u)) => odd_same(t, u),
            _ => false,
        },
        (a, b) => a.same(b),
    }
}

type Odd<'t, DR> = Datum<TextVec<PosStr<'t>>, f64, DR>;

/// Builds `t`, using nodes made before for equal parts of it if `again` says so.
fn build_shared<'t, DR>(t: &'t T, pool: &mut Vec<(T, DR)>, new: &dyn Fn(Odd<'t, DR>) -> DR, again: &dyn Fn(&DR) -> Option<DR>, rng: &mut Rng) -> Odd<'t, DR>
    where DR: DerefTryMut<Target = Odd<'t, DR>>,
{
    match t {
        T::Text(x) => Datum::Text(TextVec::from_str(&x.s)),
        T::EmptyNest => Datum::EmptyNest,
        T::EmptyList => Datum::EmptyList,
        T::Extra(n) => Datum::Extra(odd(*n)),
        T::Comb(a, b) => { let operator = child(a, pool, new, again, rng); Datum::Combination { operator, operands: child(b, pool, new, again, rng) } }
        T::List(v, tail) => {
            let mut d = match tail { None => Datum::EmptyList, Some(t) => build_shared(t, pool, new, again, rng) };
            for e in v.iter().rev() {
                d = Datum::List { elem: child(e, pool, new, again, rng), next: new(d) };
            }
            d
        }
    }
}

fn child<'t, DR>(t: &'t T, pool: &mut Vec<(T, DR)>, new: &dyn Fn(Odd<'t, DR>) -> DR, again: &dyn Fn(&DR) -> Option<DR>, rng: &mut Rng) -> DR
    where DR: DerefTryMut<Target = Odd<'t, DR>>,
{
    if rng.chance(3, 4) {
        if let Some(r) = pool.iter().find(|(x, _)| x.same(t)).and_then(|(_, r)| again(r)) { return r }
    }
    let d = build_shared(t, pool, new, again, rng);
    let r = new(d);
    if let Some(x) = again(&r) { pool.push((t.clone(), x)) }
    r
}

fn odd_case(c: &mut Case) -> Result<(), String> {
    let mut left = c.rng.size(12);
    let a = any_form(&mut c.rng, &mut left);
    let b = if c.rng.chance(1, 2) { a.clone() } else { changed(&a, &mut c.rng) };
    let k = c.idx as usize % 5;
    c.describe(format!("payloads that are not equal to themselves or equal and different, shared nodes: {} against {} (types {k})", a.brief(), b.brief()));
    c.nontrivial(mix(hash_str(&format!("{a:?}{b:?}")), k as u64));
    c.sample(|| format!("payloads compared by their own equality: {} against {}", a.brief(), b.brief()));
    let (same, self_a, self_b) = (odd_same(&a, &b), odd_same(&a, &a), odd_same(&b, &b));
    let mut r = c.rng.clone();
    macro_rules! judge { ($x:expr, $y:expr) => {{
        let (x, y) = (&$x, &$y);
        c.evals(3);
        let got = lib(|| (x == y, y == x, x != y, x == x, y == y));
        let want = (same, same, !same, self_a, self_b);
        if got != want { return Err(format!("(==, reversed, !=, first with itself, second with itself) is {got:?}, by structure and payloads {want:?}")) }
    }} }
    match k {
        0 | 1 => { let mut p = vec![]; let x: RcDatum<_, _> = build_shared(&a, &mut p, &DatumRc::new, &|r: &DatumRc<_, _>| Some(r.clone()), &mut r);
               if k == 1 { p.clear() }
               let y = build_shared(&b, &mut p, &DatumRc::new, &|r: &DatumRc<_, _>| Some(r.clone()), &mut r); judge!(x, y) }
        2 => { let mut p = vec![]; let x: ArcDatum<_, _> = build_shared(&a, &mut p, &DatumArc::new, &|r: &DatumArc<_, _>| Some(r.clone()), &mut r);
               let y = build_shared(&b, &mut p, &DatumArc::new, &|r: &DatumArc<_, _>| Some(r.clone()), &mut r); judge!(x, y) }
        3 => { let x: BoxDatum<_, _> = build_shared(&a, &mut vec![], &DatumBox::new, &|_: &DatumBox<_, _>| None, &mut r);
               let y: RcDatum<_, _> = build_shared(&b, &mut vec![], &DatumRc::new, &|r: &DatumRc<_, _>| Some(r.clone()), &mut r); judge!(x, y) }
        _ => { let mut p = vec![]; let x = DatumRc::new(build_shared(&a, &mut p, &DatumRc::new, &|r: &DatumRc<_, _>| Some(r.clone()), &mut r));
               let y = DatumRc::new(build_shared(&b, &mut p, &DatumRc::new, &|r: &DatumRc<_, _>| Some(r.clone()), &mut r)); judge!(x, y) }
    }
    c.count("pairs with payloads of their own equality", 1);
    Ok(())
}

pub const SMALL_STACK: usize = 192 * 1024;

/// Runs `f` on a thread with a small stack.
pub fn on_small_stack<R: Send>(stage: &str, idx: u64, f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(SMALL_STACK).spawn_scoped(s, || {
            crate::wrap::set_stage(stage);
            crate::wrap::set_case(idx);
            match guarded(f) { Ok(r) => r, Err(e) => std::panic::resume_unwind(Box::new(e)) }
        }).expect("spawn").join().unwrap_or_else(|p| match p.downcast::<Result<String, String>>() {
            Ok(e) => match *e { Ok(m) => violate(m), Err(m) => panic!("harness: {m}") },
            Err(p) => std::panic::resume_unwind(p),
        })
    })
}

/// Trees given back by a thread that has ended, so nothing of it is shared.
struct Later(#[allow(dead_code)] Box<dyn std::any::Any>);
unsafe impl Send for Later {}

fn huge_case(c: &mut Case, links: usize) -> Result<(), String> {
    let mut budget = 6;
    let depth = c.rng.range(1, 3);
    let plan = loop { let p = huge_plan(&mut c.rng, &mut budget, depth); if matches!(p, Huge::Chain(_)) { break p } budget = 6 };
    let per = if let Huge::Chain(v) = &plan { v.len() } else { 1 };
    let rep = links / per + 1;
    // How many leaves are there?
    let mut count = i64::MAX / 2;
    drop(build_huge(&plan, rep, &mut count, &DatumBox::new, &TextVec::<PosStr>::from_str));
    let leaves = i64::MAX / 2 - count;
    let at = match c.rng.below(4) { 0 => -1, 1 => 0, 2 => leaves - 1, _ => c.rng.below(leaves as usize) as i64 };
    let pick = c.rng.below(6);
    c.describe(format!("chain of {plan:?} repeated {rep} times, leaf {at} of {leaves} different, types {pick}"));
    c.nontrivial(mix(hash_str(&format!("{plan:?}{rep}")), mix(at as u64, pick as u64)));
    c.max("tree nodes compared", leaves as u64);
    c.sample(|| format!("chain of {plan:?} repeated {rep} times, leaf {at} of {leaves} different"));
    let idx = c.idx;
    let mut inner = Case::quiet(c);
    let same = at < 0;
    let (r, trees) = on_small_stack("huge", idx, || {
        type B = TextVec<PosStr<'static>>;
        type L = TextVec<PosStrish<Arc<str>>>;
        let mut none = -1i64 << 40;
        let mut at = if at < 0 { -1i64 << 40 } else { at };
        macro_rules! mk { ($tt:ty, $new:expr, $d:expr) => { build_huge::<$tt, _>(&plan, rep, $d, &$new, &<$tt>::from_str) } }
        let c = &mut inner;
        match pick {
            0 => { let (a, b): (BoxDatum<B, i64>, BoxDatum<B, i64>) = (mk!(B, DatumBox::new, &mut none), mk!(B, DatumBox::new, &mut at)); let r = tree_pair(c, &a, &b, same); (r, Later(Box::new((a, b)))) }
            1 => { let (a, b): (RcDatum<B, i64>, RcDatum<B, i64>) = (mk!(B, DatumRc::new, &mut none), mk!(B, DatumRc::new, &mut at)); let r = tree_pair(c, &a, &b, same); (r, Later(Box::new((a, b)))) }
            2 => { let (a, b): (ArcDatum<B, i64>, ArcDatum<B, i64>) = (mk!(B, DatumArc::new, &mut none), mk!(B, DatumArc::new, &mut at)); let r = tree_pair(c, &a, &b, same); (r, Later(Box::new((a, b)))) }
            3 => { let (a, b): (BoxDatum<B, i64>, ArcDatum<L, i64>) = (mk!(B, DatumBox::new, &mut none), mk!(L, DatumArc::new, &mut at)); let r = tree_pair(c, &a, &b, same); (r, Later(Box::new((a, b)))) }
            4 => { let (a, b): (RcDatum<L, i64>, BoxDatum<B, i64>) = (mk!(L, DatumRc::new, &mut none), mk!(B, DatumBox::new, &mut at)); let r = tree_pair(c, &a, &b, same); (r, Later(Box::new((a, b)))) }
            _ => { let (a, b): (DatumRc<B, i64>, DatumRc<B, i64>) = (DatumRc::new(mk!(B, DatumRc::new, &mut none)), DatumRc::new(mk!(B, DatumRc::new, &mut at)));
                   let ok = lib(|| (a == b) == same && (b == a) == same && a == a.clone());
                   let r = if ok { tree_pair(c, &*a, &*b, same) } else { Err("comparing references to the trees gave a wrong answer".into()) };
                   (r, Later(Box::new((a, b)))) }
        }
    });
    // What dropping them needs is another check's business.
    drop(trees);
    c.absorb(inner);
    r
}

pub fn c20(ctx: &mut Ctx) {
    ctx.rule = "pairs of trees (all pairs of small forms, random forms with one change in a random place, huge chains along lists and head positions with one different leaf) held by exclusive, counted, atomically counted, slice and plain references with different text types, compared both ways with == and != and hashed with two hashers; huge ones on a 192 KiB stack; an evaluation is one comparison with the structural answer, or one pair of hashes; non-trivial: distinct by both trees and types".into();
    let forms: Vec<T> = {
        let mut v = vec![];
        let mut rng = Rng::new(20);
        for s in ["", "a", "b", "ab"] { v.push(T::text(s)) }
        v.extend([T::EmptyNest, T::EmptyList, T::Extra(0), T::Extra(1)]);
        let l = v.clone();
        for a in &l { for b in &l {
            v.push(T::comb(a.clone(), b.clone()));
            match b { T::EmptyList => v.push(T::list(vec![a.clone()])), b => v.push(T::List(vec![a.clone()], Some(Box::new(b.clone())))) }
        } }
        for _ in 0..40 { let mut left = 6; v.push(any_form(&mut rng, &mut left)) }
        v
    };
    let n = forms.len() as u64;
    ctx.exhaustive_note = Some(format!("all {} ordered pairs of {n} small forms, each pair with {} combinations of reference types", n * n, ctx.pick(1, 5)));
    ctx.stage("small-pairs", n * n * ctx.pick(1, 5), |c| {
        let k = c.idx % (n * n);
        let (ka, kb) = (c.rng.below(5), c.rng.below(5));
        tree_case(c, &forms[(k / n) as usize], &forms[(k % n) as usize], ka, kb)
    });
    ctx.stage("random", ctx.pick(1_200_000, 3_600_000), |c| {
        let mut left = c.rng.size(25);
        let a = any_form(&mut c.rng, &mut left);
        let b = match c.rng.below(4) {
            0 => a.clone(),
            1 => { let x = changed(&a, &mut c.rng); changed(&x, &mut c.rng) }
            _ => changed(&a, &mut c.rng),
        };
        let (ka, kb) = (c.rng.below(5), c.rng.below(5));
        tree_case(c, &a, &b, ka, kb)
    });
    ctx.stage("payloads", ctx.pick(240_000, 720_000), odd_case);
    ctx.stage("long-texts", ctx.pick(600, 3_000), |c| {
        let n = if c.idx % 30 == 0 { c.rng.range(65_000, 140_000) } else { c.rng.range(200, 9_000) };
        let mut left = 4;
        let text: String = (0..n).map(|i| if i % 7 == 3 { 'é' } else { 'x' }).collect();
        let part = any_form(&mut c.rng, &mut left);
        let place = c.rng.below(4);
        let make = |s: &str| {
            let t = T::text(s);
            match place {
                0 => t,
                1 => T::comb(t, part.clone()),
                2 => T::comb(part.clone(), t),
                _ => T::List(vec![part.clone(), t, part.clone()], None),
            }
        };
        let mut v: Vec<char> = text.chars().collect();
        match c.rng.below(4) {
            0 => {}
            1 => v[n - 1] = 'y',
            2 => { v.pop(); }
            _ => { let i = c.rng.below(n); v[i] = 'z' }
        }
        let (ka, kb) = (c.rng.below(5), c.rng.below(5));
        tree_case(c, &make(&text), &make(&v.into_iter().collect::<String>()), ka, kb)
    });
    ctx.stage_on("huge", ctx.pick(96, 300), 8, |c| {
        let links = if c.tier == Tier::Quick { [3_000, 20_000, 140_000][c.idx as usize % 3] } else { [3_000, 60_000, 300_000][c.idx as usize % 3] };
        huge_case(c, links)
    });
}
