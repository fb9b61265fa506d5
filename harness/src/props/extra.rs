//! Checks of the iterators as iterators, of looking at values, of the amount
//! of work, of what a streaming parse keeps and of parses that are under way at
//! the same time (C31 to C35).

use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::Arc;

use kul::parser::*;
use kul::source_stream::*;
use kul::text::chunk::{CharPos, PosStr, PosStrish};
use kul::text::{TextDatumList, TextVec};
use kul::{Datum, DerefTryMut, Parser, SourceIterItem, SourceStream, Text, TextBase, TextChunk, TextConcat};

use super::parse::describe;
use super::stack::{family, Family};
use super::texts::*;
use crate::configs::*;
use crate::gen;
use crate::heap;
use crate::model::{Act, Call, Delims, Mac};
use crate::obs::*;
use crate::rng::{hash_str, mix, Rng};
use crate::runner::*;
use crate::wrap::lib;

// ----------------------------------------------------------------------- C31

/// Judges everything an iterator offers by what repeated `next` gives.
fn contract<I, K>(c: &mut Case, what: &str, cap: usize, make: &dyn Fn() -> I, key: &dyn Fn(I::Item) -> K) -> Result<(), String>
    where I: Iterator, K: PartialEq + Debug,
{
    let mut it = make();
    let mut exp: Vec<K> = vec![];
    let mut hints = vec![it.size_hint()];
    while let Some(x) = lib(|| it.next()) {
        exp.push(key(x));
        hints.push(lib(|| it.size_hint()));
        if exp.len() > cap { return Err(format!("{what}: gives more than {cap} items")) }
    }
    for i in 0..2 {
        if let Some(x) = lib(|| it.next()) { return Err(format!("{what}: after its end, call {i} gives {:?}", key(x))) }
        hints.push(lib(|| it.size_hint()));
    }
    let n = exp.len();
    for (i, &(lo, hi)) in hints.iter().enumerate() {
        let left = n.saturating_sub(i);
        if lo > left || hi.map_or(false, |h| h < left) {
            return Err(format!("{what}: after {i} of {n} items the announced bounds of the rest are {lo} and {hi:?}, {left} are left"));
        }
    }
    c.evals(hints.len() as u64);
    c.count("size bounds judged", hints.len() as u64);
    let k = c.rng.below(n + 2);
    let step = c.rng.range(1, 4);
    let same = |c: &mut Case, m: &str, got: Vec<I::Item>, want: Vec<&K>| -> Result<(), String> {
        c.eval();
        c.count("ways of iterating judged", 1);
        let got: Vec<K> = got.into_iter().map(key).collect();
        if got.iter().collect::<Vec<_>>() == want { return Ok(()) }
        Err(format!("{what}: {m} gives {got:?}, repeated next {want:?}"))
    };
    let opt = |x: Option<I::Item>| x.into_iter().collect::<Vec<_>>();
    let rest = |it: I| -> Vec<I::Item> { let mut it = it; let mut v = vec![]; while let Some(x) = it.next() { v.push(x); if v.len() > cap { break } } v };
    {
        let mut it = make();
        same(c, &format!("nth({k})"), opt(lib(|| it.nth(k))), exp.get(k).into_iter().collect())?;
        same(c, &format!("next after nth({k})"), lib(|| rest(it)), exp.iter().skip(k + 1).collect())?;
    }
    {
        // Interrupted by single steps.
        let mut it = make();
        let mut got = vec![];
        let mut want = vec![];
        let mut at = 0;
        for _ in 0..4 {
            let k = c.rng.below(3);
            got.extend(opt(lib(|| it.nth(k))));
            want.extend(exp.get(at + k));
            at = (at + k + 1).min(n);
            got.extend(opt(lib(|| it.next())));
            want.extend(exp.get(at));
            at = (at + 1).min(n);
        }
        same(c, "nth and next in turn", got, want)?;
    }
    let got = lib(|| make().count());
    if got != n { return Err(format!("{what}: count() is {got}, repeated next gives {n} items")) }
    {
        let mut it = make();
        for _ in 0..k.min(n) { lib(|| it.next()); }
        let got = lib(|| it.count());
        if got != n - k.min(n) { return Err(format!("{what}: count() after {} of {n} items is {got}", k.min(n))) }
    }
    c.evals(2);
    same(c, "last()", opt(lib(|| make().last())), exp.last().into_iter().collect())?;
    same(c, "fold()", lib(|| make().fold(vec![], |mut v, x| { v.push(x); v })), exp.iter().collect())?;
    let mut v = vec![];
    lib(|| make().for_each(|x| v.push(x)));
    same(c, "for_each()", v, exp.iter().collect())?;
    same(c, "collect()", lib(|| make().collect()), exp.iter().collect())?;
    let mut v = vec![];
    lib(|| v.extend(make()));
    same(c, "extend()", v, exp.iter().collect())?;
    same(c, &format!("skip({k})"), lib(|| make().skip(k).collect()), exp.iter().skip(k).collect())?;
    same(c, &format!("step_by({step})"), lib(|| make().step_by(step).collect()), exp.iter().step_by(step).collect())?;
    {
        let mut it = make();
        same(c, &format!("by_ref().take({k})"), lib(|| it.by_ref().take(k).collect()), exp.iter().take(k).collect())?;
        same(c, &format!("the rest after by_ref().take({k})"), lib(|| it.collect()), exp.iter().skip(k).collect())?;
    }
    {
        let mut it = make();
        let mut i = 0;
        same(c, "find()", opt(lib(|| it.find(|_| { i += 1; i > k }))), exp.get(k).into_iter().collect())?;
        same(c, "the rest after find()", lib(|| rest(it)), exp.iter().skip(k + 1).collect())?;
    }
    {
        let mut it = make();
        let mut i = 0;
        let got = lib(|| it.position(|_| { i += 1; i > k }));
        if got != (k < n).then(|| k) { return Err(format!("{what}: position() of item {k} of {n} is {got:?}")) }
        same(c, "the rest after position()", lib(|| rest(it)), exp.iter().skip(k + 1).collect())?;
    }
    {
        let mut it = make();
        let mut i = 0;
        let got = lib(|| it.any(|_| { i += 1; i > k }));
        if got != (k < n) { return Err(format!("{what}: any() for item {k} of {n} is {got}")) }
        same(c, "the rest after any()", lib(|| rest(it)), exp.iter().skip(k + 1).collect())?;
        let mut it = make();
        let mut i = 0;
        let got = lib(|| it.all(|_| { i += 1; i <= k }));
        if got != (k >= n) { return Err(format!("{what}: all() for the first {k} of {n} is {got}")) }
        same(c, "the rest after all()", lib(|| rest(it)), exp.iter().skip(k + 1).collect())?;
    }
    {
        let mut it = lib(|| make().peekable());
        let mut v = vec![];
        loop {
            lib(|| { it.peek(); });
            if c.rng.chance(1, 3) { lib(|| { it.peek(); }) }
            match lib(|| it.next()) { Some(x) if v.len() <= cap => v.push(x), _ => break }
        }
        same(c, "peekable()", v, exp.iter().collect())?;
    }
    {
        let mut v = vec![];
        lib(|| make().enumerate().zip(0..).for_each(|((i, x), j)| { if i == j { v.push(x) } }));
        same(c, "enumerate().zip()", v, exp.iter().collect())?;
    }
    c.nontrivial(mix(hash_str(what), hash_str(&format!("{exp:?}{k}{step}"))));
    c.max("items of an iterator", n as u64);
    Ok(())
}

fn item_key<P: PosView>(i: SourceIterItem<P>) -> (char, usize, usize) { (i.ch, i.pos.cp(), i.pos.bp()) }

fn text_contract<TT>(c: &mut Case, t: &TT, cap: usize) -> Result<(), String>
    where TT: Text, TT::Pos: PosView, TT::Chunk: ChunkView,
{
    contract(c, "iter()", cap, &|| t.iter(), &item_key)?;
    contract(c, "chars()", cap, &|| t.chars(), &|x| x)?;
    contract(c, "iter_chunks()", cap, &|| t.iter_chunks(), &|x| (x.sv().as_ptr() as usize, x.sv().len(), x.cpv()))?;
    for (i, ch) in t.iter_chunks().take(3).enumerate() {
        contract(c, &format!("the stream of chunk {i}"), cap, &|| ch.src_strm(), &item_key)?;
    }
    // A copy of an iterator of chunks goes on from the same place.
    let n = t.iter_chunks().count();
    let k = c.rng.below(n + 1);
    let mut it = t.iter_chunks();
    for _ in 0..k { lib(|| it.next()); }
    let copy = lib(|| it.clone());
    let ptr = |x: &TT::Chunk| x as *const TT::Chunk as usize;
    let (a, b): (Vec<usize>, Vec<usize>) = lib(|| (it.map(ptr).collect(), copy.map(ptr).collect()));
    c.eval();
    if a.len() != n - k || a != b { return Err(format!("a copy of the chunk iterator made after {k} of {n} gives {} more, the original {}", b.len(), a.len())) }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Pre { Peek, Next, Accum, Done }

/// Brings two equal streams into the same state, steps one with `nth` and the
/// other with `next`, and compares everything afterwards.
fn stream_contract<S, DA>(c: &mut Case, what: &str, make: &dyn Fn() -> S, da: &mut DA) -> Result<(), String>
    where DA: DatumAllocator, S: SourceStream<DA>, DA::TT: TextConcat<DA>, <DA::TT as TextBase>::Pos: PosView, <DA::TT as Text>::Chunk: ChunkView,
{
    let pre: Vec<Pre> = (0..c.rng.below(9)).map(|_| *c.rng.pick(&[Pre::Peek, Pre::Next, Pre::Accum, Pre::Accum, Pre::Accum, Pre::Done])).collect();
    let k = c.rng.below(4);
    let how = c.rng.below(4);
    let post: Vec<Pre> = (0..c.rng.below(6)).map(|_| *c.rng.pick(&[Pre::Peek, Pre::Next, Pre::Accum, Pre::Done])).chain([Pre::Done]).collect();
    let mut seen: Vec<Vec<String>> = vec![];
    for by_next in [true, false] {
        let mut s = make();
        let mut log = vec![];
        let op = |s: &mut S, o: Pre, log: &mut Vec<String>, da: &mut DA| {
            let r = match o {
                Pre::Peek => lib(|| s.peek().map(|i| (i.ch, i.pos.cp(), i.pos.bp()))),
                Pre::Next => lib(|| s.next()).map(item_key),
                Pre::Accum => lib(|| s.next_accum(da)).ok().and_then(|x| x.map(item_key)),
                Pre::Done => {
                    let t = lib(|| s.accum_done(da)).ok().map(|t| { let t = obs_text(&t); (t.s, t.cpos) });
                    log.push(format!("{t:?}"));
                    return;
                }
            };
            log.push(format!("{r:?}"));
        };
        for &o in &pre { op(&mut s, o, &mut log, da) }
        let got: Vec<(char, usize, usize)> = match (how, by_next) {
            (0, true) => { let mut last = None; for _ in 0..=k { last = lib(|| s.next()); if last.is_none() { break } } last.into_iter().map(item_key).collect() }
            (0, false) => lib(|| s.nth(k)).into_iter().map(item_key).collect(),
            (1, true) => { let mut v = vec![]; for _ in 0..k { match lib(|| s.next()) { Some(x) => v.push(item_key(x)), None => break } } v }
            (1, false) => lib(|| s.by_ref().take(k).collect::<Vec<_>>()).into_iter().map(item_key).collect(),
            (2, true) => { let mut v = vec![]; for _ in 0..=k { match lib(|| s.next()) { Some(x) => v.push(item_key(x)), None => break } } v }
            (2, false) => { let mut i = 0; let mut v = vec![]; lib(|| s.any(|x| { v.push(x); i += 1; i > k })); v.into_iter().map(item_key).collect() }
            (_, true) => { let mut v = vec![]; while let Some(x) = lib(|| s.next()) { v.push(item_key(x)) } v }
            (_, false) => { let mut v = vec![]; lib(|| s.by_ref().for_each(|x| v.push(x))); v.into_iter().map(item_key).collect() }
        };
        log.push(format!("{got:?}"));
        for &o in &post { op(&mut s, o, &mut log, da) }
        seen.push(log);
    }
    c.evals(post.len() as u64 + 1);
    c.count("streams stepped in another way in mid-use", 1);
    if let Some(i) = (0..seen[0].len()).find(|&i| seen[0][i] != seen[1][i]) {
        let m = ["nth", "by_ref().take", "any", "for_each"][how];
        return Err(format!("{what}: after {pre:?}, {m} ({k}) and {:?}, result {i} is {}, with next it is {}", post, seen[1][i], seen[0][i]));
    }
    c.nontrivial(mix(hash_str(what), hash_str(&format!("{pre:?}{k}{how}{post:?}{:?}", seen[0]))));
    Ok(())
}

fn strish_streams<S: Storage>(c: &mut Case, s: &str, sp: &[usize]) -> Result<(), String> {
    let st = char_starts(s);
    let n = st.len();
    let strs: Vec<S> = mk_chunks::<PosStrish<S>>(s, &st, sp).iter().map(|x| S::from_str(x.sv())).collect();
    let mut da = NoNodes::<TextVec<PosStrish<S>>>::default();
    let chars = || CharIterSourceStream::new(s.chars(), S::conv());
    let bits = || StrishIterSourceStream::<_, TextVec<PosStrish<S>>>::new(strs.clone());
    contract(c, "the stream of a character iterator", n, &chars, &item_key)?;
    contract(c, "the stream of a string iterator", n, &bits, &item_key)?;
    stream_contract(c, "the stream of a character iterator", &chars, &mut da)?;
    stream_contract(c, "the stream of a string iterator", &bits, &mut da)?;
    let t = TextVec::assemble(mk_chunks::<PosStrish<S>>(s, &st, sp), &mut da);
    stream_contract(c, "the stream of a text", &|| t.iter(), &mut da)
}

fn c31_case(c: &mut Case, s: &str) -> Result<(), String> {
    let r = recipe(&mut c.rng, s);
    let k = c.rng.below(10);
    c.describe(format!("{s:?} as text type {k} of {r:?}"));
    c.sample(|| format!("iterators over {s:?}, text type {k}"));
    let cap = 2 * (r.src.chars().count() + r.cuts.len() + r.take.len()) + 16;
    with_text!(k, r, |t| text_contract(c, &t, cap)?);
    let n = s.chars().count();
    let sp = gen::splits(&mut c.rng, n);
    c.describe(format!("{s:?} split at {sp:?}, storage type {}", c.idx % 6));
    match c.idx % 6 {
        0 => strish_streams::<Rc<String>>(c, s, &sp)?,
        1 => strish_streams::<Arc<str>>(c, s, &sp)?,
        2 => strish_streams::<Rc<Box<str>>>(c, s, &sp)?,
        3 => strish_streams::<Arc<String>>(c, s, &sp)?,
        4 => strish_streams::<Rc<str>>(c, s, &sp)?,
        _ => strish_streams::<Arc<Box<str>>>(c, s, &sp)?,
    }
    let st = char_starts(s);
    let mut da = NoNodes::<TextVec<PosStr>>::default();
    let t = TextVec::assemble(mk_chunks::<PosStr>(s, &st, &sp), &mut da);
    stream_contract(c, "the stream of a text of borrowed strings", &|| t.iter(), &mut da)?;
    let mut store = slots::<TextDatumList<PosStr, i64>>(8 * (n + sp.len()) + 256);
    let mut da = SliceDatumAllocator::new(&mut store[..]);
    let t = TextDatumList::assemble(mk_chunks::<PosStr>(s, &st, &sp), &mut da);
    stream_contract(c, "the stream of a linked text", &|| t.iter(), &mut da)
}

fn parser_of<DA: DatumAllocator>(da: DA) -> Parser<DefaultCharClassifier, DA, EmptyOperatorBindings> {
    Parser { classifier: DefaultCharClassifier, allocator: da, bindings: EmptyOperatorBindings }
}

/// A result of a parse, with the positions of its characters but not the
/// addresses of its chunks, which differ where strings are made.
struct Got(Item);
impl Got {
    fn positions(&self) -> Vec<&[usize]> {
        let mut v = vec![];
        if let Item::Ok(t) = &self.0 { t.texts(&mut |x| v.push(&x.cpos[..])) }
        v
    }
}
impl PartialEq for Got { fn eq(&self, o: &Got) -> bool { self.0.same_with_err_pos(&o.0) && self.positions() == o.positions() } }
impl Debug for Got { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0.brief()) } }

fn c31_parse(c: &mut Case, s: &str) -> Result<(), String> {
    let n = s.chars().count();
    let sp = gen::splits(&mut c.rng, n);
    let st = char_starts(s);
    c.describe(format!("parsing {s:?} split at {sp:?}, types {}", c.idx % 3));
    c.sample(|| format!("iterating the forms of {s:?}"));
    let key = |i: Item| Got(i);
    match c.idx % 3 {
        0 => {
            let mut da = NoNodes::<TextVec<PosStr>>::default();
            let t = TextVec::assemble(mk_chunks::<PosStr>(s, &st, &sp), &mut da);
            contract(c, "the forms of a text", n + 8, &|| Forms::new(parser_of(NoNodes::<TextVec<PosStr>>::default()), |p| p.parse(t.iter())), &|r| key(obs_result(&r)))
        }
        1 => contract(c, "the forms of a character stream", n + 8,
            &|| Forms::new(parser_of(RcDatumAllocator::<TextVec<PosStrish<Rc<str>>>, i64>::default()), |p| p.parse(CharIterSourceStream::new(s.chars(), <Rc<str> as Storage>::conv()))), &|r| key(obs_result(&r))),
        _ => {
            let strs: Vec<Arc<String>> = mk_chunks::<PosStrish<Arc<String>>>(s, &st, &sp).iter().map(|x| Arc::new(x.sv().to_string())).collect();
            contract(c, "the forms of a string stream", n + 8,
                &|| Forms::new(parser_of(ArcDatumAllocator::<TextVec<PosStrish<Arc<String>>>, i64>::default()), |p| p.parse(StrishIterSourceStream::new(strs.clone()))), &|r| key(obs_result(&r)))
        }
    }
}

/// An iterator of the forms together with its parser.  Every method goes to
/// the library's own iterator.
struct Forms<P, I> { it: Option<I>, parser: *mut P }
impl<P, I: Iterator> Forms<P, I> {
    fn new<'p>(p: P, f: impl FnOnce(&'p mut P) -> I) -> Self where P: 'p {
        let parser = Box::into_raw(Box::new(p));
        // SAFETY: freed after the iterator, in `drop`, and used by nothing else.
        Forms { it: Some(f(unsafe { &mut *parser })), parser }
    }
    fn get(&mut self) -> &mut I { self.it.as_mut().unwrap() }
}
impl<P, I> Drop for Forms<P, I> {
    fn drop(&mut self) { self.it = None; drop(unsafe { Box::from_raw(self.parser) }) }
}
impl<P, I: Iterator> Iterator for Forms<P, I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.get().next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.it.as_ref().unwrap().size_hint() }
    fn nth(&mut self, n: usize) -> Option<I::Item> { self.get().nth(n) }
    fn count(mut self) -> usize { self.it.take().unwrap().count() }
    fn last(mut self) -> Option<I::Item> { self.it.take().unwrap().last() }
    fn fold<B, F: FnMut(B, I::Item) -> B>(mut self, b: B, f: F) -> B { self.it.take().unwrap().fold(b, f) }
    fn for_each<F: FnMut(I::Item)>(mut self, f: F) { self.it.take().unwrap().for_each(f) }
    fn find<F: FnMut(&I::Item) -> bool>(&mut self, f: F) -> Option<I::Item> { self.get().find(f) }
    fn position<F: FnMut(I::Item) -> bool>(&mut self, f: F) -> Option<usize> { self.get().position(f) }
    fn any<F: FnMut(I::Item) -> bool>(&mut self, f: F) -> bool { self.get().any(f) }
    fn all<F: FnMut(I::Item) -> bool>(&mut self, f: F) -> bool { self.get().all(f) }
}

pub fn c31(ctx: &mut Ctx) {
    ctx.rule = "iterators over texts of ten types (characters with positions, characters, chunks, single chunks), the stream types over character and string iterators with six storage types, and the iterators of parsed forms: the announced size bounds before and after every item, nth, count, last, fold, for_each, collect, extend, skip, step_by, by_ref().take, find, position, any, all, peekable, enumerate and zip compared with repeated next, and after the streams were left in any state by peeks, steps and accumulation, all later results and accumulated texts compared with a stream stepped by next; an evaluation is one such comparison; non-trivial: distinct by iterator, items and arguments".into();
    ctx.stage("iterators", ctx.pick(120_000, 900_000), |c| {
        let n = c.rng.size(18);
        let s: String = (0..n).map(|_| gen::any_char(&mut c.rng)).collect();
        c31_case(c, &s)
    });
    ctx.stage("forms", ctx.pick(60_000, 500_000), |c| {
        let d = Delims::default_set();
        let s = if c.rng.chance(1, 2) { gen::soup(&mut c.rng, &d, 24) } else { gen::structured(&mut c.rng, &d, &[], 24) };
        c31_parse(c, &s)
    });
    ctx.stage("long", ctx.pick(240, 2400), |c| {
        let n = c.rng.range(300, 3000);
        let s: String = (0..n).map(|i| if i % 7 == 0 { '𝝰' } else if i % 5 == 0 { '{' } else { 'x' }).collect();
        c31_case(c, &s)?;
        let s: String = (0..n).map(|i| ["a", "{}", "{b c}", "}", "\\{"][i % 5]).collect();
        c31_parse(c, &s)
    });
}

// ----------------------------------------------------------------------- C32

/// A source that is looked at before everything that is done with it.
struct Looked<S> { inner: S, rng: Rng, looks: Rc<std::cell::Cell<u64>> }

impl<S> Looked<S> {
    fn look<DA>(&mut self) -> Option<(char, usize, usize)>
        where DA: DatumAllocator, S: SourceStream<DA> + Debug, <DA::TT as TextBase>::Pos: PosView,
    {
        let n = self.rng.below(3);
        let mut seen = None;
        for i in 0..n {
            if self.rng.chance(1, 12) { lib(|| drop(format!("{:?}", self.inner))) }
            let x = lib(|| self.inner.peek().map(|i| (i.ch, i.pos.cp(), i.pos.bp())));
            if i > 0 && seen != Some(x) { violate(format!("looking ahead again gives {x:?}, before it gave {seen:?}")) }
            seen = Some(x);
        }
        if self.rng.chance(1, 40) { lib(|| drop(format!("{:#?}", self.inner))) }
        self.looks.set(self.looks.get() + n as u64 + 1);
        seen.flatten()
    }
    fn check<P: PosView>(seen: Option<(char, usize, usize)>, got: Option<&SourceIterItem<P>>) {
        let got = got.map(|i| (i.ch, i.pos.cp(), i.pos.bp()));
        if seen.is_some() && seen != got { violate(format!("looking ahead gave {seen:?}, the next step {got:?}")) }
    }
}
/// The allocator type is part of the type so that `next` can look ahead too.
struct LookedFor<S, DA>(Looked<S>, std::marker::PhantomData<DA>);
impl<S, DA> Iterator for LookedFor<S, DA>
    where DA: DatumAllocator, S: SourceStream<DA> + Debug, <DA::TT as TextBase>::Pos: PosView,
{
    type Item = SourceIterItem<<DA::TT as TextBase>::Pos>;
    fn next(&mut self) -> Option<Self::Item> {
        let seen = self.0.look();
        let r = self.0.inner.next();
        Looked::<S>::check(seen, r.as_ref());
        r
    }
}
impl<S, DA> SourceStream<DA> for LookedFor<S, DA>
    where DA: DatumAllocator, S: SourceStream<DA> + Debug, <DA::TT as TextBase>::Pos: PosView,
{
    fn peek(&mut self) -> Option<&Self::Item> {
        self.0.look();
        self.0.inner.peek()
    }
    fn next_accum(&mut self, da: &mut DA) -> Result<Option<Self::Item>, AllocError> {
        let seen = self.0.look();
        let r = self.0.inner.next_accum(da);
        if let Ok(r) = &r { Looked::<S>::check(seen, r.as_ref()) }
        r
    }
    fn accum_done(&mut self, da: &mut DA) -> Result<DA::TT, AllocError> {
        self.0.look();
        self.0.inner.accum_done(da)
    }
}

/// Looks at a tree in every way that does not need to change it.
fn look_at<DA>(rng: &mut Rng, d: &DD<DA>) -> u64
    where DA: DatumAllocator<ET = i64>, DA::TT: Debug + Hash + Eq, DA::DR: Debug + Hash + Eq,
          <DA::TT as TextBase>::Pos: PosView + Debug, <DA::TT as Text>::Chunk: ChunkView,
{
    let mut n = 0;
    let whole = lib(|| (format!("{d:?}"), format!("{d:#?}")));
    if lib(|| (format!("{d:?}"), format!("{d:#?}"))) != whole { violate("formatting the same tree twice gives different strings".into()) }
    if !lib(|| d == d) { violate("a tree is not equal to itself".into()) }
    let h = |d: &DD<DA>| { let mut h = DefaultHasher::new(); d.hash(&mut h); h.finish() };
    if lib(|| h(d)) != lib(|| h(d)) { violate("hashing the same tree twice gives different hashes".into()) }
    let mut todo = vec![d];
    while let Some(d) = todo.pop() {
        n += 1;
        match d {
            Datum::Text(t) => {
                let k = rng.below(6);
                lib(|| {
                    for x in t.iter().take(k) { drop(format!("{:?}", x.pos)) }
                    drop(format!("{:?}", t.iter()));
                    t.chars().take(k).for_each(drop);
                    t.iter_chunks().take(k).for_each(|c| { c.src_strm().take(k).for_each(drop); c.is_empty(); });
                    let mut h = DefaultHasher::new();
                    Text::hash(t, &mut h);
                });
                if !lib(|| Text::eq(t, t) && Text::cmp(t, t).is_eq() && t == t && t.is_empty() == t.chars().next().is_none()) {
                    violate("a text is not equal to itself, or its emptiness does not fit its characters".into())
                }
            }
            Datum::Combination { operator, operands } => { todo.push(operator); todo.push(operands) }
            Datum::List { elem, next } => { todo.push(elem); todo.push(next) }
            _ => {}
        }
    }
    n
}

/// Is every node of the tree still held by its one reference?
fn all_unique<DA: DatumAllocator>(d: &mut DD<DA>) -> bool {
    let mut todo = vec![d];
    while let Some(d) = todo.pop() {
        match d {
            Datum::Combination { operator, operands } => match (DerefTryMut::get_mut(operator), DerefTryMut::get_mut(operands)) {
                (Some(a), Some(b)) => { todo.push(a); todo.push(b) }
                _ => return false,
            },
            Datum::List { elem, next } => match (DerefTryMut::get_mut(elem), DerefTryMut::get_mut(next)) {
                (Some(a), Some(b)) => { todo.push(a); todo.push(b) }
                _ => return false,
            },
            _ => {}
        }
    }
    true
}

/// Parses twice, from equal sources, undisturbed and looked at, and compares.
fn looked<DA, S>(c: &mut Case, what: &str, n: usize, srcs: [S; 2], da0: DA, da1: DA, copy: &dyn Fn(&DD<DA>) -> Option<DD<DA>>) -> Result<(), String>
    where DA: DatumAllocator<ET = i64> + Debug, S: SourceStream<DA> + Debug,
          DA::TT: TextConcat<DA> + Debug + Hash + Eq, DA::DR: Debug + Hash + Eq,
          <DA::TT as TextBase>::Pos: PosView + Debug, <DA::TT as Text>::Chunk: ChunkView,
{
    let cap = n + 8;
    let [s0, s1] = srcs;
    let mut p = parser_of(da0);
    let want: Vec<Item> = lib(|| p.parse(s0).take(cap).map(|r| obs_result(&r)).collect());
    let looks = Rc::new(std::cell::Cell::new(0));
    let mut p = parser_of(da1);
    let mut kept = vec![];
    let mut rng = c.rng.clone();
    let mut first: Vec<Item> = vec![];
    {
        let mut it = p.parse(LookedFor(Looked { inner: s1, rng: Rng::new(c.rng.next()), looks: looks.clone() }, std::marker::PhantomData));
        while let Some(r) = lib(|| it.next()) {
            first.push(obs_result(&r));
            kept.push(r);
            for r in &kept {
                if rng.chance(1, 6) { lib(|| drop(format!("{r:?}"))) }
                if let Ok(d) = r { if rng.chance(1, 6) { look_at::<DA>(&mut rng, d); } }
            }
            if kept.len() > cap { break }
        }
    }
    lib(|| drop(format!("{p:?}")));
    if let Some(m) = crate::props::parse::diff(&want, &first) { return Err(format!("{what}: looked at, {m}")) }
    if want.iter().zip(&first).any(|(a, b)| positions(a) != positions(b)) { return Err(format!("{what}: looked at, the positions differ")) }
    let mut nodes = 0;
    for (i, r) in kept.iter_mut().enumerate() {
        let again = format!("{:?}", obs_result(r));
        if again != format!("{:?}", first[i]) { return Err(format!("{what}: item {i} was {} and is {} after it was looked at", first[i].brief(), obs_result(r).brief())) }
        if let Ok(d) = r {
            nodes += look_at::<DA>(&mut rng, d);
            if let Some(mut x) = lib(|| copy(d)) {
                if !lib(|| x == *d) { return Err(format!("{what}: a copy of item {i} is not equal to it")) }
                nodes += look_at::<DA>(&mut rng, &x);
                let same = format!("{:?}", obs_datum(&x));
                if same != format!("{:?}", obs_datum(d)) { return Err(format!("{what}: a copy of item {i} is {}, the item {}", obs_datum(&x).brief(), obs_datum(d).brief())) }
                // Changing the copy's root leaves the original.
                lib(|| x = Datum::Extra(1));
                drop(x);
            }
            if format!("{:?}", obs_result(r)) != again { return Err(format!("{what}: item {i} has changed by being looked at and copied")) }
        }
        if let Ok(d) = r { if !all_unique::<DA>(d) { return Err(format!("{what}: item {i} can no longer be modified after it was looked at and the copies dropped")) } }
    }
    c.evals(2 + want.len() as u64);
    c.count("looks at streams", looks.get());
    c.count("looks at nodes", nodes);
    c.count("items compared", want.len() as u64);
    Ok(())
}

fn positions(i: &Item) -> Vec<Vec<usize>> {
    let mut v = vec![];
    if let Item::Ok(t) = i { t.texts(&mut |x| v.push(x.cpos.clone())) }
    v
}

fn some<X: Clone>(x: &X) -> Option<X> { Some(x.clone()) }
fn none<X>(_: &X) -> Option<X> { None }

fn looked_strish<S: Storage + Debug>(c: &mut Case, s: &str, sp: &[usize], kind: usize) -> Result<(), String> {
    let st = char_starts(s);
    let n = st.len() - 1;
    let chunks = || mk_chunks::<PosStrish<S>>(s, &st, sp);
    let strs = || -> Vec<S> { chunks().iter().map(|x| S::from_str(x.sv())).collect() };
    let chars = || CharIterSourceStream::new(s.chars(), S::conv());
    let room = 8 * (n + sp.len()) + 64;
    type V<S> = TextVec<PosStrish<S>>;
    match kind {
        0 => looked(c, "character iterator, exclusive references", n, [chars(), chars()], BoxDatumAllocator::<V<S>, i64>::default(), Default::default(), &some),
        1 => looked(c, "character iterator, counted references", n, [chars(), chars()], RcDatumAllocator::<V<S>, i64>::default(), Default::default(), &some),
        2 => looked(c, "string iterator, atomically counted references", n, [StrishIterSourceStream::new(strs()), StrishIterSourceStream::new(strs())], ArcDatumAllocator::<V<S>, i64>::default(), Default::default(), &some),
        3 => looked(c, "string iterator, exclusive references", n, [StrishIterSourceStream::new(strs()), StrishIterSourceStream::new(strs())], BoxDatumAllocator::<V<S>, i64>::default(), Default::default(), &some),
        4 => {
            let t = V::<S>::assemble(chunks(), &mut NoNodes::<V<S>>::default());
            looked(c, "text, counted references", n, [t.iter(), t.iter()], RcDatumAllocator::<V<S>, i64>::default(), Default::default(), &some)?;
            if obs_text(&t).s != s { return Err("the text that was parsed has changed".into()) }
            let u = lib(|| t.clone());
            lib(|| drop(format!("{t:?}{t:#?}")));
            let (a, b) = (format!("{:?}", obs_text(&t)), format!("{:?}", obs_text(&u)));
            if a != b { return Err(format!("a copy of the text is {b}, the text {a}")) }
            Ok(())
        }
        _ => {
            type L<'d, S> = TextDatumList<'d, PosStrish<S>, i64>;
            let (mut a, mut b) = (slots::<L<S>>(room), slots::<L<S>>(room));
            looked(c, "string iterator, linked texts in a slice", n, [StrishIterSourceStream::new(strs()), StrishIterSourceStream::new(strs())], SliceDatumAllocator::new(&mut a[..]), SliceDatumAllocator::new(&mut b[..]), &none)
        }
    }
}

fn c32_case(c: &mut Case, s: &str) -> Result<(), String> {
    let n = s.chars().count();
    let sp = gen::splits(&mut c.rng, n);
    let kind = c.rng.below(9);
    c.describe(format!("input {s:?} split at {sp:?}, kind {kind}, storage {}", c.idx % 6));
    c.nontrivial(mix(hash_str(s), mix(hash_str(&format!("{sp:?}")), kind as u64 * 6 + c.idx % 6)));
    c.sample(|| format!("{s:?} split at {sp:?}, kind {kind}, parsed undisturbed and looked at all the time"));
    let st = char_starts(s);
    match kind {
        0 | 1 => {
            let t = TextVec::assemble(mk_chunks::<PosStr>(s, &st, &sp), &mut NoNodes::<TextVec<PosStr>>::default());
            if kind == 0 { looked(c, "text of borrowed strings, exclusive references", n, [t.iter(), t.iter()], BoxDatumAllocator::default(), Default::default(), &some) }
            else { looked(c, "text of borrowed strings, atomically counted references", n, [t.iter(), t.iter()], ArcDatumAllocator::default(), Default::default(), &some) }
        }
        2 => {
            let (mut a, mut b, mut p) = (slots(8 * (n + sp.len()) + 64), slots(8 * (n + sp.len()) + 64), slots(sp.len() + 8));
            let t: TextDatumList<PosStr, i64> = TextDatumList::assemble(mk_chunks(s, &st, &sp), &mut SliceDatumAllocator::new(&mut p[..]));
            looked(c, "linked text of borrowed strings in a slice", n, [t.iter(), t.iter()], SliceDatumAllocator::new(&mut a[..]), SliceDatumAllocator::new(&mut b[..]), &none)
        }
        k => match c.idx % 6 {
            0 => looked_strish::<Rc<String>>(c, s, &sp, k - 3),
            1 => looked_strish::<Arc<str>>(c, s, &sp, k - 3),
            2 => looked_strish::<Rc<Box<str>>>(c, s, &sp, k - 3),
            3 => looked_strish::<Arc<String>>(c, s, &sp, k - 3),
            4 => looked_strish::<Rc<str>>(c, s, &sp, k - 3),
            _ => looked_strish::<Arc<Box<str>>>(c, s, &sp, k - 3),
        },
    }
}

pub fn c32(ctx: &mut Ctx) {
    ctx.rule = "inputs parsed twice, once undisturbed and once from a source that is looked ahead into up to twice and formatted for debugging at random before everything the parser does with it, while all results so far are formatted, compared, hashed and partly iterated after every step; then every result is looked at and copied again, its structure, positions and chunk addresses compared with those it was delivered with, and every node tried for modification; an evaluation is one run compared with the undisturbed one, or one result compared with its state at delivery; non-trivial: distinct by input, chunking and types".into();
    let d = Delims::default_set();
    ctx.stage("all-small", ctx.pick(gen::count_strings(6, 5), gen::count_strings(6, 7)), |c| {
        let s = gen::nth_string(c.idx, &['{', '}', '\\', ' ', 'a', '𝝰']);
        c32_case(c, &s)
    });
    ctx.stage("random", ctx.pick(80_000, 1_000_000), |c| {
        let s = match c.rng.below(3) { 0 => gen::soup(&mut c.rng, &d, 30), 1 => gen::input(&mut c.rng, &d, &[], 30), _ => gen::structured(&mut c.rng, &d, &[], 20) };
        c32_case(c, &s)
    });
}

// ----------------------------------------------------------------------- C33

#[repr(C)]
struct Timespec { sec: i64, nsec: i64 }
extern "C" { fn clock_gettime(clock: i32, t: *mut Timespec) -> i32; }

/// Processor time of this thread, in nanoseconds.
fn cpu() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    const THREAD: i32 = 3;
    if unsafe { clock_gettime(THREAD, &mut t) } != 0 { panic!("harness: no processor clock") }
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

/// How many times more of anything than the input is longer is still linear.
const GROWTH: u64 = 4;
/// The same for times.
const SHARE: u64 = 6;

/// An input of any length, nested as deep as it is long or flat.
fn grown(rng: &mut Rng) -> (String, Box<dyn Fn(usize) -> (String, Vec<usize>, Vec<Mac>)>, BindKind) {
    if rng.chance(2, 3) {
        let f: Family = family(rng);
        let b = f.bind;
        return (format!("{f:?}"), Box::new(move |n| f.make(n)), b);
    }
    let open = *rng.pick(&["{", "{a ", "{a{}b", "{ \\{ ", "{m ", "{re ", "{ \n", "{{b}"]);
    let mid = *rng.pick(&["", "x", "{}", "}"]);
    let close = *rng.pick(&["}", " }", "c}", "", "} x"]);
    let every = *rng.pick(&[0usize, 0, 1, 3, 7]);
    let b = *rng.pick(&[BindKind::Empty, BindKind::Pairs, BindKind::Map(HashMode::Fnv)]);
    let macs = vec![Mac { key: T::text("m"), raw: rng.chance(1, 4), act: Act::Operands }, Mac { key: T::text("re"), raw: false, act: Act::Rebuild }];
    (format!("{open:?} n times, {mid:?}, {close:?} n times, split every {every}, {macs:?}"), Box::new(move |n| {
        let s = format!("{}{mid}{}", open.repeat(n), close.repeat(n));
        let len = s.chars().count();
        let sp = if every == 0 { vec![] } else { (1..len).filter(|i| i % every == 0).collect() };
        (s, sp, macs.clone())
    }), b)
}

fn count_case(c: &mut Case, cfgs: &[Cfg]) -> Result<(), String> {
    let (what, make, bind) = grown(&mut c.rng);
    let cfg = cfgs[c.rng.below(cfgs.len())];
    let small = c.rng.range(24, 40);
    let times = if c.tier == Tier::Quick { 12 } else { 24 };
    let nested = what.contains("n times");
    c.describe(format!("{} with {what}, {small} and {} times", cfg.name(), small * times));
    let d = Delims::default_set();
    let mut cost = [[0u64; 5]; 2];
    let mut len = [0u64; 2];
    for (i, n) in [small, small * times].into_iter().enumerate() {
        let (src, sp, macs) = make(n);
        let mut job = Job::plain(&src, &sp, &d);
        job.bind = bind;
        job.macs = if bind == BindKind::Empty { &[] } else { &macs };
        job.seed = c.idx;
        let run = run_cfg(cfg, &job);
        len[i] = src.len() as u64 + sp.len() as u64;
        // What the macros themselves note is not the parser's work: nested
        // macros are given the whole rest each.
        let noted = nested && !run.calls.is_empty();
        cost[i] = [run.asked, run.allocs as u64, if noted { 0 } else { run.heap_calls }, if noted { 0 } else { run.heap_bytes }, run.reads_at.last().copied().unwrap_or(0) as u64];
    }
    let names = ["questions to the classifier", "nodes requested", "heap requests", "bytes of heap requested", "pieces of the source requested"];
    c.nontrivial(mix(hash_str(&what), mix(hash_str(&cfg.name()), small as u64)));
    c.sample(|| format!("{} with {what}: {} and {} long: {names:?} {cost:?}", cfg.name(), len[0], len[1]));
    for (k, name) in names.iter().enumerate() {
        c.eval();
        c.max(name, cost[1][k]);
        // Per unit of input, and a constant part that may only show once.
        let most = GROWTH * (cost[0][k] + 64 * if k == 3 { 64 } else { 1 }) * len[1] / len[0];
        if cost[1][k] > most {
            return Err(format!("an input of {} takes {} {name}, one of {} of the same kind takes {}", len[1], cost[1][k], len[0], cost[0][k]));
        }
    }
    Ok(())
}

/// Something whose time is measured, for an input of size `n`: the parts'
/// names and processor times.
type Timed = Box<dyn Fn(usize) -> Vec<(&'static str, u64)>>;

fn timed<R>(v: &mut Vec<(&'static str, u64)>, name: &'static str, f: impl FnOnce() -> R) -> R {
    let t = cpu();
    let r = lib(f);
    v.push((name, cpu() - t));
    r
}

/// Parses, compares, hashes and drops, each timed.
fn timed_trees<DA, OB, S>(mut p: Parser<DefaultCharClassifier, DA, OB>, mut srcs: impl FnMut() -> S) -> Vec<(&'static str, u64)>
    where DA: DatumAllocator<ET = i64>, OB: OperatorBindings<DA>, S: SourceStream<DA>, DA::TT: TextConcat<DA> + Hash + PartialEq, DA::DR: Hash,
{
    let mut v = vec![];
    let (s0, s1) = (srcs(), srcs());
    let a: Vec<_> = timed(&mut v, "parsing", || p.parse(s0).filter_map(Result::ok).collect());
    let b: Vec<_> = p.parse(s1).filter_map(Result::ok).collect();
    timed(&mut v, "comparing trees", || std::hint::black_box(a == b));
    timed(&mut v, "hashing trees", || { let mut h = DefaultHasher::new(); for d in &a { d.hash(&mut h) } std::hint::black_box(h.finish()) });
    timed(&mut v, "dropping trees", || drop(a));
    v
}

fn timed_texts<TT: Text + Hash>(mk: impl Fn() -> TT, n: usize) -> Vec<(&'static str, u64)> {
    let mut v = vec![];
    let (a, b) = (mk(), mk());
    timed(&mut v, "comparing texts", || std::hint::black_box(Text::eq(&a, &b)));
    timed(&mut v, "ordering texts", || std::hint::black_box(Text::cmp(&a, &b)));
    timed(&mut v, "hashing texts", || { let mut h = DefaultHasher::new(); Text::hash(&a, &mut h); std::hint::black_box(h.finish()) });
    timed(&mut v, "iterating texts", || std::hint::black_box(a.iter().map(|i| i.ch as u64).sum::<u64>()));
    let mut buf = vec![0; 4 * n + 64];
    timed(&mut v, "encoding texts", || std::hint::black_box(a.encode_utf8(&mut buf).is_ok()));
    timed(&mut v, "dropping texts", || drop(a));
    v
}

fn timed_plan(rng: &mut Rng) -> (String, Timed) {
    let unit: &'static str = rng.pick(&["a", "a{}", "{a b}", "{a {b c}d}", "\\a", " ", "{x \\}y}", "𝝰", "}", "{ }", "{}", "{m a}", "{{m} b}"]);
    let (before, after): (&'static str, &'static str) = *rng.pick(&[("", ""), ("{x ", "}"), ("{x {y ", "}}"), ("{", " x}"), ("{m ", "}"), ("{x ", ""), ("a}", "")]);
    let deep = rng.chance(1, 5);
    let (open, close): (&'static str, &'static str) = *rng.pick(&[("{a ", "}"), ("{a{}", "b}"), ("{a ", "")]);
    let every = *rng.pick(&[0usize, 0, 1, 2, 5]);
    let kind = rng.below(10);
    let src = move |n: usize| if deep { format!("{}{}", open.repeat(n), close.repeat(n)) } else { format!("{before}{}{after}", unit.repeat(n)) };
    let sp = move |s: &str| -> Vec<usize> { if every == 0 { vec![] } else { let n = s.chars().count(); (1..n).filter(|i| i % every == 0).collect() } };
    let how = if deep { format!("{open:?} … {close:?}") } else { format!("{before:?} {unit:?} … {after:?}") };
    type B<'k> = BoxDatumAllocator<TextVec<PosStr<'k>>, i64>;
    let f: Timed = match kind {
        0 => Box::new(move |n| { let s = src(n); let st = char_starts(&s); let t = TextVec::assemble(mk_chunks::<PosStr>(&s, &st, &sp(&s)), &mut NoNodes::<TextVec<PosStr>>::default()); timed_trees(parser_of(B::default()), || t.iter()) }),
        1 => Box::new(move |n| { let s = src(n); timed_trees(parser_of(RcDatumAllocator::<TextVec<PosStrish<Rc<String>>>, i64>::default()), || CharIterSourceStream::new(s.chars(), <Rc<String> as Storage>::conv())) }),
        2 => Box::new(move |n| { let s = src(n); timed_trees(parser_of(BoxDatumAllocator::<TextVec<PosStrish<Rc<str>>>, i64>::default()), || CharIterSourceStream::new(s.chars(), <Rc<str> as Storage>::conv())) }),
        3 => Box::new(move |n| {
            let s = src(n); let st = char_starts(&s);
            let strs: Vec<Arc<str>> = mk_chunks::<PosStrish<Arc<str>>>(&s, &st, &sp(&s)).iter().map(|x| Arc::from(x.sv())).collect();
            timed_trees(parser_of(ArcDatumAllocator::<TextVec<PosStrish<Arc<str>>>, i64>::default()), || StrishIterSourceStream::new(strs.clone()))
        }),
        4 => Box::new(move |n| {
            // Linked texts are extended from their start, so with many pieces
            // they cost more.
            let s = src(n).replace('\\', "");
            let strs = [Rc::new(s.into_boxed_str())];
            let mut store = slots::<TextDatumList<PosStrish<Rc<Box<str>>>, i64>>(16 * n + 64);
            let a = SliceDatumAllocator::new(&mut store[..]);
            timed_trees(parser_of(a), || StrishIterSourceStream::new(strs.to_vec()))
        }),
        5 | 6 => Box::new(move |n| {
            let s = src(n); let st = char_starts(&s);
            let t = TextVec::assemble(mk_chunks::<PosStr>(&s, &st, &sp(&s)), &mut NoNodes::<TextVec<PosStr>>::default());
            let log = Rc::default();
            let m = [Mac { key: T::text("m"), raw: false, act: Act::EmptyNest }];
            let binds = mk_binds::<B>(if kind == 5 { BindKind::Pairs } else { BindKind::Map(HashMode::Random) }, vec![Datum::Text(TextVec::from_str("m"))], &m, &log);
            timed_trees(Parser { classifier: DefaultCharClassifier, allocator: B::default(), bindings: binds }, || t.iter())
        }),
        7 => Box::new(move |n| { let s = src(n); let st = char_starts(&s); let sp = sp(&s); timed_texts(|| TextVec::assemble(mk_chunks::<PosStr>(&s, &st, &sp), &mut NoNodes::<TextVec<PosStr>>::default()), s.len()) }),
        8 => Box::new(move |n| {
            let s = src(n); let st = char_starts(&s); let sp = sp(&s);
            let mut store = slots::<TextDatumList<PosStr, i64>>(2 * sp.len() + 8);
            let da = std::cell::RefCell::new(SliceDatumAllocator::new(&mut store[..]));
            timed_texts(|| TextDatumList::assemble(mk_chunks::<PosStr>(&s, &st, &sp), &mut *da.borrow_mut()), s.len())
        }),
        _ => Box::new(move |n| {
            use kul::common::{inmem, stream};
            let s = src(n);
            let mut v = vec![];
            let a = timed(&mut v, "parse_str", || inmem::parse_str(&s));
            timed(&mut v, "dropping what parse_str gave", || drop(a));
            let strs: Vec<String> = s.split_inclusive('a').map(Into::into).collect();
            let a = timed(&mut v, "parse_stream", || stream::parse_stream(strs.into_iter()));
            timed(&mut v, "dropping what parse_stream gave", || drop(a));
            v
        }),
    };
    (format!("kind {kind}, {how}, split every {every}"), f)
}

fn time_case(c: &mut Case) -> Result<(), String> {
    let (what, f) = timed_plan(&mut c.rng);
    let n = c.rng.range(400, 600);
    c.describe(format!("{what}, from {n} repetitions on"));
    c.nontrivial(mix(hash_str(&what), n as u64));
    let fastest = |n: usize, tries: usize| -> Vec<(&'static str, u64)> {
        let mut best = f(n);
        for _ in 1..tries { for (b, t) in best.iter_mut().zip(f(n)) { b.1 = b.1.min(t.1) } }
        best
    };
    let mut small = fastest(n, 5);
    let mut line = String::new();
    for times in [8usize, 32, 128] {
        let mut attempt = 1;
        let mut slow = false;
        loop {
            let big = fastest(n * times, if slow { 1 } else { attempt });
            slow = big.iter().any(|b| b.1 > 500_000_000);
            let over: Vec<_> = small.iter().zip(&big).filter(|(s, b)| b.1 > 30_000_000 && b.1 > SHARE * times as u64 * s.1.max(2_000)).map(|(s, b)| (s.0, s.1, b.1)).collect();
            if attempt == 1 { c.evals(big.len() as u64); for (m, t) in &big { c.max(&format!("microseconds for {m}"), t / 1000); line.push_str(&format!(" {m} {}us", t / 1000)) } }
            let Some(&(m, s, b)) = over.first() else { break };
            // The machine may have been busy: only what shows every time counts.
            if attempt == 4 {
                return Err(format!("{m} takes {} microseconds of processor time for {n} repetitions and {} for {}", s / 1000, b / 1000, n * times));
            }
            attempt += 1;
            for (s, t) in small.iter_mut().zip(fastest(n, 5)) { s.1 = s.1.max(t.1) }
        }
        if slow { break }
    }
    c.sample(|| format!("{what}, {n} repetitions {small:?} ns, 8, 32 and 128 times as many:{line}"));
    Ok(())
}

pub fn c33(ctx: &mut Ctx) {
    ctx.rule = "families of inputs of any length (a part repeated at the top level or inside operands, heads and raw operands, or nested as deep as long) parsed at two lengths over all type configurations, counting questions to the classifier, node requests, heap requests and bytes, and pieces of the source requested; and the processor time of parsing, comparing, hashing, ordering, iterating, encoding and dropping at up to four lengths; an evaluation is one such amount compared between two lengths; non-trivial: distinct by family, length and types".into();
    ctx.assumptions.push(format!("an amount is taken to be more than linear when it exceeds {GROWTH} times its share, a time when it exceeds {SHARE} times its share in each of four attempts"));
    let cfgs = all_cfgs();
    ctx.stage("amounts", ctx.pick(12_000, 60_000), |c| count_case(c, &cfgs));
    ctx.stage_on("times", ctx.pick(500, 4_000), 4, time_case);
}

// ----------------------------------------------------------------------- C34

/// A storage type of which one can see, without holding it, whether anybody
/// still does.
trait Watch: Storage {
    fn watch(&self) -> Box<dyn Fn() -> bool>;
}
macro_rules! watched {
    ($($p:ident $t:ty),*) => { $(impl Watch for $p<$t> {
        fn watch(&self) -> Box<dyn Fn() -> bool> {
            let w = $p::downgrade(self);
            Box::new(move || w.strong_count() > 0)
        }
    })* };
}
watched!(Rc String, Rc Box<str>, Rc str, Arc String, Arc Box<str>, Arc str);

/// The pieces that were handed out, and which of them were still held when
/// more was asked for.
#[derive(Default)]
struct Handed {
    held: RefCell<Vec<Box<dyn Fn() -> bool>>>,
    at_request: RefCell<Vec<(usize, Vec<usize>)>>,
}
impl Handed {
    fn now(&self) -> Vec<usize> {
        self.held.borrow().iter().enumerate().filter(|(_, h)| h()).map(|(i, _)| i).collect()
    }
}

/// Makes each piece when it is asked for.
struct Making<'s, R> { src: &'s str, ends: &'s [usize], at: usize, log: Option<Rc<Handed>>, conv: fn(String) -> R, watch: fn(&R) -> Box<dyn Fn() -> bool> }
impl<R> Iterator for Making<'_, R> {
    type Item = R;
    fn next(&mut self) -> Option<R> {
        if let Some(l) = &self.log {
            let now = l.now();
            l.at_request.borrow_mut().push((l.held.borrow().len(), now));
        }
        let end = *self.ends.get(self.at)?;
        let start = if self.at == 0 { 0 } else { self.ends[self.at - 1] };
        self.at += 1;
        let r = (self.conv)(self.src[start..end].to_string());
        if let Some(l) = &self.log { l.held.borrow_mut().push((self.watch)(&r)) }
        Some(r)
    }
}

/// Byte offsets where the pieces end.
fn piece_ends(s: &str, splits: &[usize]) -> Vec<usize> {
    let st = char_starts(s);
    splits.iter().map(|&c| st[c]).chain(std::iter::once(s.len())).collect()
}

fn pieces_case<R: Watch, DA>(c: &mut Case, name: &str) -> Result<(), String>
    where DA: DatumAllocator<ET = i64> + Default, DA::TT: Text<Pos = CharPos, Chunk = PosStrish<R>> + Assemble<CountAlloc<DA>> + Hash + Eq, DA::DR: Hash + Eq,
{
    let d = Delims::default_set();
    let (macs, heads) = if c.rng.chance(1, 2) { gen::macros(&mut c.rng, &d, false) } else { (vec![], vec![]) };
    let max = if c.rng.chance(1, 2000) { 12_000 } else if c.rng.chance(1, 40) { 600 } else { 80 };
    let s = if c.rng.chance(3, 4) { gen::well_formed(&mut c.rng, &d, &heads, max) } else { gen::input(&mut c.rng, &d, &heads, max) };
    let n = s.chars().count();
    let sp = gen::splits(&mut c.rng, n);
    let mut job = Job::plain(&s, &sp, &d);
    job.macs = &macs;
    if !macs.is_empty() { job.bind = if c.rng.chance(1, 2) { BindKind::Pairs } else { BindKind::Map(HashMode::Fnv) } }
    job.seed = c.rng.next();
    c.describe(describe(&job, None));
    let ends = piece_ends(&s, &sp);
    // Which piece each character is in.
    let mut of = vec![];
    for i in &char_starts(&s)[..n] { of.push(ends.iter().position(|e| e > i).unwrap()) }
    let texts = |t: &T, out: &mut Vec<usize>| t.texts(&mut |x| out.extend(x.cpos.iter().filter_map(|&p| of.get(p))));
    let mut da = count_alloc(DA::default());
    let keys = keys_for(&job, &mut da);
    let calls = Rc::default();
    let bindings = mk_binds(job.bind, keys, job.macs, &calls);
    let mut parser = Parser { classifier: Cls::new(&d, 4 * n + 64), allocator: da, bindings };
    let log = Rc::new(Handed::default());
    let src = lib(|| StrishIterSourceStream::new(Making { src: &s, ends: &ends, at: 0, log: Some(log.clone()), conv: R::conv(), watch: R::watch }));
    let full = |i: usize| ends[i] > if i == 0 { 0 } else { ends[i - 1] };
    // The last `k` pieces that are not empty, of the first `upto`.
    let last = |upto: usize, k: usize| -> Vec<usize> { (0..upto).rev().filter(|&i| full(i)).take(k).collect() };
    let keep = c.rng.below(4);
    let mut kept: Vec<(Result<DD<CountAlloc<DA>>, _>, Vec<usize>)> = vec![];
    let mut it = lib(|| parser.parse(src));
    let mut steps = 0;
    let mut freed = 0u64;
    let judge = |c: &mut Case, when: &str, now: &[usize], may: &[&[usize]], upto: usize| -> Result<(), String> {
        c.eval();
        for i in now {
            if !may.iter().any(|m| m.contains(i)) {
                return Err(format!("{name}: {when}, piece {i} of the {upto} handed out is still held, though no result there is contains a character of it and it is not among the last that were asked for"));
            }
        }
        Ok(())
    };
    loop {
        let calls0 = calls_len(&calls);
        let r = lib(|| it.next());
        let asked = std::mem::take(&mut *log.at_request.borrow_mut());
        let upto = log.held.borrow().len();
        let before: Vec<usize> = kept.iter().flat_map(|(_, v)| v.iter().copied()).collect();
        let mut mine = vec![];
        let item = r.as_ref().map(obs_result);
        if let Some(Item::Ok(t)) = item.as_ref() { texts(t, &mut mine) }
        let mut used = mine.clone();
        for k in &calls.borrow()[calls0..] { texts(&k.operator, &mut used); texts(&k.operands, &mut used) }
        match &item {
            // What was collected of a text whose end is missing has no use,
            // and nothing follows.
            Some(Item::Missing) => { c.count("inputs that ended within a form", 1); break }
            Some(i) if i.is_err() => c.count("steps that gave an error", 1),
            _ => for (k, now) in &asked {
                // One more, as the next is being asked for.
                judge(c, &format!("when piece {k} was asked for in step {steps}"), now, &[&used, &before, &last(*k, 2)], *k)?;
                c.count("pieces asked for", 1);
            }
        }
        judge(c, &format!("after step {steps}"), &log.now(), &[&mine, &before, &last(upto, 2)], upto)?;
        let Some(r) = r else { break };
        steps += 1;
        if c.rng.below(4) < keep { kept.push((r, mine)) } else {
            lib(|| drop(r));
            let now = log.now();
            judge(c, &format!("after the result of step {steps} was dropped"), &now, &[&before, &last(upto, 2)], upto)?;
            freed += (upto - now.len()) as u64;
        }
        if !kept.is_empty() && c.rng.chance(1, 6) { let i = c.rng.below(kept.len()); lib(|| drop(kept.remove(i))); }
        if steps > n + 8 { return Err(format!("{name}: more items than characters")) }
    }
    let upto = log.held.borrow().len();
    lib(|| drop(it));
    let before: Vec<usize> = kept.iter().flat_map(|(_, v)| v.iter().copied()).collect();
    judge(c, "after the parse was dropped", &log.now(), &[&before], upto)?;
    while !kept.is_empty() {
        let i = c.rng.below(kept.len());
        lib(|| drop(kept.swap_remove(i)));
        let before: Vec<usize> = kept.iter().flat_map(|(_, v)| v.iter().copied()).collect();
        judge(c, "after a result was dropped", &log.now(), &[&before], upto)?;
    }
    c.max("pieces handed out in one parse", upto as u64);
    c.count("pieces seen released during the parse", freed);
    if freed > 0 && steps > 1 { c.nontrivial(mix(hash_str(&s), mix(hash_str(name), job.seed))) }
    c.sample(|| format!("{name} {s:?} splits {sp:?}: {upto} pieces, {steps} steps"));
    Ok(())
}

fn calls_len(v: &Rc<RefCell<Vec<Call>>>) -> usize { v.borrow().len() }

/// Parses a long input of short forms, dropping each result, and looks at the
/// memory that is held after each step.
fn steady<DA, S>(c: &mut Case, name: &str, job: &Job, unit: usize, mk: impl FnOnce() -> S) -> Result<(), String>
    where DA: DatumAllocator<ET = i64> + Default, DA::TT: Assemble<CountAlloc<DA>> + Hash + Eq, DA::DR: Hash + Eq,
          <DA::TT as TextBase>::Pos: PosView, <DA::TT as Text>::Chunk: for<'k> MkChunk<'k>, S: SourceStream<CountAlloc<DA>>,
{
    let mut da = count_alloc(DA::default());
    let keys = keys_for(job, &mut da);
    let calls: Rc<RefCell<Vec<Call>>> = Rc::default();
    let bindings = mk_binds(job.bind, keys, job.macs, &calls);
    let n = job.src.chars().count();
    let mut parser = Parser { classifier: Cls::new(job.delims, 4 * n + 64), allocator: da, bindings };
    let base = heap::live_bytes();
    let longest = job.src.len();
    let allowed = 1024 + 4 * unit as i64;
    let mut steps = 0u64;
    let mut most = 0;
    let mut it = lib(|| parser.parse(mk()));
    loop {
        let r = lib(|| it.next());
        heap::unnoted(|| *calls.borrow_mut() = vec![]);
        let Some(r) = r else { break };
        lib(|| drop(r));
        steps += 1;
        c.eval();
        let held = heap::live_bytes() - base;
        most = most.max(held);
        if held > allowed {
            return Err(format!("{name}: after step {steps}, with all results dropped, {held} bytes are held, though no form or piece takes more than {unit} bytes"));
        }
        if steps > n as u64 + 8 { return Err(format!("{name}: more items than characters")) }
    }
    lib(|| drop(it));
    c.max("bytes held at most after a step", most.max(0) as u64);
    c.count("steps after which the memory was looked at", steps);
    if steps > 50 { c.nontrivial(mix(hash_str(name), mix(c.idx, longest as u64))) }
    c.sample(|| format!("{name}: {longest} bytes in {steps} steps, at most {most} bytes held after one, {allowed} allowed"));
    Ok(())
}

fn steady_case(c: &mut Case) -> Result<(), String> {
    let d = Delims::default_set();
    let (macs, heads) = if c.rng.chance(1, 2) { gen::macros(&mut c.rng, &d, false) } else { (vec![], vec![]) };
    let size = if c.rng.chance(1, 20) { 400_000 } else if c.tier == Tier::Quick { 40_000 } else { 120_000 };
    let mut s = String::new();
    let mut unit = 0;
    let few = if c.rng.chance(1, 3) { Some(c.rng.range(1, 4)) } else { None };
    let mut forms: Vec<String> = vec![];
    while s.len() < size {
        let f = match few { Some(k) if forms.len() >= k => c.rng.pick(&forms).clone(), _ => {
            let f = if c.rng.chance(1, 3) { (*c.rng.pick(&["\n", "{a\nb}", "\\x", "", "}", " ", "{m}", "{m x}", "{a}", "{ \n }", "é", "\r\n", "{{}}", "{a {b}}", "\\\n"])).to_string() } else { gen::well_formed(&mut c.rng, &d, &heads, 60) };
            forms.push(f.clone());
            f
        } };
        unit = unit.max(f.len() + 2);
        s.push_str(&f);
        if f.len() != 1 || c.rng.chance(1, 8) { s.push_str("{}") }
        unit = unit.max(200);
    }
    let n = s.chars().count();
    let each = *c.rng.pick(&[1usize, 2, 3, 7, 40, 128, 1000]);
    let empties = c.rng.chance(1, 4);
    let mut sp: Vec<usize> = vec![];
    let mut at = 0;
    while at < n { at += if each < 4 { each } else { c.rng.range(1, each) }; if at < n { sp.push(at); if empties && c.rng.chance(1, 3) { sp.push(at) } } }
    unit = unit.max(4 * each);
    let mut job = Job::plain(&s, &sp, &d);
    job.macs = &macs;
    if !macs.is_empty() { job.bind = if c.rng.chance(1, 2) { BindKind::Pairs } else { BindKind::Map(HashMode::Fnv) } }
    job.seed = c.rng.next();
    c.describe(format!("{} bytes, pieces of at most {each}, macros {macs:?}, beginning {:?}", s.len(), s.chars().take(120).collect::<String>()));
    let ends = piece_ends(&s, &sp);
    macro_rules! go {
        ($da:ident, $p:ty) => {{
            type A = $da<TextVec<PosStrish<$p>>, i64>;
            let name = |k: &str| format!("{k}/{}/{}", stringify!($p), stringify!($da));
            match c.rng.below(3) {
                0 => steady::<A, _>(c, &name("characters"), &job, unit, || CharIterSourceStream::new(s.chars(), <$p as Storage>::conv())),
                1 => steady::<A, _>(c, &name("strings"), &job, unit, || StrishIterSourceStream::new(Making { src: &s, ends: &ends, at: 0, log: None, conv: <$p as Storage>::conv(), watch: <$p as Watch>::watch })),
                _ => {
                    let st = char_starts(&s);
                    let t = TextVec::assemble(mk_chunks::<PosStrish<$p>>(&s, &st, &sp), &mut NoNodes::<TextVec<PosStrish<$p>>>::default());
                    let r = steady::<A, _>(c, &name("text"), &job, unit, || t.iter());
                    r
                }
            }
        }};
    }
    match c.idx % 9 {
        0 => go!(BoxDatumAllocator, Rc<String>),
        1 => go!(RcDatumAllocator, Rc<String>),
        2 => go!(BoxDatumAllocator, Rc<Box<str>>),
        3 => go!(BoxDatumAllocator, Rc<str>),
        4 => go!(RcDatumAllocator, Rc<str>),
        5 => go!(BoxDatumAllocator, Arc<String>),
        6 => go!(ArcDatumAllocator, Arc<String>),
        7 => go!(BoxDatumAllocator, Arc<Box<str>>),
        _ => go!(ArcDatumAllocator, Arc<str>),
    }
}

pub fn c34(ctx: &mut Ctx) {
    ctx.rule = "streams of strings that are made when asked for and watched by weak references, with and without macros, with results dropped at once or kept for a while; an evaluation looks, when a piece is asked for, after a step, or after something was dropped, at which pieces are still held and compares with those whose characters the existing results contain and the last two that were asked for; and long inputs of short forms whose results are dropped, an evaluation comparing the heap memory held after a step with a bound that does not depend on how much was consumed; non-trivial: pieces were released during a parse of several steps, or more than 50 steps were looked at, distinct by input and types".into();
    ctx.stage("pieces", ctx.pick(360_000, 3_600_000), |c| {
        macro_rules! go { ($da:ident, $p:ty) => { pieces_case::<$p, $da<TextVec<PosStrish<$p>>, i64>>(c, concat!(stringify!($p), "/", stringify!($da))) }; }
        match c.idx % 9 {
            0 => go!(BoxDatumAllocator, Rc<String>),
            1 => go!(RcDatumAllocator, Rc<String>),
            2 => go!(BoxDatumAllocator, Rc<Box<str>>),
            3 => go!(RcDatumAllocator, Rc<str>),
            4 => go!(BoxDatumAllocator, Rc<str>),
            5 => go!(BoxDatumAllocator, Arc<String>),
            6 => go!(ArcDatumAllocator, Arc<String>),
            7 => go!(ArcDatumAllocator, Arc<Box<str>>),
            _ => go!(BoxDatumAllocator, Arc<str>),
        }
    });
    ctx.stage("memory", ctx.pick(900, 4_500), steady_case);
}

// ----------------------------------------------------------------------- C35

/// A parse, and what it gives alone.
struct Plan { src: String, splits: Vec<usize>, d: Delims, macs: Vec<Mac>, bind: BindKind, seed: u64, stop: usize, cfg: Cfg, alone: Vec<String> }

/// An item with the positions of its characters.
fn placed(i: &Item) -> String {
    let mut s = i.brief();
    match i {
        Item::Ok(t) => t.texts(&mut |x| s.push_str(&format!(" {:?} {:?}", x.cpos, x.s))),
        Item::Unbalanced { cp, .. } => s.push_str(&format!(" {cp}")),
        _ => {}
    }
    s
}

impl Plan {
    fn new(rng: &mut Rng, cfgs: &[Cfg], max: usize) -> Self {
        let d = if rng.chance(3, 4) { Delims::default_set() } else { gen::delims(rng) };
        let (macs, heads) = if d == Delims::default_set() && rng.chance(1, 2) { gen::macros(rng, &d, true) } else { (vec![], vec![]) };
        let src = gen::input(rng, &d, &heads, max);
        let splits = gen::splits(rng, src.chars().count());
        let bind = if macs.is_empty() { BindKind::Empty } else { *rng.pick(&[BindKind::Pairs, BindKind::Map(HashMode::Fnv), BindKind::Map(HashMode::Random)]) };
        let mut p = Plan { src, splits, d, macs, bind, seed: rng.next(), stop: if rng.chance(1, 5) { rng.below(5) } else { usize::MAX }, cfg: *rng.pick(cfgs), alone: vec![] };
        p.alone = p.run();
        p
    }
    fn run(&self) -> Vec<String> {
        let mut job = Job::plain(&self.src, &self.splits, &self.d);
        job.macs = &self.macs;
        job.bind = self.bind;
        job.seed = self.seed;
        job.stop_after = self.stop;
        let r = run_cfg(self.cfg, &job);
        let mut v: Vec<String> = r.items.iter().map(placed).collect();
        for k in &r.calls { v.push(format!("call {} {} {}", k.mac, k.operator.brief(), k.operands.brief())) }
        v
    }
    fn judge(&self, when: &str, got: &[String]) -> Result<(), String> {
        if got == &self.alone[..] { return Ok(()) }
        let i = (0..).find(|&i| got.get(i) != self.alone.get(i)).unwrap();
        Err(format!("a parse of {:?} in pieces {:?} by {} {when} gives {:?} where alone it gives {:?}", self.src, self.splits, self.cfg.name(), got.get(i), self.alone.get(i)))
    }
}

#[derive(Default)]
struct Visits { bad: RefCell<Option<String>>, done: Cell<[u64; 6]>, deep: Cell<u64> }

/// Runs one of the parses now and then.
fn visitor(pool: Rc<Vec<Plan>>, mut rng: Rng, every: usize, mut left: usize, depth: usize, log: Rc<Visits>) -> Visitor {
    let only = if rng.chance(1, 2) { Some(*rng.pick(&[At::Macro, At::Macro, At::Source, At::Allocator, At::Text, At::Hasher])) } else { None };
    let every = if matches!(only, Some(At::Macro | At::Text)) { 1 } else { every };
    Box::new(move |at| {
        if left == 0 || only.map_or(false, |o| o != at) || log.bad.borrow().is_some() || !rng.chance(1, every) { return }
        left -= 1;
        let p = &pool[rng.below(pool.len())];
        let got = if depth > 1 {
            let inner = visitor(pool.clone(), Rng::new(rng.next()), every, 2, depth - 1, log.clone());
            log.deep.set(log.deep.get() + 1);
            visited(inner, || p.run())
        } else { p.run() };
        let mut n = log.done.get();
        n[at as usize] += 1;
        log.done.set(n);
        if let Err(e) = p.judge(&format!("run within {at:?} code of another"), &got) { *log.bad.borrow_mut() = Some(e) }
    })
}

/// Runs the parses step by step in an arbitrary order.
fn weave(plans: &[Plan], i: usize, rng: &mut Rng, outer: &mut dyn FnMut(usize) -> bool, got: &RefCell<Vec<Vec<String>>>, turns: &Cell<u64>) {
    let mut w = |step: &mut dyn FnMut() -> bool| {
        let mut any = |j: usize| if j == i { step() } else { outer(j) };
        if i + 1 < plans.len() { return weave(plans, i + 1, rng, &mut any, got, turns) }
        let mut open: Vec<usize> = (0..plans.len()).collect();
        // The last ones to start may be left before they are finished.
        let enough = if rng.chance(1, 4) { rng.below(12) as u64 } else { u64::MAX };
        let mut last = usize::MAX;
        while !open.is_empty() && turns.get() < enough {
            let k = rng.below(open.len());
            let j = open[k];
            if last != j { turns.set(turns.get() + 1); last = j }
            if !any(j) { open.swap_remove(k); }
        }
    };
    let r = woven(&mut w, || plans[i].run());
    got.borrow_mut()[i] = r;
}

fn same_time_case(c: &mut Case, cfgs: &[Cfg], max: usize) -> Result<(), String> {
    let k = c.rng.range(2, 4);
    let plans: Vec<Plan> = (0..k).map(|_| Plan::new(&mut c.rng, cfgs, max)).collect();
    c.describe(plans.iter().map(|p| format!("{} {:?} in pieces {:?} with {:?} and {:?} {:?}", p.cfg.name(), p.src, p.splits, p.d, p.macs, p.bind)).collect::<Vec<_>>().join("\n"));
    let way = c.rng.below(3);
    let log = Rc::new(Visits::default());
    let turns = Cell::new(0);
    let got = RefCell::new(vec![vec![]; k]);
    let pool = Rc::new(if way == 1 { vec![] } else { (0..c.rng.range(1, 3)).map(|_| Plan::new(&mut c.rng, cfgs, 40)).collect::<Vec<_>>() });
    let mut rng = Rng::new(c.rng.next());
    let run = |rng: &mut Rng| if way == 0 {
        got.borrow_mut()[0] = plans[0].run()
    } else {
        weave(&plans, 0, rng, &mut |_| false, &got, &turns)
    };
    if way == 1 { run(&mut rng) } else {
        let v = visitor(pool, Rng::new(rng.next()), *c.rng.pick(&[1, 4, 15, 60]), c.rng.range(1, 6), c.rng.range(1, 2), log.clone());
        visited(v, || run(&mut rng))
    }
    if let Some(e) = log.bad.borrow_mut().take() { return Err(e) }
    let n = if way == 0 { 1 } else { k };
    let done = log.done.get();
    let inner: u64 = done.iter().sum();
    for (p, g) in plans.iter().zip(got.borrow().iter()).take(n) {
        p.judge(["with others run within it", "in turn with others", "in turn with others and with others run within it"][way], g)?;
        c.eval();
    }
    c.evals(inner);
    for (at, n) in AT.iter().zip(done) { c.count(&format!("parses run within {at:?} code of another"), n) }
    c.count("of these with further ones within", log.deep.get());
    c.count("changes from one parse to another", turns.get());
    if turns.get() > 1 || inner > 0 { c.nontrivial(mix(hash_str(&plans[0].src), mix(hash_str(&plans[1].src), plans[0].seed))) }
    c.sample(|| format!("{k} parses, {} changes between them, {inner} run within others ({done:?}); first {} {:?}: {:?}", turns.get(), plans[0].cfg.name(), plans[0].src, plans[0].alone));
    Ok(())
}

/// Parses the same text value several times at once.
fn same_text<TT, DA>(c: &mut Case, name: &str, t: &TT) -> Result<(), String>
    where DA: DatumAllocator<TT = TT, ET = i64> + Default, TT: TextConcat<DA>, TT::Pos: PosView + Debug, TT::Chunk: ChunkView,
{
    let mk = || Parser { classifier: DefaultCharClassifier, allocator: DA::default(), bindings: EmptyOperatorBindings };
    let cap = 16 + t.iter().count();
    let key = |r: &Result<_, kul::Error<TT::Pos, ()>>| match r { Ok(d) => placed(&Item::Ok(obs_datum(d))), Err(e) => format!("{e:?}") };
    let mut first = mk();
    let alone: Vec<String> = lib(|| first.parse(t.iter()).take(cap).map(|r| key(&r)).collect());
    let k = c.rng.range(2, 5);
    let mut ps: Vec<_> = (0..k).map(|_| mk()).collect();
    let mut its: Vec<_> = ps.iter_mut().map(|p| (Some(p.parse(t.iter())), 0)).collect();
    let mut kept = vec![];
    while its.iter().any(|i| i.0.is_some()) {
        let j = c.rng.below(k);
        let (it, n) = &mut its[j];
        let Some(i) = it else { continue };
        let r = lib(|| i.next());
        let got = r.as_ref().map(key);
        c.eval();
        if got.as_ref() != alone.get(*n) {
            return Err(format!("{name}: of {k} parses of one text at the same time, one gives {got:?} as item {n} where it gives {:?} alone", alone.get(*n)));
        }
        *n += 1;
        if got.is_none() || c.rng.chance(1, 40) { *it = None }
        if c.rng.chance(1, 2) { kept.extend(r) }
    }
    if alone.len() > 1 { c.nontrivial(mix(hash_str(name), mix(c.idx, cap as u64))) }
    c.sample(|| format!("{name}: {k} parses of one text of {} characters, {} items each", cap - 16, alone.len()));
    Ok(())
}

pub fn c35(ctx: &mut Ctx) {
    ctx.rule = "two to four parses on one thread, of all types, whose steps are done in an arbitrary order, some of them left unfinished; parses run from the classifier, the allocator, the source, a macro, the hasher or the text type of another parse, up to two deep; and several parses of one text value; an evaluation compares the items (structure, characters, positions) and the macro calls of one of the parses with what it gives alone; non-trivial: there was more than one change between the parses or one was run within another, distinct by input and seed".into();
    let cfgs = all_cfgs();
    ctx.stage("random", ctx.pick(300_000, 3_000_000), |c| same_time_case(c, &cfgs, 80));
    ctx.stage("long", ctx.pick(5_000, 30_000), |c| same_time_case(c, &cfgs, 3_000));
    ctx.stage("one-text", ctx.pick(60_000, 600_000), |c| {
        let d = Delims::default_set();
        let max = if c.rng.chance(1, 100) { 2000 } else { 80 };
        let s = gen::input(&mut c.rng, &d, &[], max);
        let sp = gen::splits(&mut c.rng, s.chars().count());
        let st = char_starts(&s);
        c.describe(format!("{s:?} in pieces {sp:?}"));
        macro_rules! go {
            ($da:ident, $tt:ty, $c:ty) => {{
                let t = <$tt>::assemble(mk_chunks::<$c>(&s, &st, &sp), &mut $da::<$tt, i64>::default());
                same_text::<$tt, $da<$tt, i64>>(c, concat!(stringify!($tt), "/", stringify!($da)), &t)
            }};
        }
        match c.idx % 6 {
            0 => go!(BoxDatumAllocator, TextVec<PosStr>, PosStr),
            1 => go!(RcDatumAllocator, TextVec<PosStrish<Rc<String>>>, PosStrish<Rc<String>>),
            2 => go!(ArcDatumAllocator, TextVec<PosStrish<Arc<str>>>, PosStrish<Arc<str>>),
            3 => go!(BoxDatumAllocator, TextVec<PosStrish<Rc<Box<str>>>>, PosStrish<Rc<Box<str>>>),
            4 => go!(BoxDatumAllocator, SegText<PosStr>, PosStr),
            _ => go!(RcDatumAllocator, SegText<PosStrish<Rc<str>>>, PosStrish<Rc<str>>),
        }
    });
}
