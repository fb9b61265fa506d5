//! Runs the real parser over every provided combination of source, text, string
//! storage, allocator and bindings type, and observes each run.

use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::hash::{BuildHasher, Hash, Hasher};
use std::rc::Rc;
use std::sync::Arc;

use kul::combiner::{ApFn, OpFn};
use kul::datum::{DatumMutRef, MutRefDatum};
use kul::parser::*;
use kul::source_stream::*;
use kul::text::chunk::{CharPos, PosStr, PosStrish, RefCntStrish, StrPos};
use kul::text::{TextDatumList, TextVec};
use kul::{Combiner, Datum, Error, Parser, SourceStream, Text, TextBase, TextChunk, TextConcat};

use crate::heap;
use crate::model::{Act, Call, Delims, Mac};
use crate::obs::*;
use crate::rng::Rng;
use crate::runner::violate;
use crate::wrap::lib;

// --------------------------------------------------------------------- fuses

/// Raised as a panic by code of the user.
pub struct Planted;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum At { Classifier, Allocator, Source, Macro, Hasher, Text }
pub const AT: [At; 6] = [At::Classifier, At::Allocator, At::Source, At::Macro, At::Hasher, At::Text];

thread_local! {
    static PASSED: Cell<[u64; 6]> = const { Cell::new([0; 6]) };
    static FUSE: Cell<Option<(At, u64)>> = const { Cell::new(None) };
}

/// Arms the fuse: the `n`th time code of the user is entered there it panics.
pub fn arm(fuse: Option<(At, u64)>) {
    PASSED.with(|p| p.set([0; 6]));
    FUSE.with(|f| f.set(fuse));
}
pub fn armed() -> bool { FUSE.with(Cell::get).is_some() }
/// How often code of the user was entered since the fuse was set.
pub fn passed(at: At) -> u64 { PASSED.with(Cell::get)[at as usize] }

thread_local! {
    static VISITED: Cell<bool> = const { Cell::new(false) };
    static VISITOR: RefCell<Option<Visitor>> = const { RefCell::new(None) };
    static WEAVER: Cell<Option<*mut Weaver<'static>>> = const { Cell::new(None) };
}

/// Does something whenever code of the user is entered.
pub type Visitor = Box<dyn FnMut(At)>;

/// Runs `f` while `v` is called when code of the user is entered, though not
/// by what it does itself.
pub fn visited<R>(v: Visitor, f: impl FnOnce() -> R) -> R {
    let flag = VISITED.with(|x| x.replace(true));
    let was = VISITOR.with(|x| x.borrow_mut().replace(v));
    let r = f();
    VISITOR.with(|x| *x.borrow_mut() = was);
    VISITED.with(|x| x.set(flag));
    r
}

/// Is given the steps of a parse to do as many of them as it likes (each says
/// whether there was one to do).
pub type Weaver<'w> = dyn FnMut(&mut dyn FnMut() -> bool) + 'w;

/// Runs `f` so that the steps of the parse it does are given to `w`.
pub fn woven<R>(w: &mut Weaver, f: impl FnOnce() -> R) -> R {
    // SAFETY: only used during this call.
    let p: *mut Weaver<'static> = unsafe { std::mem::transmute(w as *mut Weaver) };
    WEAVER.with(|x| x.set(Some(p)));
    let r = f();
    WEAVER.with(|x| x.set(None));
    r
}

/// Code of the user is entered.
pub fn enter(at: At) {
    if VISITED.with(Cell::get) {
        let v = VISITOR.with(|x| x.borrow_mut().take());
        if let Some(mut v) = v {
            v(at);
            VISITOR.with(|x| *x.borrow_mut() = Some(v));
        }
    }
    let n = PASSED.with(|p| { let mut v = p.get(); v[at as usize] += 1; p.set(v); v[at as usize] });
    if FUSE.with(Cell::get) == Some((at, n - 1)) {
        FUSE.with(|f| f.set(None));
        std::panic::panic_any(Planted)
    }
}

// ---------------------------------------------------------------- classifier

/// The delimiters of a run.  Also the step monitor: the parser cannot go on
/// without asking it, so a bound on the questions is a bound on the steps.
#[derive(Debug)]
pub struct Cls { d: Delims, left: Cell<u64>, pub asked: Cell<u64> }

impl Cls {
    /// `chars`: how many characters this classifier will see at most.
    pub fn new(d: &Delims, chars: usize) -> Self {
        Cls { d: d.clone(), left: Cell::new(64 * chars as u64 + 4096), asked: Cell::new(0) }
    }
    fn step(&self) {
        heap::touch_stack();
        enter(At::Classifier);
        self.asked.set(self.asked.get() + 1);
        if self.left.get() == 0 {
            violate("the parser does not finish: the number of its steps exceeds any bound linear in the input".into());
        }
        self.left.set(self.left.get() - 1);
    }
}

impl CharClassifier for Cls {
    fn is_nest_start(&self, c: char) -> bool {
        self.step();
        if self.d.provided_default { DefaultCharClassifier.is_nest_start(c) } else { self.d.start.contains(&c) }
    }
    fn is_nest_end(&self, c: char) -> bool {
        self.step();
        if self.d.provided_default { DefaultCharClassifier.is_nest_end(c) } else { self.d.end.contains(&c) }
    }
    fn is_nest_escape(&self, c: char) -> bool {
        self.step();
        if self.d.provided_default { DefaultCharClassifier.is_nest_escape(c) } else { self.d.esc.contains(&c) }
    }
    fn is_whitespace(&self, c: char) -> bool {
        self.step();
        if self.d.provided_default { DefaultCharClassifier.is_whitespace(c) } else { self.d.is_ws(c) }
    }
}

// ----------------------------------------------------------------- allocator

/// Shared counters of an instrumented allocator.
#[derive(Default, Debug)]
pub struct AllocLog {
    pub calls: Cell<usize>,
    pub failed: Cell<usize>,
}

/// Passes through to a provided allocator, counting, and failing when told.
pub struct CountAlloc<A> {
    pub inner: A,
    pub log: Rc<AllocLog>,
    /// Fail the calls with these indices (counted from when the log was reset).
    pub fail: FailPlan,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum FailPlan {
    Never,
    /// Only that call fails.
    At(usize),
    /// That call and all later ones fail.
    From(usize),
    /// Pseudo-random, about one in `n`.
    OneIn(usize, u64),
}

impl FailPlan {
    pub fn fails(&self, i: usize) -> bool {
        match *self {
            FailPlan::Never => false,
            FailPlan::At(n) => i == n,
            FailPlan::From(n) => i >= n,
            FailPlan::OneIn(n, s) => crate::rng::mix(s, i as u64) % (n as u64) == 0,
        }
    }
}

impl<A: DatumAllocator> DatumAllocator for CountAlloc<A> {
    type TT = A::TT;
    type ET = A::ET;
    type DR = A::DR;
    fn new_datum(&mut self, from: Datum<A::TT, A::ET, A::DR>) -> Result<A::DR, AllocError> {
        heap::touch_stack();
        enter(At::Allocator);
        let n = self.log.calls.get();
        self.log.calls.set(n + 1);
        if self.fail.fails(n) {
            self.log.failed.set(self.log.failed.get() + 1);
            return Err(AllocError::AllocExhausted);
        }
        let r = self.inner.new_datum(from);
        enter(At::Allocator);
        if r.is_err() { self.log.failed.set(self.log.failed.get() + 1) }
        r
    }
}

// ------------------------------------------------------------------- hashing

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum HashMode { Random, Constant, Weak, Fnv }

#[derive(Clone)]
pub struct AnyBuild { mode: HashMode, rs: std::collections::hash_map::RandomState }
pub enum AnyHasher { Std(std::collections::hash_map::DefaultHasher), Constant, Weak(u64), Fnv(u64) }

impl AnyBuild {
    pub fn new(mode: HashMode) -> Self { AnyBuild { mode, rs: Default::default() } }
}
impl BuildHasher for AnyBuild {
    type Hasher = AnyHasher;
    fn build_hasher(&self) -> AnyHasher {
        match self.mode {
            HashMode::Random => AnyHasher::Std(self.rs.build_hasher()),
            HashMode::Constant => AnyHasher::Constant,
            HashMode::Weak => AnyHasher::Weak(0),
            HashMode::Fnv => AnyHasher::Fnv(0xcbf2_9ce4_8422_2325),
        }
    }
}
impl Hasher for AnyHasher {
    fn write(&mut self, b: &[u8]) {
        heap::touch_stack();
        enter(At::Hasher);
        match self {
            AnyHasher::Std(h) => h.write(b),
            AnyHasher::Constant => {}
            AnyHasher::Weak(x) => for &c in b { *x = (*x + u64::from(c)) & 3 },
            AnyHasher::Fnv(x) => for &c in b { *x = (*x ^ u64::from(c)).wrapping_mul(0x100_0000_01b3) },
        }
    }
    fn finish(&self) -> u64 {
        match self { AnyHasher::Std(h) => h.finish(), AnyHasher::Constant => 0, AnyHasher::Weak(x) | AnyHasher::Fnv(x) => *x }
    }
}

// ------------------------------------------------------------------ bindings

pub type OR<DA> = Box<OpFn<DA, u32>>;
pub type AR<DA> = Box<ApFn<DA, u32>>;
pub type DD<DA> = Datum<<DA as DatumAllocator>::TT, <DA as DatumAllocator>::ET, <DA as DatumAllocator>::DR>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BindKind { Empty, Map(HashMode), Pairs }

/// The provided bindings types behind one type.  Lookups are counted.
pub enum Binds<DA>
    where DA: DatumAllocator, DA::TT: Hash + Eq, DA::ET: Hash + Eq, DA::DR: Hash + Eq,
{
    Empty(EmptyOperatorBindings),
    Map(HashMapOperatorBindings<DA, OR<DA>, AR<DA>, u32, AnyBuild>),
    Pairs(PairOperatorBindings<Vec<(DD<DA>, Combiner<OR<DA>, AR<DA>>)>, DA, OR<DA>, AR<DA>, u32>),
}

impl<DA> OperatorBindings<DA> for Binds<DA>
    where DA: DatumAllocator, DA::TT: Hash + Eq, DA::ET: Hash + Eq, DA::DR: Hash + Eq,
{
    type OR = OR<DA>;
    type AR = AR<DA>;
    type CE = u32;
    fn lookup(&self, op: &DD<DA>) -> Option<&Combiner<OR<DA>, AR<DA>>> {
        match self {
            Binds::Empty(_) => None,
            Binds::Map(m) => m.lookup(op),
            Binds::Pairs(p) => p.lookup(op),
        }
    }
}

pub fn run_act<DA>(act: &Act, operator: DD<DA>, operands: DD<DA>, da: &mut DA)
                   -> Result<Option<DD<DA>>, Error<<DA::TT as TextBase>::Pos, u32>>
    where DA: DatumAllocator<ET = i64>,
{
    enter(At::Macro);
    Ok(Some(match act {
        Act::Remove => return Ok(None),
        Act::Fail(n) => return Err(Error::FailedCombiner(*n)),
        Act::FailMissing => return Err(Error::MissingEndChar),
        Act::FailAlloc => return Err(Error::FailedAlloc(AllocError::AllocExhausted)),
        Act::Extra(n) => Datum::Extra(*n),
        Act::EmptyNest => Datum::EmptyNest,
        Act::EmptyList => Datum::EmptyList,
        Act::Operands => operands,
        Act::Operator => operator,
        Act::Rebuild => Datum::Combination {
            operator: da.new_datum(operator)?,
            operands: da.new_datum(operands)?,
        },
        Act::Pair => {
            let end = da.new_datum(Datum::EmptyList)?;
            let second = da.new_datum(operands)?;
            let next = da.new_datum(Datum::List { elem: second, next: end })?;
            Datum::List { elem: da.new_datum(operator)?, next }
        }
        Act::Count => {
            let n = match &operands {
                Datum::Text(t) => t.iter().count(),
                d => {
                    let (mut n, mut d) = (0, d);
                    while let Datum::List { next, .. } = d { n += 1; d = next; }
                    n
                }
            };
            Datum::Extra(n as i64)
        }
        Act::Cons => Datum::List { elem: da.new_datum(operator)?, next: da.new_datum(operands)? },
    }))
}

// ------------------------------------------------------------ building texts

/// A text chunk type the harness can make for a piece of a source.
pub trait MkChunk<'k>: TextChunk + ChunkView + Clone {
    fn mk(src: &'k str, from: usize, to: usize, char_pos: usize) -> Self;
}
impl<'k> MkChunk<'k> for PosStr<'k> {
    fn mk(src: &'k str, from: usize, to: usize, char_pos: usize) -> Self {
        PosStr { val: &src[from..to], pos: StrPos { src, byte_pos: from, char_pos } }
    }
}
impl<'k, S: RefCntStrish> MkChunk<'k> for PosStrish<S> {
    fn mk(src: &'k str, from: usize, to: usize, char_pos: usize) -> Self {
        PosStrish::new(S::from_str(&src[from..to]), CharPos(char_pos))
    }
}

/// A user-defined text: keeps every chunk it is given, also empty ones.
#[derive(Clone, Debug)]
pub struct SegText<C>(pub Vec<C>);

impl<C: TextChunk> From<C> for SegText<C> { fn from(c: C) -> Self { SegText(vec![c]) } }
impl<C: TextChunk> TextBase for SegText<C> {
    type Pos = C::Pos;
    fn empty() -> Self { SegText(vec![]) }
    fn is_empty(&self) -> bool { self.0.iter().all(TextBase::is_empty) }
}
impl<C: TextChunk> Text for SegText<C> {
    type Chunk = C;
    type IterChunksState = [C];
    fn iter_chunks_state(&self) -> Option<&[C]> { Some(&self.0) }
}
impl<C: TextChunk, DA> TextConcat<DA> for SegText<C> {
    fn concat(mut self, mut o: Self, _: &mut DA) -> Result<Self, AllocError> {
        enter(At::Text);
        self.0.append(&mut o.0);
        Ok(self)
    }
}
impl<C: TextChunk, TT: Text> PartialEq<TT> for SegText<C> { fn eq(&self, o: &TT) -> bool { Text::eq(self, o) } }
impl<C: TextChunk> Eq for SegText<C> {}
impl<C: TextChunk> Hash for SegText<C> { fn hash<H: Hasher>(&self, h: &mut H) { Text::hash(self, h) } }

/// A text type the harness can assemble from chunks.
pub trait Assemble<DA>: TextConcat<DA> {
    fn assemble(chunks: Vec<Self::Chunk>, da: &mut DA) -> Self;
}
impl<C: TextChunk, DA> Assemble<DA> for SegText<C> {
    fn assemble(chunks: Vec<C>, _: &mut DA) -> Self { SegText(chunks) }
}
fn by_concat<TT: TextConcat<DA>, DA>(chunks: Vec<TT::Chunk>, da: &mut DA) -> TT {
    // From the right, so that linking onto a chain of nodes stays cheap.
    let mut t = TT::empty();
    for c in chunks.into_iter().rev() {
        t = TT::from(c).concat(t, da).unwrap_or_else(|_| violate("concatenating texts reported exhausted allocation although there was room".into()));
    }
    t
}
impl<C: TextChunk, DA> Assemble<DA> for TextVec<C> {
    fn assemble(chunks: Vec<C>, da: &mut DA) -> Self {
        let mut t = <Self as TextBase>::empty();
        for c in chunks {
            t = t.concat(TextVec::from(c), da).unwrap();
        }
        t
    }
}
impl<'d, C: TextChunk, ET, DA> Assemble<DA> for TextDatumList<'d, C, ET>
    where DA: DatumAllocator<TT = Self, ET = ET, DR = DatumMutRef<'d, Self, ET>>,
{
    fn assemble(chunks: Vec<C>, da: &mut DA) -> Self { by_concat(chunks, da) }
}

pub fn char_starts(s: &str) -> Vec<usize> {
    let mut v: Vec<usize> = s.char_indices().map(|(i, _)| i).collect();
    v.push(s.len());
    v
}

/// Chunks of `src` at the given character split points (sorted, repeated ones
/// give empty chunks).
pub fn mk_chunks<'k, C: MkChunk<'k>>(src: &'k str, starts: &[usize], splits: &[usize]) -> Vec<C> {
    let n = starts.len() - 1;
    let mut v = vec![];
    let mut prev = 0;
    for &c in splits.iter().chain(std::iter::once(&n)) {
        v.push(C::mk(src, starts[prev], starts[c], prev));
        prev = c;
    }
    v
}

/// Builds the key form of a macro, with its texts chunked per `rng`.
pub fn mk_datum<'k, DA>(t: &'k T, da: &mut DA, rng: &mut Rng) -> DD<DA>
    where DA: DatumAllocator<ET = i64>, DA::TT: Assemble<DA>, <DA::TT as Text>::Chunk: MkChunk<'k>,
{
    fn must<X>(r: Result<X, AllocError>) -> X {
        r.unwrap_or_else(|_| violate("an allocator with room reported exhaustion".into()))
    }
    match t {
        T::Text(x) => {
            let st = char_starts(&x.s);
            let splits = few_splits(rng, st.len() - 1);
            Datum::Text(DA::TT::assemble(mk_chunks(&x.s, &st, &splits), da))
        }
        T::Comb(a, b) => {
            let a = mk_datum(a, da, rng);
            let b = mk_datum(b, da, rng);
            Datum::Combination { operator: must(da.new_datum(a)), operands: must(da.new_datum(b)) }
        }
        T::EmptyNest => Datum::EmptyNest,
        T::EmptyList => Datum::EmptyList,
        T::Extra(n) => Datum::Extra(*n),
        T::List(v, tail) => {
            let mut d = match tail { None => Datum::EmptyList, Some(t) => mk_datum(t, da, rng) };
            for e in v.iter().rev() {
                let e = mk_datum(e, da, rng);
                let next = must(da.new_datum(d));
                d = Datum::List { elem: must(da.new_datum(e)), next };
            }
            d
        }
    }
}

/// Equal pieces of a power of two of characters, or one more or less.
pub fn block_splits(rng: &mut Rng, n: usize) -> Vec<usize> {
    let most = (usize::BITS - n.leading_zeros()) as usize;
    let size = (1usize << rng.range(6.min(most), most.min(16))) + *rng.pick(&[1, 1, 1, 2, 0]) - 1;
    let first = if rng.chance(1, 2) { 0 } else { rng.below(n.min(size) + 1) };
    (first..n).step_by(size.max(16)).collect()
}

pub fn random_splits(rng: &mut Rng, n: usize) -> Vec<usize> {
    // Pieces of the usual sizes of buffers.
    if n >= 128 && rng.chance(1, 5) { return block_splits(rng, n) }
    let mut v = few_splits(rng, n);
    // Now and then many empty pieces in a row.
    if rng.chance(1, 300) {
        for _ in 0..rng.range(1, 2) {
            let at = rng.below(n + 1);
            let many = if rng.chance(1, 8) { 1000 + rng.below(3500) } else { (16 << rng.below(5)) + rng.below(40) };
            for _ in 0..many { v.push(at) }
        }
        v.sort_unstable();
    }
    v
}

fn few_splits(rng: &mut Rng, n: usize) -> Vec<usize> {
    if rng.chance(1, 4) { return vec![] }
    if rng.chance(1, 6) && n < 5000 { return (0..=n).collect() }
    let k = rng.size(n.min(12) + 2);
    let mut v: Vec<usize> = (0..k).map(|_| rng.below(n + 1)).collect();
    v.sort_unstable();
    v
}

// ------------------------------------------------------------------- running

#[derive(Clone, Debug)]
pub struct Job<'j> {
    pub src: &'j str,
    pub splits: &'j [usize],
    pub delims: &'j Delims,
    pub macs: &'j [Mac],
    pub bind: BindKind,
    pub fail: FailPlan,
    pub seed: u64,
    /// Slice allocators get this many nodes for the parse itself
    /// (`usize::MAX`: plenty).
    pub nodes: usize,
    /// Abandon the iteration after this many items.
    pub stop_after: usize,
    /// Also parse every text of the results again, this many levels deep.
    pub reparse: usize,
}

impl<'j> Job<'j> {
    pub fn plain(src: &'j str, splits: &'j [usize], delims: &'j Delims) -> Self {
        Job { src, splits, delims, macs: &[], bind: BindKind::Empty, fail: FailPlan::Never, seed: 0,
              nodes: usize::MAX, stop_after: usize::MAX, reparse: 0 }
    }
}

#[derive(Debug, Default)]
pub struct Run {
    pub items: Vec<Item>,
    pub calls: Vec<Call>,
    /// Per item: macro calls, allocations and source pieces requested so far.
    pub calls_at: Vec<usize>,
    pub allocs_at: Vec<usize>,
    pub reads_at: Vec<usize>,
    /// Pieces requested before the first step.
    pub reads_before: usize,
    pub allocs: usize,
    /// Questions to the classifier.
    pub asked: u64,
    pub allocs_failed: usize,
    /// Heap requests and bytes inside the steps.
    pub heap_calls: u64,
    pub heap_bytes: u64,
    /// An item looked different at the end than when it was delivered.
    pub changed: Option<String>,
    /// Address ranges of the source pieces: (address, length, first character).
    pub pieces: Vec<(usize, usize, usize)>,
    /// Address range of the whole in-memory source, for string sources.
    pub whole: Option<(usize, usize)>,
    /// Requests made after the end had been reported.
    pub extra_reads: usize,
    /// Texts of the results parsed again, and what that gave.
    pub again: Vec<(Tx, Vec<Item>)>,
    /// Nodes a slice allocator had left at the end.
    pub left: Option<usize>,
}

/// Called after every step with the item (if any), the calls made during the
/// step and how many allocations failed in it.
pub type Hook<'h> = &'h dyn Fn(Option<&Item>, &[Call], usize);

pub fn mk_combiner<DA>(i: usize, m: &Mac, log: &Rc<RefCell<Vec<Call>>>) -> Combiner<OR<DA>, AR<DA>>
    where DA: DatumAllocator<ET = i64>,
          <DA::TT as TextBase>::Pos: PosView, <DA::TT as Text>::Chunk: ChunkView,
{
    let (log, act) = (log.clone(), m.act.clone());
    if m.raw {
        Combiner::Operative(Box::new(move |operator, text, da| {
            let operands = Datum::Text(text);
            heap::unnoted(|| log.borrow_mut().push(Call { mac: i, operator: obs_datum(&operator), operands: obs_datum(&operands) }));
            run_act(&act, operator, operands, da)
        }))
    } else {
        Combiner::Applicative(Box::new(move |operator, operands, da| {
            heap::unnoted(|| log.borrow_mut().push(Call { mac: i, operator: obs_datum(&operator), operands: obs_datum(&operands) }));
            run_act(&act, operator, operands, da)
        }))
    }
}

pub fn mk_binds<DA>(bind: BindKind, keys: Vec<DD<DA>>, macs: &[Mac], log: &Rc<RefCell<Vec<Call>>>) -> Binds<DA>
    where DA: DatumAllocator<ET = i64>, DA::TT: Hash + Eq, DA::DR: Hash + Eq,
          <DA::TT as TextBase>::Pos: PosView, <DA::TT as Text>::Chunk: ChunkView,
{
    let pairs: Vec<_> = keys.into_iter().zip(macs).enumerate().map(|(i, (k, m))| (k, mk_combiner(i, m, log))).collect();
    match bind {
        BindKind::Empty => Binds::Empty(EmptyOperatorBindings),
        BindKind::Map(m) => {
            let mut h = HashMap::with_hasher(AnyBuild::new(m));
            // Duplicates: keep the first, as the pair form documents.
            for (k, c) in pairs { h.entry(k).or_insert(c); }
            Binds::Map(HashMapOperatorBindings::new(h))
        }
        BindKind::Pairs => Binds::Pairs(PairOperatorBindings::new(pairs)),
    }
}

/// Changes bindings in place, through their public fields, to those of `macs`.
pub fn rebind<DA>(binds: &mut Binds<DA>, keys: Vec<DD<DA>>, macs: &[Mac], log: &Rc<RefCell<Vec<Call>>>, rng: &mut Rng)
    where DA: DatumAllocator<ET = i64>, DA::TT: Hash + Eq, DA::DR: Hash + Eq,
          <DA::TT as TextBase>::Pos: PosView, <DA::TT as Text>::Chunk: ChunkView,
{
    match binds {
        Binds::Empty(_) => *binds = mk_binds(BindKind::Pairs, keys, macs, log),
        Binds::Map(b) => {
            if rng.chance(1, 2) { b.hashmap.retain(|k, _| keys.contains(k)) } else { b.hashmap.clear() }
            // The first of duplicates is to be the one that stays.
            let pairs: Vec<_> = keys.into_iter().zip(macs).enumerate().map(|(i, (k, m))| (k, mk_combiner(i, m, log))).collect();
            for (k, c) in pairs.into_iter().rev() { b.hashmap.insert(k, c); }
        }
        Binds::Pairs(b) => {
            let pairs: Vec<_> = keys.into_iter().zip(macs).enumerate().map(|(i, (k, m))| (k, mk_combiner(i, m, log))).collect();
            b.pairs.truncate(pairs.len());
            let n = b.pairs.len();
            for (i, p) in pairs.into_iter().enumerate() { if i < n { b.pairs[i] = p } else { b.pairs.push(p) } }
        }
    }
}

pub fn drive<DA, S>(da: CountAlloc<DA>, src: S, job: &Job, keys: Vec<DD<CountAlloc<DA>>>,
                    reads: &Rc<ReadLog>, run: &mut Run) -> CountAlloc<DA>
    where DA: DatumAllocator<ET = i64>,
          DA::TT: TextConcat<CountAlloc<DA>> + Hash + Eq, DA::DR: Hash + Eq,
          <DA::TT as TextBase>::Pos: PosView, <DA::TT as Text>::Chunk: ChunkView,
          S: SourceStream<CountAlloc<DA>>,
{
    drive_hooked(da, src, job, keys, reads, run, &|_, _, _| ())
}

pub fn drive_hooked<DA, S>(mut da: CountAlloc<DA>, src: S, job: &Job, keys: Vec<DD<CountAlloc<DA>>>,
                    reads: &Rc<ReadLog>, run: &mut Run, hook: Hook) -> CountAlloc<DA>
    where DA: DatumAllocator<ET = i64>,
          DA::TT: TextConcat<CountAlloc<DA>> + Hash + Eq, DA::DR: Hash + Eq,
          <DA::TT as TextBase>::Pos: PosView, <DA::TT as Text>::Chunk: ChunkView,
          S: SourceStream<CountAlloc<DA>>,
{
    let calls: Rc<RefCell<Vec<Call>>> = Rc::default();
    let bindings = mk_binds(job.bind, keys, job.macs, &calls);
    da.log.calls.set(0);
    da.log.failed.set(0);
    da.fail = job.fail.clone();
    let log = da.log.clone();
    let nchars = job.src.chars().count();
    let mut parser = Parser { classifier: Cls::new(job.delims, 4 * nchars), allocator: da, bindings };
    let cap = nchars + 8;
    let mut kept = vec![];
    run.reads_before = reads.count.get();
    {
        let mut it = lib(|| parser.parse(src));
        let mut done = false;
        let mut step = || -> bool {
            if done || kept.len() >= job.stop_after { return false }
            let (calls0, failed0) = (calls.borrow().len(), log.failed.get());
            let m0 = heap::mark();
            let r = heap::step_used(|| lib(|| it.next()));
            let m1 = heap::mark();
            run.heap_calls += m1.0 - m0.0;
            run.heap_bytes += m1.1 - m0.1;
            let Some(r) = r else {
                done = true;
                hook(None, &calls.borrow()[calls0..], log.failed.get() - failed0);
                for _ in 0..3 {
                    if lib(|| it.next()).is_some() { run.items.push(Item::AfterEnd); break }
                }
                return false;
            };
            run.items.push(obs_result(&r));
            hook(run.items.last(), &calls.borrow()[calls0..], log.failed.get() - failed0);
            run.calls_at.push(calls.borrow().len());
            run.allocs_at.push(log.calls.get());
            run.reads_at.push(reads.count.get());
            kept.push(r);
            if kept.len() > cap { run.items.push(Item::Overrun); done = true }
            !done
        };
        if let Some(w) = WEAVER.with(Cell::take) {
            // SAFETY: `woven` is still running.
            unsafe { (*w)(&mut step) }
        }
        while step() {}
    }
    for (i, r) in kept.iter().enumerate() {
        if !obs_result(r).same_with_err_pos(&run.items[i]) {
            run.changed = Some(format!("item {i} was {} when delivered and is now {}", run.items[i].brief(), obs_result(r).brief()));
        }
    }
    if job.reparse > 0 {
        for r in &kept {
            if let Ok(d) = r { parse_texts_again(&mut parser, d, job.reparse, &mut run.again) }
        }
    }
    run.allocs = log.calls.get();
    run.asked = parser.classifier.asked.get();
    run.allocs_failed = log.failed.get();
    run.extra_reads = reads.after_end.get();
    lib(|| drop(kept));
    let Parser { allocator, bindings, .. } = parser;
    drop(bindings);
    run.calls = Rc::try_unwrap(calls).map_or_else(|c| c.borrow().clone(), RefCell::into_inner);
    allocator
}

fn parse_texts_again<DA, OB>(parser: &mut Parser<Cls, DA, OB>, d: &DD<DA>, levels: usize, out: &mut Vec<(Tx, Vec<Item>)>)
    where DA: DatumAllocator<ET = i64>, DA::TT: TextConcat<DA>, OB: OperatorBindings<DA, CE = u32>,
          <DA::TT as TextBase>::Pos: PosView, <DA::TT as Text>::Chunk: ChunkView,
{
    match d {
        Datum::Text(t) => {
            let tx = obs_text(t);
            let mut kept = vec![];
            let mut items = vec![];
            let cap = tx.cpos.len() + 8;
            {
                let mut it = parser.parse(t.iter());
                while let Some(r) = lib(|| it.next()) {
                    items.push(obs_result(&r));
                    kept.push(r);
                    if items.len() > cap { items.push(Item::Overrun); break }
                }
            }
            out.push((tx, items));
            if levels > 1 {
                for r in &kept {
                    if let Ok(d) = r { parse_texts_again(parser, d, levels - 1, out) }
                }
            }
        }
        Datum::Combination { operator, operands } => {
            parse_texts_again(parser, operator, levels, out);
            parse_texts_again(parser, operands, levels, out);
        }
        Datum::List { .. } => {
            let mut cur = d;
            while let Datum::List { elem, next } = cur {
                parse_texts_again(parser, elem, levels, out);
                cur = next;
            }
        }
        _ => {}
    }
}

// ------------------------------------------------------------------- sources

#[derive(Default, Debug)]
pub struct ReadLog {
    pub count: Cell<usize>,
    pub after_end: Cell<usize>,
}

/// Iterator that counts what is requested from it.
pub struct Counted<I> { it: I, log: Rc<ReadLog>, ended: bool }
impl<I> Counted<I> {
    pub fn new(it: I, log: Rc<ReadLog>) -> Self { Counted { it, log, ended: false } }
}
impl<I: Iterator> Iterator for Counted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        heap::touch_stack();
        enter(At::Source);
        let r = self.it.next();
        if r.is_some() { self.log.count.set(self.log.count.get() + 1) }
        else if self.ended { self.log.after_end.set(self.log.after_end.get() + 1) }
        else { self.ended = true; self.log.count.set(self.log.count.get() + 1) }
        r
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum SrcKind { Text, Chars, Strs }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Store { Str, RcString, RcBox, RcStr, ArcString, ArcBox, ArcStr }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum TextKind { Vec, List, Seg }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum AllocKind { Box, Rc, Arc, Slice }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cfg { pub store: Store, pub text: TextKind, pub alloc: AllocKind, pub src: SrcKind }

impl Cfg {
    pub fn name(&self) -> String {
        format!("{:?}/{:?}/{:?}/{:?}", self.src, self.text, self.store, self.alloc)
    }
}

pub fn all_cfgs() -> Vec<Cfg> {
    use {AllocKind as A, SrcKind as S, Store as R, TextKind as X};
    let mut v = vec![];
    for a in [A::Box, A::Rc, A::Arc, A::Slice] {
        v.push(Cfg { store: R::Str, text: X::Vec, alloc: a, src: S::Text });
    }
    v.push(Cfg { store: R::Str, text: X::List, alloc: A::Slice, src: S::Text });
    v.push(Cfg { store: R::Str, text: X::Seg, alloc: A::Box, src: S::Text });
    for r in [R::RcString, R::RcBox, R::RcStr, R::ArcString, R::ArcBox, R::ArcStr] {
        for s in [S::Text, S::Chars, S::Strs] {
            v.push(Cfg { store: r, text: X::Vec, alloc: A::Box, src: s });
            v.push(Cfg { store: r, text: X::List, alloc: A::Slice, src: s });
            if r == R::RcString {
                v.push(Cfg { store: r, text: X::Vec, alloc: A::Rc, src: s });
                v.push(Cfg { store: r, text: X::Vec, alloc: A::Slice, src: s });
            }
            if r == R::ArcStr {
                v.push(Cfg { store: r, text: X::Vec, alloc: A::Arc, src: s });
            }
        }
    }
    v
}

/// The default configuration of the plain in-memory functions.
pub fn base_cfg() -> Cfg {
    Cfg { store: Store::Str, text: TextKind::Vec, alloc: AllocKind::Box, src: SrcKind::Text }
}

// ------------------------------------------------- per-storage source making

/// A string storage type, with its character-iterator source.
pub trait Storage: RefCntStrish + 'static {
    fn conv() -> fn(String) -> Self;
}
impl Storage for Rc<String> { fn conv() -> fn(String) -> Self { to_rc_string } }
impl Storage for Rc<Box<str>> { fn conv() -> fn(String) -> Self { to_rc_box_str } }
impl Storage for Rc<str> { fn conv() -> fn(String) -> Self { to_rc_str } }
impl Storage for Arc<String> { fn conv() -> fn(String) -> Self { to_arc_string } }
impl Storage for Arc<Box<str>> { fn conv() -> fn(String) -> Self { to_arc_box_str } }
impl Storage for Arc<str> { fn conv() -> fn(String) -> Self { to_arc_str } }

pub fn note_pieces<C: ChunkView>(cs: &[C], run: &mut Run) {
    run.pieces = cs.iter().map(|c| (c.sv().as_ptr() as usize, c.sv().len(), c.cpv())).collect();
}

pub fn count_alloc<A>(inner: A) -> CountAlloc<A> {
    CountAlloc { inner, log: Rc::default(), fail: FailPlan::Never }
}

pub fn keys_for<'k, DA>(job: &Job<'k>, da: &mut CountAlloc<DA>) -> Vec<DD<CountAlloc<DA>>>
    where DA: DatumAllocator<ET = i64>,
          DA::TT: Assemble<CountAlloc<DA>>, <DA::TT as Text>::Chunk: MkChunk<'k>,
{
    let mut rng = Rng::new(job.seed ^ 0x6b65_7973);
    job.macs.iter().map(|m| mk_datum(&m.key, da, &mut rng)).collect()
}

/// Parse a text value (the text itself is the source).
pub fn over_text<'k, DA>(job: &Job<'k>, prep: DA, inner: DA, run: &mut Run) -> CountAlloc<DA>
    where DA: DatumAllocator<ET = i64>,
          DA::TT: Assemble<CountAlloc<DA>> + Hash + Eq, DA::DR: Hash + Eq,
          <DA::TT as TextBase>::Pos: PosView, <DA::TT as Text>::Chunk: MkChunk<'k>,
{
    let mut da = count_alloc(prep);
    let keys = keys_for(job, &mut da);
    let st = char_starts(job.src);
    let chunks: Vec<<DA::TT as Text>::Chunk> = mk_chunks(job.src, &st, job.splits);
    note_pieces(&chunks, run);
    let text = lib(|| DA::TT::assemble(chunks, &mut da));
    drive(count_alloc(inner), text.iter(), job, keys, &Rc::default(), run)
}

pub fn over_chars<'k, DA, S>(job: &Job<'k>, prep: DA, inner: DA, run: &mut Run) -> CountAlloc<DA>
    where S: Storage,
          DA: DatumAllocator<ET = i64>,
          DA::TT: Text<Pos = CharPos, Chunk = PosStrish<S>>,
          DA::TT: Assemble<CountAlloc<DA>> + Hash + Eq, DA::DR: Hash + Eq,
{
    let mut da = count_alloc(prep);
    let keys = keys_for(job, &mut da);
    let log = Rc::new(ReadLog::default());
    let src = lib(|| CharIterSourceStream::new(Counted::new(job.src.chars(), log.clone()), S::conv()));
    drive(count_alloc(inner), src, job, keys, &log, run)
}

pub fn over_strs<'k, DA, S>(job: &Job<'k>, prep: DA, inner: DA, run: &mut Run) -> CountAlloc<DA>
    where S: Storage,
          DA: DatumAllocator<ET = i64>,
          DA::TT: Text<Pos = CharPos, Chunk = PosStrish<S>>,
          DA::TT: Assemble<CountAlloc<DA>> + Hash + Eq, DA::DR: Hash + Eq,
{
    let mut da = count_alloc(prep);
    let keys = keys_for(job, &mut da);
    let log = Rc::new(ReadLog::default());
    let st = char_starts(job.src);
    let chunks: Vec<PosStrish<S>> = mk_chunks(job.src, &st, job.splits);
    note_pieces(&chunks, run);
    // The very same buffers are handed to the stream.
    let mut strs: Vec<S> = vec![];
    let mut prev = 0;
    for (i, &c) in job.splits.iter().chain(std::iter::once(&(st.len() - 1))).enumerate() {
        let s = S::from_str(&job.src[st[prev]..st[c]]);
        let p = s.as_str();
        run.pieces[i].0 = p.as_ptr() as usize;
        prev = c;
        strs.push(s);
    }
    let hold = strs.clone();
    let src = lib(|| StrishIterSourceStream::new(Counted::new(strs.into_iter(), log.clone())));
    let r = drive(count_alloc(inner), src, job, keys, &log, run);
    drop(hold);
    r
}

pub fn node_room(job: &Job) -> usize {
    // Room for the source text's own links and the keys, built first.
    let key: usize = job.macs.iter().map(|m| key_nodes(&m.key)).sum();
    key + job.splits.len() + 2
}
pub fn key_nodes(t: &T) -> usize {
    t.nodes_below(false) + {
        let mut n = 0;
        t.texts(&mut |x| n += x.s.chars().count() + 20);
        n
    }
}

pub fn room(job: &Job) -> usize {
    let n = job.src.chars().count();
    if job.nodes == usize::MAX { (4 * n + 64) * (1 + job.reparse) + 8 * job.macs.len().min(4) * n } else { job.nodes }
}

macro_rules! slice_run {
    ($job:expr, $run:expr, $tt:ty, |$prep:ident, $da:ident| $body:expr) => {{
        let mut first: Vec<MutRefDatum<'_, $tt, i64>> = (0..node_room($job)).map(|_| Datum::EmptyNest).collect();
        let mut store: Vec<MutRefDatum<'_, $tt, i64>> = (0..room($job)).map(|_| Datum::EmptyNest).collect();
        let $prep = SliceDatumAllocator::new(&mut first[..]);
        let $da = SliceDatumAllocator::new(&mut store[..]);
        let left = $body.inner.unused().map_or(0, |s| s.len());
        $run.left = Some(left);
    }};
}

fn fresh<A: Default>() -> A { A::default() }

fn run_strish<S: Storage>(cfg: Cfg, job: &Job, run: &mut Run) {
    type TV<S> = TextVec<PosStrish<S>>;
    type TL<'d, S> = TextDatumList<'d, PosStrish<S>, i64>;
    use {AllocKind as A, SrcKind as K, TextKind as X};
    macro_rules! by_src {
        ($prep:expr, $inner:expr) => {
            match cfg.src {
                K::Text => over_text(job, $prep, $inner, run),
                K::Chars => over_chars::<_, S>(job, $prep, $inner, run),
                K::Strs => over_strs::<_, S>(job, $prep, $inner, run),
            }
        };
    }
    match (cfg.text, cfg.alloc) {
        (X::Vec, A::Box) => { by_src!(fresh(), BoxDatumAllocator::<TV<S>, i64>::default()); }
        (X::List, A::Slice) => slice_run!(job, run, TL<'_, S>, |prep, da| by_src!(prep, da)),
        _ => panic!("harness: unknown configuration"),
    }
}

pub fn run_cfg(cfg: Cfg, job: &Job) -> Run {
    use {AllocKind as A, SrcKind as K, Store as R, TextKind as X};
    let mut run = Run::default();
    let r = &mut run;
    macro_rules! by_src {
        ($s:ty, $prep:expr, $inner:expr) => {
            match cfg.src {
                K::Text => over_text(job, $prep, $inner, r),
                K::Chars => over_chars::<_, $s>(job, $prep, $inner, r),
                K::Strs => over_strs::<_, $s>(job, $prep, $inner, r),
            }
        };
    }
    match (cfg.store, cfg.text, cfg.alloc) {
        (R::Str, x, a) => {
            r.whole = Some((job.src.as_ptr() as usize, job.src.len()));
            match (x, a) {
                (X::Vec, A::Box) => { over_text(job, fresh(), BoxDatumAllocator::<TextVec<PosStr>, i64>::default(), r); }
                (X::Vec, A::Rc) => { over_text(job, fresh(), RcDatumAllocator::<TextVec<PosStr>, i64>::default(), r); }
                (X::Vec, A::Arc) => { over_text(job, fresh(), ArcDatumAllocator::<TextVec<PosStr>, i64>::default(), r); }
                (X::Vec, A::Slice) => slice_run!(job, r, TextVec<PosStr>, |prep, da| over_text(job, prep, da, r)),
                (X::List, A::Slice) => slice_run!(job, r, TextDatumList<'_, PosStr, i64>, |prep, da| over_text(job, prep, da, r)),
                (X::Seg, A::Box) => { over_text(job, fresh(), BoxDatumAllocator::<SegText<PosStr>, i64>::default(), r); }
                _ => panic!("harness: unknown configuration"),
            }
        }
        (R::RcString, X::Vec, A::Rc) => { by_src!(Rc<String>, fresh(), RcDatumAllocator::<TextVec<PosStrish<Rc<String>>>, i64>::default()); }
        (R::RcString, X::Vec, A::Slice) => slice_run!(job, r, TextVec<PosStrish<Rc<String>>>, |prep, da| by_src!(Rc<String>, prep, da)),
        (R::ArcStr, X::Vec, A::Arc) => { by_src!(Arc<str>, fresh(), ArcDatumAllocator::<TextVec<PosStrish<Arc<str>>>, i64>::default()); }
        (R::RcString, ..) => run_strish::<Rc<String>>(cfg, job, r),
        (R::RcBox, ..) => run_strish::<Rc<Box<str>>>(cfg, job, r),
        (R::RcStr, ..) => run_strish::<Rc<str>>(cfg, job, r),
        (R::ArcString, ..) => run_strish::<Arc<String>>(cfg, job, r),
        (R::ArcBox, ..) => run_strish::<Arc<Box<str>>>(cfg, job, r),
        (R::ArcStr, ..) => run_strish::<Arc<str>>(cfg, job, r),
    }
    run
}
