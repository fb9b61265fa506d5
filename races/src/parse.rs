//! Parsing on several threads at once, over shared texts, and reading, handing
//! over and dropping the results.  Only the standard library and the crate
//! under test are used, so that it runs natively, under a sanitizer, and
//! interpreted.

use std::collections::HashMap;
use std::collections::hash_map::RandomState;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};

use kul::combiner::{ApFn, OpFn};
use kul::datum::{ArcDatum, BoxDatum};
use kul::parser::*;
use kul::source_stream::*;
use kul::text::chunk::{CharPos, PosStr, PosStrish, StrPos};
use kul::text::{TextDatumList, TextVec};
use kul::{Combiner, Datum, DerefTryMut, Error, Parser, SourceStream, Text, TextBase, TextConcat};

use super::work::Rng;

#[derive(Clone)]
pub struct Params { pub threads: usize, pub chars: usize, pub steps: usize, pub on_start: fn(u64) }

#[derive(Clone, Copy, Debug, Default)]
pub struct Stats { pub rounds: u64, pub parses: u64, pub forms: u64, pub handed_over: u64, pub comparisons: u64, pub macro_calls: u64, pub at_once: u64 }

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.rounds += o.rounds; self.parses += o.parses; self.forms += o.forms; self.handed_over += o.handed_over;
        self.comparisons += o.comparisons; self.macro_calls += o.macro_calls; self.at_once = self.at_once.max(o.at_once);
    }
}

/// Shared between threads whatever the type says; what the types say is
/// observed separately.
pub struct Force<T>(pub T);
// SAFETY: that this is sound is what the race detectors decide.
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

/// Which types can be sent to and shared with other threads.
pub fn marks() -> Vec<(&'static str, bool, bool)> {
    use std::marker::PhantomData;
    struct Is<T: ?Sized>(PhantomData<T>);
    trait Not { const SEND: bool = false; const SYNC: bool = false; }
    impl<T: ?Sized> Not for Is<T> {}
    // The inherent constants are found first where their bounds hold.
    #[allow(dead_code)]
    impl<T: ?Sized + Send> Is<T> { const SEND: bool = true; }
    #[allow(dead_code)]
    impl<T: ?Sized + Sync> Is<T> { const SYNC: bool = true; }
    macro_rules! all { ($($t:ty),* $(,)?) => { vec![$((stringify!($t), Is::<$t>::SEND, Is::<$t>::SYNC)),*] } }
    type S = Arc<str>;
    struct Probe<'a, T>(#[allow(dead_code)] &'a T);
    trait Yes { fn send(&self) -> bool { true } }
    #[allow(dead_code)]
    trait No { fn send(&self) -> bool { false } }
    impl<T: Send> Yes for Probe<'_, T> {}
    impl<T> No for &Probe<'_, T> {}
    let mut v = all![
        CharPos, StrPos<'static>, PosStr<'static>, PosStrish<S>, PosStrish<Arc<String>>, PosStrish<Arc<Box<str>>>,
        TextVec<PosStr<'static>>, TextVec<PosStrish<S>>, TextDatumList<'static, PosStr<'static>, u8>,
        BoxDatum<TextVec<PosStr<'static>>, u8>, ArcDatum<TextVec<PosStrish<S>>, u8>,
        Error<CharPos, u8>, Error<StrPos<'static>, u8>, AllocError,
        DefaultCharClassifier, EmptyOperatorBindings, SliceDatumAllocator<'static, TextVec<PosStr<'static>>, u8>,
    ];
    // Of sources it matters that they can be sent.
    let t: TextVec<PosStrish<S>> = Text::from_str("a");
    let chars = CharIterSourceStream::new("a".chars(), to_arc_str as fn(String) -> S);
    let strs: StrishIterSourceStream<_, TextVec<PosStrish<S>>> = StrishIterSourceStream::new(vec![S::from("a")].into_iter());
    let text = t.iter();
    v.push(("a source of characters", (&Probe(&chars)).send(), true));
    v.push(("a source of strings", (&Probe(&strs)).send(), true));
    v.push(("a source over a text", (&Probe(&text)).send(), true));
    v
}

/// Writes a tree so that equal writing means equal trees, with positions.
fn write<TT, DR>(d: &Datum<TT, u8, DR>, pos: &dyn Fn(&TT::Pos) -> usize, o: &mut String)
    where TT: Text, DR: DerefTryMut<Target = Datum<TT, u8, DR>>,
{
    match d {
        Datum::Text(t) => for i in t.iter() { o.push_str(&format!("{}@{} ", i.ch as u32, pos(&i.pos))) },
        Datum::Combination { operator, operands } => { o.push('('); write(&**operator, pos, o); o.push('|'); write(&**operands, pos, o); o.push(')') }
        Datum::List { .. } => {
            o.push('[');
            let mut cur = d;
            while let Datum::List { elem, next } = cur { write(&**elem, pos, o); o.push(','); cur = &**next }
            o.push(';');
            write(cur, pos, o);
            o.push(']');
        }
        Datum::EmptyNest => o.push_str("{}"),
        Datum::EmptyList => o.push_str("()"),
        Datum::Extra(x) => o.push_str(&format!("#{x}")),
    }
}

fn write_item<TT, DR>(r: &Result<Datum<TT, u8, DR>, Error<TT::Pos, u8>>, pos: &dyn Fn(&TT::Pos) -> usize, o: &mut String)
    where TT: Text, DR: DerefTryMut<Target = Datum<TT, u8, DR>>,
{
    match r {
        Ok(d) => write(d, pos, o),
        Err(Error::UnbalancedEndChar(p)) => o.push_str(&format!("!{}", pos(p))),
        Err(Error::MissingEndChar) => o.push_str("!missing"),
        Err(Error::FailedAlloc(_)) => o.push_str("!alloc"),
        Err(Error::FailedDerefTryMut) => o.push_str("!mut"),
        Err(Error::FailedCombiner(n)) => o.push_str(&format!("!macro {n}")),
    }
    o.push('\n');
}

type Or<DA> = Box<OpFn<DA, u8>>;
type Ar<DA> = Box<ApFn<DA, u8>>;

/// A parse by a parser of its own, with two macros.
fn parse<DA, S>(da: DA, src: S, pos: &dyn Fn(&<DA::TT as TextBase>::Pos) -> usize, most: usize, calls: &mut u64) -> (String, Vec<Datum<DA::TT, u8, DA::DR>>)
    where DA: DatumAllocator<ET = u8>, DA::TT: TextConcat<DA> + std::hash::Hash + Eq, DA::DR: std::hash::Hash + Eq, S: SourceStream<DA>,
          <DA::TT as Text>::Chunk: From<&'static str>,
{
    let n = Arc::new(AtomicUsize::new(0));
    let (n1, n2) = (n.clone(), n.clone());
    let mut map: HashMap<Datum<DA::TT, u8, DA::DR>, Combiner<Or<DA>, Ar<DA>>, RandomState> = HashMap::default();
    map.insert(Datum::Text(DA::TT::from_str("m")), Combiner::Applicative(Box::new(move |operator, operands, da| {
        n1.fetch_add(1, Relaxed);
        let end = da.new_datum(Datum::EmptyList)?;
        let elem = da.new_datum(operator)?;
        Ok(Some(Datum::Combination { operator: da.new_datum(operands)?, operands: da.new_datum(Datum::List { elem, next: end })? }))
    })));
    map.insert(Datum::Text(DA::TT::from_str("r")), Combiner::Operative(Box::new(move |_, text, _| {
        n2.fetch_add(1, Relaxed);
        if text.iter().any(|i| i.ch == 'z') { return Err(Error::FailedCombiner(7)) }
        Ok(if text.is_empty() { None } else { Some(Datum::Text(text)) })
    })));
    let mut p = Parser { classifier: DefaultCharClassifier, allocator: da, bindings: HashMapOperatorBindings::new(map) };
    let mut out = String::new();
    let mut kept = vec![];
    for (i, r) in p.parse(src).enumerate() {
        write_item(&r, pos, &mut out);
        if let Ok(d) = r { kept.push(d) }
        if i > most { out.push_str("unending"); break }
    }
    *calls += n.load(Relaxed) as u64;
    (out, kept)
}

type At = TextVec<PosStrish<Arc<str>>>;
type Tree = ArcDatum<At, u8>;

/// What all threads share in a round.
struct Shared { s: String, pieces: Vec<Arc<str>>, text: Force<At>, text2: Force<TextVec<PosStrish<Arc<str>>>>, want: String, forms: Vec<String>, most: usize }

const WAYS: usize = 5;

/// One parse of the shared source, in one of several ways.
fn one(sh: &Shared, way: usize, st: &mut Stats) -> (String, Vec<Force<Tree>>) {
    let cp = |p: &CharPos| p.0;
    let sp = |p: &StrPos| p.char_pos;
    let mut calls = 0;
    let force = |(o, v): (String, Vec<Tree>)| (o, v.into_iter().map(Force).collect());
    let r = match way {
        0 => force(parse(ArcDatumAllocator::<At, u8>::default(), sh.text.0.iter(), &cp, sh.most, &mut calls)),
        1 => force(parse(ArcDatumAllocator::<At, u8>::default(), CharIterSourceStream::new(sh.s.chars(), to_arc_str), &cp, sh.most, &mut calls)),
        2 => force(parse(ArcDatumAllocator::<At, u8>::default(), StrishIterSourceStream::new(sh.pieces.iter().cloned()), &cp, sh.most, &mut calls)),
        3 => {
            let t: TextVec<PosStr> = Text::from_str(&sh.s);
            (parse(BoxDatumAllocator::<TextVec<PosStr>, u8>::default(), t.iter(), &sp, sh.most, &mut calls).0, vec![])
        }
        _ => force(parse(ArcDatumAllocator::<At, u8>::default(), sh.text2.0.iter(), &cp, sh.most, &mut calls)),
    };
    st.parses += 1;
    st.macro_calls += calls;
    st.forms += r.1.len() as u64;
    r
}

fn source(rng: &mut Rng, n: usize) -> String {
    let parts = ["a", "b ", "{", "}", "{m ", "{r ", "z", "\\{", "é", "\n", "{m}", "{x y}", "{{a}b}", "}", "}"];
    let mut s = String::new();
    match rng.below(5) {
        // Deep nests, closed, left open, or closed too often.
        0 => {
            let heads = ["{", "{a ", "{m ", "{é{b}", "{r "];
            let k = rng.below(heads.len() - 1);
            let deep = 1 + n / 3;
            for i in 0..deep { s.push_str(heads[if rng.below(4) == 0 { rng.below(4) } else { k }]); if i % 7 == 6 { s.push_str("b ") } }
            let ends = match rng.below(3) { 0 => deep, 1 => deep + 2, _ => deep - 1 - rng.below(deep.min(5)) };
            for i in 0..ends { s.push('}'); if i % 5 == 4 { s.push('c') } }
        }
        // Long texts with escapes.
        1 => while s.chars().count() < n { s.push_str(["long é text ", "\\{", "\\\\", "\u{1F600}"][rng.below(4)]) },
        // Many ends without a start.
        2 => while s.chars().count() < n { s.push_str(["}", "a", "a}b", "{x}"][rng.below(4)]) },
        _ => while s.chars().count() < n { s.push_str(parts[rng.below(parts.len())]) },
    }
    s
}

fn pieces(rng: &mut Rng, s: &str) -> Vec<Arc<str>> {
    let cs: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < cs.len() {
        let k = 1 + rng.below(6).min(cs.len() - i - 1);
        v.push(cs[i..i + k].iter().collect::<String>().into());
        i += k;
    }
    v
}

fn text_of(ps: &[Arc<str>]) -> At {
    let mut da = ArcDatumAllocator::<At, u8>::default();
    let mut at = 0;
    let mut t = At::empty();
    for p in ps {
        let chunk = PosStrish::new(p.clone(), CharPos(at));
        at += p.chars().count();
        t = t.concat(TextVec::from(chunk), &mut da).expect("concatenation without limit");
    }
    t
}

/// One case: the threads parse at the same time, and read, hand over, compare
/// and drop each other's results.
pub fn case(seed: u64, p: &Params) -> Result<Stats, String> {
    let mut rng = Rng::new(seed);
    let mut st = Stats::default();
    let forms = |v: &[Force<Tree>]| { let mut o = vec![]; for d in v { let mut s = String::new(); write(&d.0, &|p: &CharPos| p.0, &mut s); o.push(s) } o };
    let sources = 1 + rng.below(3);
    let mut shared = vec![];
    for k in 0..sources {
        let len = if k == 0 { p.chars } else { 1 + rng.below(p.chars + 1) };
        let s = source(&mut rng, len);
        let ps = pieces(&mut rng, &s);
        let ps2 = pieces(&mut rng, &s);
        let mut sh = Shared { most: s.chars().count() + 8, text: Force(text_of(&ps)), text2: Force(text_of(&ps2)), pieces: ps, s, want: String::new(), forms: vec![] };
        // Alone, in one way.
        let (want, trees) = one(&sh, 0, &mut st);
        sh.want = want;
        // The forms among the items, as each way must give them.
        sh.forms = forms(&trees);
        shared.push(sh);
    }
    let shared = &shared;
    let now = AtomicUsize::new(0);
    let bag: Mutex<Vec<(usize, usize, Force<Arc<Vec<Force<Tree>>>>)>> = Mutex::new(vec![]);
    let all: Mutex<(Stats, Option<String>)> = Mutex::new((st, None));
    std::thread::scope(|sc| {
        for k in 0..p.threads {
            let (now, bag, all) = (&now, &bag, &all);
            let mut rng = Rng::new(seed ^ (k as u64 + 1) << 40);
            sc.spawn(move || {
                (p.on_start)(rng.next());
                let mut st = Stats::default();
                let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
                    for _ in 0..p.steps {
                        let way = rng.below(WAYS);
                        let which = rng.below(shared.len());
                        let sh = &shared[which];
                        st.at_once = st.at_once.max(now.fetch_add(1, AcqRel) as u64 + 1);
                        let (got, trees) = one(sh, way, &mut st);
                        now.fetch_sub(1, AcqRel);
                        if got != sh.want { return Err(format!("source {:?}: way {way} on a thread gave\n{got}\nalone it was\n{}", sh.s, sh.want)) }
                        if !trees.is_empty() {
                            let t = Arc::new(trees);
                            bag.lock().unwrap().push((k, which, Force(t.clone())));
                            if rng.below(2) == 0 && forms(&t) != sh.forms { return Err("a tree reads differently after it was handed out".into()) }
                        }
                        let other = { let mut b = bag.lock().unwrap(); if b.is_empty() { None } else { let i = rng.below(b.len()); if rng.below(2) == 0 { Some(b.swap_remove(i)) } else { Some((b[i].0, b[i].1, Force((b[i].2).0.clone()))) } } };
                        if let Some((from, which, t)) = other {
                            let sh = &shared[which];
                            if from != k { st.handed_over += 1 }
                            if forms(&t.0) != sh.forms { return Err(format!("source {:?}: a tree of thread {from} reads differently on thread {k}", sh.s)) }
                            let (mine, _) = (one(sh, 2, &mut st).1, ());
                            for (a, b) in mine.iter().zip(t.0.iter()) {
                                st.comparisons += 1;
                                if a.0 != b.0 || b.0 != a.0 { return Err("equal trees of two threads compare as different".into()) }
                            }
                        }
                    }
                    Ok(())
                }));
                let bad = match r { Ok(Ok(())) => None, Ok(Err(m)) => Some(m), Err(e) => Some(format!("a thread panicked: {}", e.downcast_ref::<String>().map(String::as_str).or(e.downcast_ref::<&str>().copied()).unwrap_or("?"))) };
                let mut g = all.lock().unwrap();
                g.0.add(&st);
                if bad.is_some() { g.1 = bad }
            });
        }
    });
    drop(bag);
    let (mut st, bad) = all.into_inner().unwrap();
    st.rounds = 1;
    match bad { Some(m) => Err(m), None => Ok(st) }
}
