//! Checks of error comparison, access to nodes, release of memory and foreign
//! panics, and of parsing on several threads (C27 to C30).

use std::fmt::Debug;
use std::hash::Hash;
use std::ops::Deref;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::{self, Rc};
use std::sync::{self, Arc};

use kul::datum::{ArcDatum, BoxDatum, DatumArc, DatumBox, DatumMutRef, DatumRc, MutRefDatum, RcDatum};
use kul::parser::*;
use kul::source_stream::*;
use kul::text::chunk::{CharPos, PosStr, PosStrish, StrPos};
use kul::text::{TextDatumList, TextVec};
use kul::{Datum, DerefTryMut, Error, Parser, SourceIterItem, SourceStream, Text, TextBase, TextConcat};

use super::flow::{plain_calls, HoldAlloc};
use super::parse::{bind_kind, describe};
use crate::configs::*;
use crate::gen;
use crate::heap;
use crate::model::{self, Delims};
use crate::monsrc::MonSrc;
use crate::obs::*;
use crate::rng::{hash_str, mix, Rng};
use crate::runner::*;
use crate::wrap::{left, lib};

// ----------------------------------------------------------------------- C27

/// What an error is, apart from its types: the kind, and a key of its content.
fn kind_of<P, CE>(e: &Error<P, CE>) -> u8 {
    match e {
        Error::UnbalancedEndChar(_) => 0,
        Error::MissingEndChar => 1,
        Error::FailedAlloc(_) => 2,
        Error::FailedDerefTryMut => 3,
        Error::FailedCombiner(_) => 4,
    }
}

fn all_errors<P: Clone, CE: Clone>(ps: &[P], ces: &[CE]) -> Vec<Error<P, CE>> {
    let mut v: Vec<Error<P, CE>> = ps.iter().cloned().map(Error::UnbalancedEndChar).collect();
    v.push(Error::MissingEndChar);
    v.push(Error::FailedAlloc(AllocError::AllocExhausted));
    v.push(Error::FailedDerefTryMut);
    v.push(AllocError::AllocExhausted.into());
    v.extend(ces.iter().cloned().map(Error::FailedCombiner));
    v
}

/// All pairs of errors of two types, in both directions where possible.
fn pairs<P1, C1, P2, C2>(c: &mut Case, what: &str, a: &[Error<P1, C1>], b: &[Error<P2, C2>]) -> Result<(), String>
    where P1: PartialEq<P2> + Debug, C1: PartialEq<C2> + Debug, P2: Debug, C2: Debug,
{
    for x in a {
        for y in b {
            let want = kind_of(x) == kind_of(y) && match (x, y) {
                (Error::UnbalancedEndChar(p), Error::UnbalancedEndChar(q)) => p == q,
                (Error::FailedCombiner(p), Error::FailedCombiner(q)) => p == q,
                _ => true,
            };
            let (eq, ne) = lib(|| (x == y, x != y));
            c.eval();
            c.count(if want { "equal errors compared" } else { "different errors compared" }, 1);
            c.nontrivial(hash_str(&format!("{what}{x:?}{y:?}")));
            if eq != want || ne == want { return Err(format!("{what}: {x:?} == {y:?} is {eq}, != is {ne}; their kinds and contents are {}", if want { "equal" } else { "different" })) }
        }
    }
    Ok(())
}

/// Positions that compare with each other in ways of their own.
#[derive(Clone, Copy, Debug)]
struct Odd(u8);
#[derive(Clone, Copy, Debug)]
struct Even(u8);
impl PartialEq<Even> for Odd { fn eq(&self, o: &Even) -> bool { self.0 == o.0 + 1 } }
impl PartialEq<Odd> for Even { fn eq(&self, o: &Odd) -> bool { self.0 == o.0 } }
impl PartialEq for Odd { fn eq(&self, _: &Odd) -> bool { false } }

/// The positions themselves, so that the pairs do not rest on their comparison.
fn same_positions<P: PartialEq + Clone + Debug>(c: &mut Case, ps: &[P], same: impl Fn(&P, &P) -> bool) -> Result<(), String> {
    for p in ps {
        for q in ps {
            let want = same(p, q);
            let (x, y) = (Error::<P, ()>::UnbalancedEndChar(p.clone()), Error::<P, ()>::UnbalancedEndChar(q.clone()));
            c.eval();
            c.count("positions compared", 1);
            if (p == q) != want || (x == y) != want { return Err(format!("{p:?} == {q:?} is {}, of errors {}", p == q, x == y)) }
        }
    }
    Ok(())
}

fn error_pairs(c: &mut Case) -> Result<(), String> {
    let nums: Vec<usize> = vec![0, 1, 2, 255, 256, 65_536, u32::MAX as usize, 1 << 32, usize::MAX];
    let cps: Vec<CharPos> = nums.iter().map(|&n| CharPos(n)).collect();
    let ces = [0u32, 1, 7, u32::MAX];
    let (s, t) = (String::from("a{b}}"), String::from("a{b}}"));
    let mut sps = vec![];
    for src in [&s[..], &t[..], "", "a{b}", "x{b}}"] {
        for (byte_pos, char_pos) in [(0, 0), (1, 1), (4, 4), (5, 4), (4, 5)] { sps.push(StrPos { src, byte_pos, char_pos }) }
    }
    c.describe("all pairs of a small set of errors".into());
    match c.idx {
        0 => {
            same_positions(c, &cps, |p, q| p.0 == q.0)?;
            pairs(c, "CharPos", &all_errors(&cps, &ces), &all_errors(&cps, &ces))
        }
        1 => {
            same_positions(c, &sps, |p, q| p.src.as_bytes() == q.src.as_bytes() && p.byte_pos == q.byte_pos && p.char_pos == q.char_pos)?;
            pairs(c, "StrPos", &all_errors(&sps, &ces), &all_errors(&sps, &ces))
        }
        2 => pairs(c, "numbers and units", &all_errors(&nums, &[(), ()]), &all_errors(&nums, &[()])),
        3 => {
            let (o, e): (Vec<_>, Vec<_>) = ((0..5).map(Odd).collect(), (0..5).map(Even).collect());
            let (x, y) = (all_errors(&o, &["", "a", "ab"]), all_errors(&e, &[String::new(), "a".into(), "ab".into()]));
            pairs(c, "user positions and texts", &x, &y)?;
            pairs(c, "user positions and texts", &y, &x)?;
            pairs(c, "positions unequal to themselves", &x, &x)
        }
        4 => {
            let f = [0.0, -0.0, 1.5, f64::NAN, f64::INFINITY];
            pairs(c, "floating point contents", &all_errors(&f, &f), &all_errors(&f, &f))
        }
        _ => {
            let v: [Vec<u8>; 4] = [vec![], vec![1], vec![1, 2], vec![2]];
            let w: [&[u8]; 4] = [&[], &[1], &[1, 2], &[2]];
            pairs(c, "owned and borrowed contents", &all_errors(&v, &v), &all_errors(&w, &w))?;
            // A copy is equal.
            for e in all_errors(&cps, &ces) {
                let (a, b) = (e, Clone::clone(&e));
                c.eval();
                if a != e || b != e || kind_of(&b) != kind_of(&e) { return Err(format!("a copy of {e:?} is different")) }
            }
            let it = |ch, n| SourceIterItem { ch, pos: CharPos(n) };
            for (x, y) in [(it('a', 1), it('a', 1)), (it('a', 1), it('a', 2)), (it('a', 1), it('b', 1)), (it('\0', 0), it('\0', 0))] {
                c.eval();
                if (x == y) != (x.ch == y.ch && x.pos.0 == y.pos.0) { return Err(format!("{x:?} == {y:?} is {}", x == y)) }
            }
            Ok(())
        }
    }
}

/// Errors that parses delivered.
fn error_items(c: &mut Case) -> Result<(), String> {
    let def = Delims::default_set();
    let mk = |r: &mut Rng| { let s = gen::input(r, &def, &[], 40); if r.chance(1, 2) { s + "}" } else { s } };
    let (s1, s2) = (mk(&mut c.rng), mk(&mut c.rng));
    let s2 = if c.rng.chance(1, 2) { s1.clone() } else { s2 };
    c.describe(format!("errors of parsing {s1:?} and {s2:?}"));
    macro_rules! both {
        ($name:expr, $one:expr) => {{
            let (x, y) = ($one(&s1), $one(&s2));
            for a in &x {
                for b in &y {
                    let (Err(p), Err(q)) = (a, b) else { continue };
                    let want = obs_result(a).same_with_err_pos(&obs_result(b)) && kind_of(p) == kind_of(q) && match (p, q) {
                        (Error::UnbalancedEndChar(p), Error::UnbalancedEndChar(q)) => p.bp() == q.bp() && p.src().map(|_| &s1) == q.src().map(|_| &s2),
                        _ => true,
                    };
                    c.eval();
                    c.count("errors of parses compared", 1);
                    c.nontrivial(mix(hash_str(&s1), mix(hash_str(&s2), hash_str($name))));
                    if lib(|| p == q) != want || lib(|| p != q) == want { return Err(format!("{}: {p:?} of {s1:?} and {q:?} of {s2:?} must compare as {}", $name, if want { "equal" } else { "different" })) }
                }
            }
        }};
    }
    let most = 200;
    match c.idx % 3 {
        0 => {
            fn one(s: &str) -> Vec<Result<BoxDatum<TextVec<PosStr<'_>>, i64>, Error<StrPos<'_>, u32>>> {
                let t: TextVec<PosStr> = Text::from_str(s);
                let mut p = Parser { classifier: DefaultCharClassifier, allocator: BoxDatumAllocator::default(), bindings: mk_binds(BindKind::Empty, vec![], &[], &Rc::default()) };
                let v = lib(|| p.parse(t.iter()).take(200).collect());
                v
            }
            both!("in-memory", one)
        }
        1 => both!("strings", |s: &str| lib(|| kul::common::stream::parser::<i64, u32>(Default::default()).parse(StrishIterSourceStream::new([Rc::new(s.to_string())].into_iter())).take(most).collect::<Vec<_>>())),
        _ => both!("characters", |s: &str| lib(|| kul::common::stream::parser::<i64, u32>(Default::default()).parse(CharIterSourceStream::new(s.chars(), to_rc_string)).take(most).collect::<Vec<_>>())),
    }
    Ok(())
}

pub fn c27(ctx: &mut Ctx) {
    ctx.rule = "every pair of a set of errors over nine combinations of position and macro error types (also types whose comparison is unusual or only defined across types), and the errors of sampled parses, compared with == and != and with whether kind and content are equal; an evaluation is one judged pair; non-trivial: distinct pairs".into();
    ctx.exhaustive_note = Some("all pairs of the listed errors of each type combination".into());
    ctx.stage("pairs", 6, error_pairs);
    ctx.stage("parses", ctx.pick(60_000, 600_000), error_items);
}

// ----------------------------------------------------------------------- C28

type N<D> = Datum<u32, u32, D>;

trait Handle: DerefTryMut<Target = N<Self>> + Clone + PartialEq + Sized {
    const SHARED: bool;
    const NAME: &'static str;
    type W;
    fn make(n: N<Self>) -> Self;
    fn weak(&self) -> Option<Self::W>;
    fn addr(&self) -> usize { &**self as *const N<Self> as usize }
}
impl Handle for DatumBox<u32, u32> {
    const SHARED: bool = false;
    const NAME: &'static str = "Box";
    type W = ();
    fn make(n: BoxDatum<u32, u32>) -> Self { DatumBox::new(n) }
    fn weak(&self) -> Option<()> { None }
}
impl Handle for DatumRc<u32, u32> {
    const SHARED: bool = true;
    const NAME: &'static str = "Rc";
    type W = rc::Weak<RcDatum<u32, u32>>;
    fn make(n: RcDatum<u32, u32>) -> Self { DatumRc::new(n) }
    fn weak(&self) -> Option<Self::W> { Some(Rc::downgrade(&self.0)) }
}
impl Handle for DatumArc<u32, u32> {
    const SHARED: bool = true;
    const NAME: &'static str = "Arc";
    type W = sync::Weak<ArcDatum<u32, u32>>;
    fn make(n: ArcDatum<u32, u32>) -> Self { DatumArc::new(n) }
    fn weak(&self) -> Option<Self::W> { Some(Arc::downgrade(&self.0)) }
}

/// The model of a node: its kind, label and children in the arena.
#[derive(Clone, Debug)]
struct M { kind: u8, label: u32, kids: Vec<usize>, owners: usize, weaks: usize }

struct World<D: Handle> {
    arena: Vec<M>,
    handles: Vec<(D, usize)>,
    weaks: Vec<(D::W, usize)>,
}

fn matches_model<D: Handle>(n: &N<D>, arena: &[M], i: usize) -> bool {
    let m = &arena[i];
    match (n, m.kind) {
        (Datum::Text(x), 0) | (Datum::Extra(x), 1) => *x == m.label,
        (Datum::EmptyNest, 2) | (Datum::EmptyList, 3) => true,
        (Datum::Combination { operator: a, operands: b }, 4) | (Datum::List { elem: a, next: b }, 5) =>
            matches_model(&**a, arena, m.kids[0]) && matches_model(&**b, arena, m.kids[1]),
        _ => false,
    }
}

impl<D: Handle> World<D> {
    fn node(&mut self, kind: u8, label: u32, kids: Vec<usize>) -> usize {
        self.arena.push(M { kind, label, kids, owners: 0, weaks: 0 });
        self.arena.len() - 1
    }
    fn release(&mut self, i: usize) {
        let mut todo = vec![i];
        while let Some(i) = todo.pop() {
            self.arena[i].owners -= 1;
            if self.arena[i].owners == 0 { todo.extend(self.arena[i].kids.clone()) }
        }
    }
    /// A copy of the node in the model; for unshared references a deep one.
    fn copy(&mut self, i: usize) -> usize {
        let m = self.arena[i].clone();
        let kids = if D::SHARED { m.kids.clone() } else { m.kids.iter().map(|&k| self.copy(k)).collect() };
        if D::SHARED { for &k in &kids { self.arena[k].owners += 1 } } else { for &k in &kids { self.arena[k].owners = 1 } }
        self.node(m.kind, m.label, kids)
    }
    fn grow(&mut self, rng: &mut Rng) {
        let label = rng.below(4) as u32;
        let kind = rng.below(6) as u8;
        if kind < 4 || self.handles.len() < 2 {
            let kind = kind.min(3);
            let d = match kind { 0 => Datum::Text(label), 1 => Datum::Extra(label), 2 => Datum::EmptyNest, _ => Datum::EmptyList };
            let i = self.node(kind, label, vec![]);
            self.arena[i].owners = 1;
            let h = D::make(d);
            self.handles.push((h, i));
        } else {
            let (a, i) = self.handles.swap_remove(rng.below(self.handles.len()));
            let (b, j) = self.handles.swap_remove(rng.below(self.handles.len()));
            let d = if kind == 4 { Datum::Combination { operator: a, operands: b } } else { Datum::List { elem: a, next: b } };
            let k = self.node(kind, 0, vec![i, j]);
            self.arena[k].owners = 1;
            self.handles.push((D::make(d), k));
        }
    }
    /// Goes down a random path as far as nodes can be modified, and modifies.
    fn modify(&mut self, rng: &mut Rng, c: &mut Case) -> Result<(), String> {
        let h = rng.below(self.handles.len());
        let mut i = self.handles[h].1;
        let depth = rng.below(5);
        let arena = &mut self.arena;
        let mut cur: &mut D = &mut self.handles[h].0;
        let mut level = 0;
        loop {
            let free = arena[i].owners == 1 && arena[i].weaks == 0;
            let addr = cur.addr();
            let got = lib(|| <D as DerefTryMut>::get_mut(cur));
            c.eval();
            c.count(if free { "accesses to nodes only this reference refers to" } else { "accesses to nodes others refer to" }, 1);
            let Some(n) = got else {
                if free { return Err(format!("{}: a node with {} owners and {} weak references cannot be modified", D::NAME, arena[i].owners, arena[i].weaks)) }
                return Ok(());
            };
            if !free { return Err(format!("{}: a node with {} owners and {} weak references can be modified", D::NAME, arena[i].owners, arena[i].weaks)) }
            if n as *const N<D> as usize != addr { return Err(format!("{}: what can be modified is not the node referred to", D::NAME)) }
            match n {
                Datum::Text(x) | Datum::Extra(x) => { *x += 1; arena[i].label += 1; return Ok(()) }
                Datum::Combination { operator: a, operands: b } | Datum::List { elem: a, next: b } => {
                    if level == depth {
                        std::mem::swap(a, b);
                        arena[i].kids.swap(0, 1);
                        return Ok(());
                    }
                    let right = rng.chance(1, 2);
                    cur = if right { b } else { a };
                    i = arena[i].kids[usize::from(right)];
                    level += 1;
                }
                n @ (Datum::EmptyNest | Datum::EmptyList) => {
                    *n = Datum::Text(9);
                    arena[i] = M { kind: 0, label: 9, kids: vec![], ..arena[i] };
                    return Ok(());
                }
            }
        }
    }
    fn judge(&self, c: &mut Case) -> Result<(), String> {
        for (h, i) in &self.handles {
            c.eval();
            if !matches_model(&**h, &self.arena, *i) { return Err(format!("{}: a tree is not what was put together, modified and copied", D::NAME)) }
        }
        Ok(())
    }
}

fn handles_case<D: Handle>(c: &mut Case) -> Result<(), String> {
    let mut rng = c.rng.clone();
    let mut w = World::<D> { arena: vec![], handles: vec![], weaks: vec![] };
    let steps = rng.range(4, 60);
    c.describe(format!("{}: {steps} random operations on trees", D::NAME));
    let mut trace = 0;
    for _ in 0..steps {
        let op = if w.handles.is_empty() { 0 } else { rng.below(10) };
        trace = mix(trace, op as u64);
        match op {
            0..=3 => w.grow(&mut rng),
            4 | 5 => w.modify(&mut rng, c)?,
            6 => {
                // Another reference to the same, or for unshared ones a copy.
                let k = rng.below(w.handles.len());
                let i = w.handles[k].1;
                let h = lib(|| w.handles[k].0.clone());
                c.count("references cloned", 1);
                if h != w.handles[k].0 { return Err(format!("{}: a clone is not equal", D::NAME)) }
                if (h.addr() == w.handles[k].0.addr()) != D::SHARED { return Err(format!("{}: a clone of a reference {} its node", D::NAME, if D::SHARED { "does not share" } else { "shares" })) }
                let j = if D::SHARED { i } else { w.copy(i) };
                if D::SHARED { w.arena[i].owners += 1 } else { w.arena[j].owners = 1 }
                w.handles.push((h, j));
            }
            7 => {
                // A copy of the node itself.
                let k = rng.below(w.handles.len());
                let i = w.handles[k].1;
                let n: N<D> = lib(|| (*w.handles[k].0).clone());
                c.count("nodes cloned", 1);
                if n != *w.handles[k].0 { return Err(format!("{}: a clone of a node is not equal", D::NAME)) }
                let j = w.copy(i);
                w.arena[j].owners = 1;
                w.handles.push((D::make(n), j));
            }
            8 => {
                let k = rng.below(w.handles.len());
                let i = w.handles[k].1;
                if D::SHARED && rng.chance(2, 3) {
                    if rng.chance(1, 3) && !w.weaks.is_empty() {
                        let (x, i) = w.weaks.swap_remove(rng.below(w.weaks.len()));
                        drop(x);
                        w.arena[i].weaks -= 1;
                    } else {
                        w.weaks.push((w.handles[k].0.weak().unwrap(), i));
                        w.arena[i].weaks += 1;
                    }
                }
            }
            _ => {
                let (h, i) = w.handles.swap_remove(rng.below(w.handles.len()));
                lib(|| drop(h));
                w.release(i);
            }
        }
        w.judge(c)?;
    }
    c.nontrivial(mix(trace, rng.next()));
    c.max("nodes in the model", w.arena.len() as u64);
    Ok(())
}

/// One node with given numbers of references.
fn counted_case<D: Handle>(c: &mut Case, strong: usize, weak: usize) -> Result<(), String> {
    let mut h = D::make(Datum::Extra(1));
    let mut more: Vec<D> = vec![];
    for i in 0..strong { let x = if i % 2 == 0 { &h } else { more.last().unwrap() }.clone(); more.push(x) }
    let mut weaks: Vec<D::W> = (0..weak).filter_map(|i| if i % 2 == 0 { Some(&h) } else { more.last().or(Some(&h)) }.and_then(Handle::weak)).collect();
    loop {
        let free = !D::SHARED || more.is_empty() && weaks.is_empty();
        for k in 0..=more.len().min(3) {
            let d = if k == 0 { &mut h } else { &mut more[k - 1] };
            let addr = d.addr();
            let got = lib(|| <D as DerefTryMut>::get_mut(d).map(|n| n as *const N<D> as usize));
            c.eval();
            c.count(if free { "accesses to nodes only this reference refers to" } else { "accesses to nodes others refer to" }, 1);
            if got != free.then_some(addr) { return Err(format!("{}: with {} more owners and {} weak references the node {} be modified", D::NAME, more.len(), weaks.len(), if free { "cannot" } else { "can" })) }
        }
        c.nontrivial(mix(hash_str(D::NAME), (more.len() as u64) << 32 | weaks.len() as u64));
        if more.is_empty() && weaks.is_empty() { break }
        if !more.is_empty() && (weaks.is_empty() || c.rng.chance(1, 2)) { more.swap_remove(c.rng.below(more.len())); } else { weaks.swap_remove(c.rng.below(weaks.len())); }
    }
    *<D as DerefTryMut>::get_mut(&mut h).ok_or("the only reference does not give access")? = Datum::Text(5);
    if !matches!(*h, Datum::Text(5)) { return Err(format!("{}: a modification was lost", D::NAME)) }
    Ok(())
}

/// A reference type of the user: shared, never modifiable.
#[derive(Clone, Copy)]
struct Lent<'d>(&'d Datum<u32, u32, Lent<'d>>);
impl<'d> Deref for Lent<'d> { type Target = Datum<u32, u32, Lent<'d>>; fn deref(&self) -> &Self::Target { self.0 } }
impl DerefTryMut for Lent<'_> { fn get_mut(_: &mut Self) -> Option<&mut Self::Target> { None } }

fn borrowed_case(c: &mut Case) -> Result<(), String> {
    let (x, y) = (c.rng.below(9) as u32, c.rng.below(9) as u32);
    c.describe(format!("borrowed nodes with {x} and {y}"));
    let (mut a, mut b): (MutRefDatum<u32, u32>, MutRefDatum<u32, u32>) = (Datum::Text(x), Datum::Extra(y));
    let (pa, pb) = (&a as *const _ as usize, &b as *const _ as usize);
    let mut top: MutRefDatum<u32, u32> = Datum::List { elem: DatumMutRef(&mut a), next: DatumMutRef(&mut b) };
    let Datum::List { elem, next } = &mut top else { unreachable!() };
    c.evals(4);
    if !matches!(**elem, Datum::Text(n) if n == x) || !matches!(**next, Datum::Extra(n) if n == y) { return Err("a borrowed node reads differently through its reference".into()) }
    let got = (DerefTryMut::get_mut(elem).map(|n| n as *const _ as usize), DerefTryMut::get_mut(next).map(|n| n as *const _ as usize));
    if got != (Some(pa), Some(pb)) { return Err("a mutable borrow does not give access to its node".into()) }
    *DerefTryMut::get_mut(elem).unwrap() = Datum::EmptyNest;
    **next = Datum::Extra(y + 1);
    if !matches!(**elem, Datum::EmptyNest) || !matches!(**next, Datum::Extra(n) if n == y + 1) { return Err("a modification through a mutable borrow was lost".into()) }
    let (l, m) = (Datum::Text(x), Datum::Extra(y));
    let d: Datum<u32, u32, Lent> = Datum::Combination { operator: Lent(&l), operands: Lent(&m) };
    let (e, f) = (d, Clone::clone(&d));
    let own: BoxDatum<u32, u32> = Datum::Combination { operator: DatumBox::new(Datum::Text(x)), operands: DatumBox::new(Datum::Extra(y)) };
    if e != d || f != d || e != own || own != f { return Err("a copy of a tree of lent nodes is not equal".into()) }
    let Datum::Combination { operator, operands } = f else { return Err("a copy of a pair is not a pair".into()) };
    if operator.0 as *const _ != &l as *const _ || operands.0 as *const _ != &m as *const _ { return Err("a copy of a lent reference refers to another node".into()) }
    c.nontrivial(mix(x.into(), y.into()));
    Ok(())
}

pub fn c28(ctx: &mut Ctx) {
    ctx.rule = "histories of putting trees together, cloning references and nodes, making and dropping weak references, modifying along random paths and dropping, for the three heap reference types against a model with reference counts; nodes with every combination of up to 12 further owners and weak references released in random order; borrowed nodes; an evaluation is one judged access or tree; non-trivial: distinct histories and count combinations".into();
    ctx.exhaustive_note = Some("numbers of further owners and of weak references, each 0 to 12".into());
    ctx.stage("counts", 3 * 13 * 13 * ctx.pick(4, 40), |c| {
        let (s, w) = ((c.idx / 3 % 13) as usize, (c.idx / 39 % 13) as usize);
        c.describe(format!("a node with {s} more owners and {w} weak references"));
        match c.idx % 3 { 0 => counted_case::<DatumBox<_, _>>(c, s, w), 1 => counted_case::<DatumRc<_, _>>(c, s, w), _ => counted_case::<DatumArc<_, _>>(c, s, w) }
    });
    ctx.stage("many-owners", ctx.pick(24, 240), |c| {
        let (s, w) = (c.rng.size(70_000), c.rng.size(70_000));
        c.describe(format!("a node with {s} more owners and {w} weak references"));
        match c.idx % 2 { 0 => counted_case::<DatumRc<_, _>>(c, s, w), _ => counted_case::<DatumArc<_, _>>(c, s, w) }
    });
    ctx.stage("histories", ctx.pick(300_000, 3_000_000), |c| match c.idx % 3 {
        0 => handles_case::<DatumBox<_, _>>(c),
        1 => handles_case::<DatumRc<_, _>>(c),
        _ => handles_case::<DatumArc<_, _>>(c),
    });
    ctx.stage("borrowed", ctx.pick(2_000, 20_000), borrowed_case);
}

// ----------------------------------------------------------------------- C29

/// Runs `f` and returns the bytes it requested and how many of them (or of
/// what was there before) are left over.
fn balance<R>(f: impl FnOnce() -> R) -> (R, u64, i64) {
    let (m, l) = (heap::mark(), heap::live_bytes());
    let r = f();
    (r, heap::mark().1 - m.1, heap::live_bytes() - l)
}

fn released(c: &mut Case, what: &str, bytes: u64, left: i64) -> Result<(), String> {
    c.eval();
    c.count("bytes requested and released", bytes);
    if left != 0 { return Err(format!("{what}: {left} bytes are not released although everything is gone")) }
    Ok(())
}

fn release_case(c: &mut Case, cfgs: &[Cfg]) -> Result<(), String> {
    let def = Delims::default_set();
    let cfg = cfgs[c.idx as usize % cfgs.len()];
    let (macs, heads) = if c.rng.chance(2, 3) { gen::macros(&mut c.rng, &def, false) } else { (vec![], vec![]) };
    let s = gen::input(&mut c.rng, &def, &heads, 90);
    let n = s.chars().count();
    let sp = gen::splits(&mut c.rng, n);
    let mut job = Job::plain(&s, &sp, &def);
    job.macs = &macs;
    if !macs.is_empty() { job.bind = bind_kind(&mut c.rng) }
    job.seed = c.rng.next();
    match c.rng.below(4) { 0 => job.fail = FailPlan::From(c.rng.below(n + 4)), 1 => job.fail = FailPlan::OneIn(c.rng.range(1, 6), c.rng.next()), _ => {} }
    if c.rng.chance(1, 3) { job.stop_after = c.rng.below(6) }
    if c.rng.chance(1, 6) { job.nodes = c.rng.below(2 * n + 2) }
    if c.rng.chance(1, 6) { job.reparse = 1 }
    c.describe(describe(&job, Some(cfg)));
    let ((errs, abandoned), bytes, left) = balance(|| {
        let r = run_cfg(cfg, &job);
        (r.items.iter().filter(|i| i.is_err()).count() as u64, u64::from(r.items.len() >= job.stop_after))
    });
    c.count("errors in these parses", errs);
    c.count("parses abandoned", abandoned);
    c.nontrivial(mix(hash_str(&s), mix(c.idx, job.seed)));
    released(c, &cfg.name(), bytes, left)
}

/// Parses with a fuse set, then again without, by the same parser.  Returns
/// whether the panic came back, and what the parses delivered.
fn panicky<DA, S>(da: CountAlloc<DA>, mut mk: impl FnMut() -> S, job: &Job, keys: Vec<Datum<DA::TT, i64, DA::DR>>, fuse: Option<(At, u64)>, inside: bool) -> (Option<bool>, Vec<Item>, Vec<Item>, [u64; 6])
    where DA: DatumAllocator<ET = i64>, DA::TT: TextConcat<CountAlloc<DA>> + Hash + Eq, DA::DR: Hash + Eq,
          <DA::TT as TextBase>::Pos: PosView, <DA::TT as Text>::Chunk: ChunkView, S: SourceStream<CountAlloc<DA>>,
{
    let log = Rc::default();
    let bindings = mk_binds(job.bind, keys, job.macs, &log);
    let n = job.src.chars().count();
    let mut parser = Parser { classifier: Cls::new(job.delims, 16 * n + 64), allocator: da, bindings };
    let mut outer = vec![];
    let mut before = vec![];
    let src = mk();
    arm(fuse);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut inner = vec![];
        let kept = if inside { &mut inner } else { &mut outer };
        let mut it = lib(|| parser.parse(src));
        while let Some(r) = lib(|| it.next()) {
            before.push(obs_result(&r));
            kept.push(r);
            if kept.len() > n + 8 { break }
        }
    }));
    let counts = AT.map(passed);
    let fired = fuse.is_some() && !armed();
    arm(None);
    left();
    let came = match r {
        Ok(()) => fuse.map(|_| !fired),
        Err(p) if p.is::<Planted>() => Some(true),
        Err(p) => resume_unwind(p),
    };
    lib(|| drop(outer));
    let mut after = vec![];
    {
        let src = mk();
        let mut it = lib(|| parser.parse(src));
        while let Some(r) = lib(|| it.next()) {
            after.push(obs_result(&r));
            if after.len() > n + 8 { break }
        }
    }
    (came, before, after, counts)
}

#[derive(Clone, Copy, Debug)]
enum Way { TextBox, TextRc, TextArc, TextSeg, TextSlice, ListSlice, CharsBox, CharsRc, StrsArc, StrsSlice, MonBox }
const WAYS: [Way; 11] = [Way::TextBox, Way::TextRc, Way::TextArc, Way::TextSeg, Way::TextSlice, Way::ListSlice, Way::CharsBox, Way::CharsRc, Way::StrsArc, Way::StrsSlice, Way::MonBox];

fn one_way(way: Way, job: &Job, fuse: Option<(At, u64)>, inside: bool) -> (Option<bool>, Vec<Item>, Vec<Item>, [u64; 6]) {
    fn text<'k, DA>(job: &Job<'k>, prep: DA, inner: DA, fuse: Option<(At, u64)>, inside: bool) -> (Option<bool>, Vec<Item>, Vec<Item>, [u64; 6])
        where DA: DatumAllocator<ET = i64>, DA::TT: Assemble<CountAlloc<DA>> + Hash + Eq, DA::DR: Hash + Eq,
              <DA::TT as TextBase>::Pos: PosView, <DA::TT as Text>::Chunk: MkChunk<'k>,
    {
        let mut da = count_alloc(prep);
        let keys = keys_for(job, &mut da);
        let text = DA::TT::assemble(mk_chunks(job.src, &char_starts(job.src), job.splits), &mut da);
        panicky(count_alloc(inner), || text.iter(), job, keys, fuse, inside)
    }
    fn chars<'k, DA, S>(job: &Job<'k>, prep: DA, inner: DA, fuse: Option<(At, u64)>, inside: bool) -> (Option<bool>, Vec<Item>, Vec<Item>, [u64; 6])
        where S: Storage, DA: DatumAllocator<ET = i64>, DA::TT: Text<Pos = CharPos, Chunk = PosStrish<S>>,
              DA::TT: Assemble<CountAlloc<DA>> + Hash + Eq, DA::DR: Hash + Eq,
    {
        let keys = keys_for(job, &mut count_alloc(prep));
        panicky(count_alloc(inner), || CharIterSourceStream::new(Counted::new(job.src.chars(), Rc::default()), S::conv()), job, keys, fuse, inside)
    }
    fn strs<'k, DA, S>(job: &Job<'k>, prep: DA, inner: DA, fuse: Option<(At, u64)>, inside: bool) -> (Option<bool>, Vec<Item>, Vec<Item>, [u64; 6])
        where S: Storage, DA: DatumAllocator<ET = i64>, DA::TT: Text<Pos = CharPos, Chunk = PosStrish<S>>,
              DA::TT: Assemble<CountAlloc<DA>> + Hash + Eq, DA::DR: Hash + Eq,
    {
        let keys = keys_for(job, &mut count_alloc(prep));
        let st = char_starts(job.src);
        let mut strs: Vec<S> = vec![];
        let mut prev = 0;
        for &c in job.splits.iter().chain(std::iter::once(&(st.len() - 1))) { strs.push(S::from_str(&job.src[st[prev]..st[c]])); prev = c }
        panicky(count_alloc(inner), || StrishIterSourceStream::new(Counted::new(strs.clone().into_iter(), Rc::default())), job, keys, fuse, inside)
    }
    macro_rules! sliced {
        ($tt:ty, $f:expr) => {{
            let mut first: Vec<MutRefDatum<'_, $tt, i64>> = (0..node_room(job)).map(|_| Datum::EmptyNest).collect();
            let mut store: Vec<MutRefDatum<'_, $tt, i64>> = (0..2 * room(job)).map(|_| Datum::EmptyNest).collect();
            $f(job, SliceDatumAllocator::new(&mut first[..]), SliceDatumAllocator::new(&mut store[..]), fuse, inside)
        }};
    }
    match way {
        Way::TextBox => text(job, BoxDatumAllocator::<TextVec<PosStr>, i64>::default(), Default::default(), fuse, inside),
        Way::TextRc => text(job, RcDatumAllocator::<TextVec<PosStrish<Rc<str>>>, i64>::default(), Default::default(), fuse, inside),
        Way::TextArc => text(job, ArcDatumAllocator::<TextVec<PosStr>, i64>::default(), Default::default(), fuse, inside),
        Way::TextSeg => text(job, BoxDatumAllocator::<SegText<PosStr>, i64>::default(), Default::default(), fuse, inside),
        Way::TextSlice => sliced!(TextVec<PosStr>, text),
        Way::ListSlice => sliced!(TextDatumList<'_, PosStrish<Arc<str>>, i64>, text),
        Way::CharsBox => chars::<_, Rc<String>>(job, BoxDatumAllocator::<TextVec<PosStrish<Rc<String>>>, i64>::default(), Default::default(), fuse, inside),
        Way::CharsRc => chars::<_, Arc<Box<str>>>(job, RcDatumAllocator::<TextVec<PosStrish<Arc<Box<str>>>>, i64>::default(), Default::default(), fuse, inside),
        Way::StrsArc => strs::<_, Arc<str>>(job, ArcDatumAllocator::<TextVec<PosStrish<Arc<str>>>, i64>::default(), Default::default(), fuse, inside),
        Way::StrsSlice => sliced!(TextDatumList<'_, PosStrish<Rc<Box<str>>>, i64>, strs::<_, Rc<Box<str>>>),
        Way::MonBox => {
            let keys = keys_for(job, &mut count_alloc(BoxDatumAllocator::<TextVec<PosStr>, i64>::default()));
            panicky(count_alloc(BoxDatumAllocator::<TextVec<PosStr>, i64>::default()), || MonSrc::new(job.src, job.delims, FailPlan::Never, 0, false), job, keys, fuse, inside)
        }
    }
}

fn panic_case(c: &mut Case) -> Result<(), String> {
    let def = Delims::default_set();
    let way = WAYS[c.idx as usize % WAYS.len()];
    let (macs, heads) = if c.rng.chance(4, 5) { gen::macros(&mut c.rng, &def, false) } else { (vec![], vec![]) };
    let s = gen::input(&mut c.rng, &def, &heads, 60);
    let cs: Vec<char> = s.chars().collect();
    let sp = gen::splits(&mut c.rng, cs.len());
    let mut job = Job::plain(&s, &sp, &def);
    job.macs = &macs;
    if !macs.is_empty() { job.bind = bind_kind(&mut c.rng) }
    job.seed = c.rng.next();
    let text = format!("{way:?} {}", describe(&job, None));
    c.describe(format!("{text}\nno panic"));
    let expect = model::expected(&cs, &def, &macs).items;
    let (m, l) = (heap::mark(), heap::live_bytes());
    let (_, all, again, counts) = one_way(way, &job, None, true);
    if same_items(&expect, &all).is_some() || same_items(&expect, &again).is_some() { return Err(format!("without a panic the same parser delivered {} and then {}, expected {}", brief_items(&all), brief_items(&again), brief_items(&expect))) }
    drop((all, again));
    released(c, "without a panic", heap::mark().1 - m.1, heap::live_bytes() - l)?;
    let mut points: Vec<(At, u64)> = vec![];
    for (at, n) in AT.into_iter().zip(counts) {
        if n <= 6 { points.extend((0..n).map(|k| (at, k))) } else { for _ in 0..6 { points.push((at, c.rng.below(n as usize) as u64)) } }
    }
    for (at, k) in points {
        let inside = c.rng.chance(1, 2);
        c.describe(format!("{text}\npanic in {at:?} call {k}, results kept {}", if inside { "by the unwound code" } else { "outside" }));
        let (m, l) = (heap::mark(), heap::live_bytes());
        let (came, before, after, _) = one_way(way, &job, Some((at, k)), inside);
        c.count(&format!("panics raised in {at:?}"), 1);
        c.nontrivial(mix(mix(hash_str(&s), job.seed), mix(at as u64, k)));
        if came == Some(false) { return Err(format!("a panic raised in {at:?} did not reach the caller")) }
        if before.len() > expect.len() || same_items(&expect[..before.len()], &before).is_some() { return Err(format!("before the panic the parser delivered {}, expected the first of {}", brief_items(&before), brief_items(&expect))) }
        if same_items(&expect, &after).is_some() { return Err(format!("after a panic in {at:?} the same parser delivered {}, expected {}", brief_items(&after), brief_items(&expect))) }
        drop((before, after));
        let left = heap::live_bytes() - l;
        released(c, &format!("after a panic in {at:?}"), heap::mark().1 - m.1, left)?;
    }
    Ok(())
}

pub fn c29(ctx: &mut Ctx) {
    ctx.rule = "sampled parses over every provided type combination, complete and abandoned, with failing and unmodifiable nodes and failing macros, and the one-call functions: bytes the thread has requested and not released must be the same before and after; parses in which user code (classifier, allocator, source, macro, hasher, text) panics at an enumerated or sampled call: the panic must come back to the caller, the process must survive, what was delivered before must be right, everything be released, and the same parser give the right results afterwards; an evaluation is one balance; non-trivial: distinct inputs and panic points".into();
    ctx.level = "fault_enumeration";
    let cfgs = all_cfgs();
    let def = Delims::default_set();
    ctx.stage("released", ctx.pick(400_000, 3_000_000), |c| release_case(c, &cfgs));
    ctx.stage("released-unmodifiable", ctx.pick(60_000, 500_000), |c| {
        let (macs, heads) = gen::macros(&mut c.rng, &def, false);
        let s = gen::input(&mut c.rng, &def, &heads, 60);
        let sp = gen::splits(&mut c.rng, s.chars().count());
        let mut job = Job::plain(&s, &sp, &def);
        job.macs = &macs;
        job.bind = bind_kind(&mut c.rng);
        job.seed = c.rng.next();
        let plan = FailPlan::OneIn(c.rng.range(1, 5), c.rng.next());
        let forget = c.rng.chance(1, 2);
        c.describe(format!("{}\nallocator keeps references per {plan:?}, forgets {forget}", describe(&job, None)));
        let (_, bytes, left) = balance(|| {
            let mut r = Run::default();
            macro_rules! go { ($a:ty) => {{ over_text(&job, HoldAlloc::new(<$a>::default(), FailPlan::Never, false), HoldAlloc::new(<$a>::default(), plan.clone(), forget), &mut r); }} }
            if c.idx % 2 == 0 { go!(RcDatumAllocator<TextVec<PosStr>, i64>) } else { go!(ArcDatumAllocator<TextVec<PosStrish<Arc<str>>>, i64>) }
        });
        c.nontrivial(mix(hash_str(&s), job.seed));
        released(c, "with unmodifiable nodes", bytes, left)
    });
    ctx.stage("one-call", ctx.pick(30_000, 300_000), |c| {
        let s = gen::input(&mut c.rng, &def, &[], 80);
        c.describe_aside(|| format!("{s:?} by the one-call functions"));
        let (r, bytes, left) = balance(|| plain_calls(c, &s));
        r?;
        released(c, "one-call functions", bytes, left)
    });
    ctx.stage("panics", ctx.pick(64_000, 640_000), panic_case);
    ctx.stage("large", ctx.pick(48, 480), |c| {
        let cfg = cfgs[c.rng.below(cfgs.len())];
        let (s, sp) = gen::long(&mut c.rng, &def);
        let mut job = Job::plain(&s, &sp, &def);
        job.seed = c.rng.next();
        if c.rng.chance(1, 3) { job.stop_after = c.rng.size(2000) }
        if c.rng.chance(1, 3) { job.fail = FailPlan::From(c.rng.size(4 * s.len())) }
        c.describe_aside(|| format!("{} with a long input of {} bytes, seed {}", cfg.name(), s.len(), job.seed));
        let (_, bytes, left) = balance(|| drop(run_cfg(cfg, &job)));
        c.max("bytes requested by one parse", bytes);
        c.nontrivial(mix(hash_str(&s), job.seed));
        released(c, &cfg.name(), bytes, left)
    });
}
