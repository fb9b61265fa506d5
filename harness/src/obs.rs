//! Normalised observations: plain values that any tree, text or error of any
//! provided type is turned into, with positions and chunk addresses.

use std::ops::Deref;
use kul::{Datum, DerefTryMut, Error, Text, TextBase};
use kul::text::chunk::{CharPos, PosStr, PosStrish, RefCntStrish, StrPos};

pub const NOPOS: usize = usize::MAX;

/// View of a source position.
pub trait PosView {
    fn cp(&self) -> usize;
    fn bp(&self) -> usize { NOPOS }
    fn src(&self) -> Option<(usize, usize)> { None }
}
impl PosView for CharPos {
    fn cp(&self) -> usize { self.0 }
}
impl PosView for StrPos<'_> {
    fn cp(&self) -> usize { self.char_pos }
    fn bp(&self) -> usize { self.byte_pos }
    fn src(&self) -> Option<(usize, usize)> { Some((self.src.as_ptr() as usize, self.src.len())) }
}

/// View of a text chunk.
pub trait ChunkView {
    fn sv(&self) -> &str;
    fn cpv(&self) -> usize;
    fn bpv(&self) -> usize { NOPOS }
}
impl ChunkView for PosStr<'_> {
    fn sv(&self) -> &str { self.val }
    fn cpv(&self) -> usize { self.pos.char_pos }
    fn bpv(&self) -> usize { self.pos.byte_pos }
}
impl<S: RefCntStrish> ChunkView for PosStrish<S> {
    fn sv(&self) -> &str { self.val.as_ref() }
    fn cpv(&self) -> usize { self.pos.0 }
}

/// View of a payload of the application.
pub trait ExtraView { fn ev(&self) -> i64; }
impl ExtraView for i64 { fn ev(&self) -> i64 { *self } }
impl ExtraView for () { fn ev(&self) -> i64 { 0 } }

/// View of an error of a macro.
pub trait ErrView { fn ec(&self) -> u32; }
impl ErrView for u32 { fn ec(&self) -> u32 { *self } }
impl ErrView for () { fn ec(&self) -> u32 { 0 } }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ck {
    pub ptr: usize,
    pub len: usize,
    pub cpos: usize,
    pub bpos: usize,
}

/// An observed (or expected) text.  Expected ones only have `s` and `cpos`.
#[derive(Clone, Debug, Default)]
pub struct Tx {
    pub s: String,
    pub cpos: Vec<usize>,
    pub bpos: Vec<usize>,
    pub srcs: Vec<(usize, usize)>,
    pub chunks: Vec<Ck>,
}

impl Tx {
    pub fn push(&mut self, c: char, pos: usize) {
        self.s.push(c);
        self.cpos.push(pos);
    }
    pub fn plain(s: &str) -> Self {
        Tx { s: s.into(), ..Tx::default() }
    }
}

/// An observed (or expected) tree.
#[derive(Clone, Debug)]
pub enum T {
    Text(Tx),
    Comb(Box<T>, Box<T>),
    EmptyNest,
    /// Elements, and the tail when it is not an empty list.
    List(Vec<T>, Option<Box<T>>),
    EmptyList,
    Extra(i64),
}

impl T {
    pub fn text(s: &str) -> T { T::Text(Tx::plain(s)) }
    pub fn list(v: Vec<T>) -> T {
        if v.is_empty() { T::EmptyList } else { T::List(v, None) }
    }
    pub fn comb(a: T, b: T) -> T { T::Comb(Box::new(a), Box::new(b)) }

    /// Same structure, same characters.
    pub fn same(&self, o: &T) -> bool {
        match (self, o) {
            (T::Text(a), T::Text(b)) => a.s == b.s,
            (T::Comb(a1, a2), T::Comb(b1, b2)) => a1.same(b1) && a2.same(b2),
            (T::EmptyNest, T::EmptyNest) | (T::EmptyList, T::EmptyList) => true,
            (T::List(a, at), T::List(b, bt)) =>
                a.len() == b.len()
                && a.iter().zip(b).all(|(x, y)| x.same(y))
                && match (at, bt) {
                    (None, None) => true,
                    (Some(x), Some(y)) => x.same(y),
                    _ => false,
                },
            (T::Extra(a), T::Extra(b)) => a == b,
            _ => false,
        }
    }

    /// Calls `f` on every text, in document order.
    pub fn texts<'a>(&'a self, f: &mut dyn FnMut(&'a Tx)) {
        match self {
            T::Text(t) => f(t),
            T::Comb(a, b) => { a.texts(f); b.texts(f) }
            T::List(v, t) => {
                for x in v { x.texts(f) }
                if let Some(t) = t { t.texts(f) }
            }
            _ => {}
        }
    }

    /// (text leaves, nests, list elements, max nest depth)
    pub fn shape(&self) -> (usize, usize, usize, usize) {
        match self {
            T::Text(_) => (1, 0, 0, 0),
            T::Comb(a, b) => {
                let (a, b) = (a.shape(), b.shape());
                (a.0 + b.0, a.1 + b.1 + 1, a.2 + b.2, a.3.max(b.3) + 1)
            }
            T::EmptyNest => (0, 1, 0, 1),
            T::List(v, t) => {
                let mut r = (0, 0, v.len(), 0);
                for x in v.iter().chain(t.iter().map(|b| &**b)) {
                    let s = x.shape();
                    r = (r.0 + s.0, r.1 + s.1, r.2 + s.2, r.3.max(s.3));
                }
                r
            }
            _ => (0, 0, 0, 0),
        }
    }

    /// Number of tree nodes below (not counting the root value itself), plus
    /// one per text chunk beyond the first when `count_links`.
    pub fn nodes_below(&self, count_links: bool) -> usize {
        match self {
            T::Text(t) => if count_links { t.chunks.len().saturating_sub(1) } else { 0 },
            T::Comb(a, b) => 2 + a.nodes_below(count_links) + b.nodes_below(count_links),
            T::List(v, t) =>
                v.iter().map(|x| 2 + x.nodes_below(count_links)).sum::<usize>()
                + t.as_ref().map_or(0, |t| t.nodes_below(count_links)),
            _ => 0,
        }
    }

    pub fn brief(&self) -> String {
        let mut s = String::new();
        self.fmt_into(&mut s, 400);
        s
    }
    fn fmt_into(&self, o: &mut String, lim: usize) {
        if o.len() > lim { o.push('…'); return }
        match self {
            T::Text(t) => {
                let c: String = t.s.chars().take(60).collect();
                o.push_str(&format!("{c:?}"));
                if !t.cpos.is_empty() && t.cpos.len() <= 8 { o.push_str(&format!("@{:?}", t.cpos)) }
            }
            T::Comb(a, b) => { o.push_str("Comb("); a.fmt_into(o, lim); o.push_str(" , "); b.fmt_into(o, lim); o.push(')') }
            T::EmptyNest => o.push_str("EmptyNest"),
            T::EmptyList => o.push_str("EmptyList"),
            T::Extra(n) => o.push_str(&format!("Extra({n})")),
            T::List(v, t) => {
                o.push('[');
                for x in v {
                    x.fmt_into(o, lim);
                    if o.len() > lim { break }
                    o.push(' ');
                }
                o.push(']');
                if let Some(t) = t { o.push('.'); t.fmt_into(o, lim) }
            }
        }
    }
}

/// An observed (or expected) item of a parse.
#[derive(Clone, Debug)]
pub enum Item {
    Ok(T),
    Unbalanced { cp: usize, bp: usize, src: Option<(usize, usize)> },
    Missing,
    Alloc,
    NotMutable,
    Macro(u32),
    /// The iteration yielded something after having finished.
    AfterEnd,
    /// The iteration yielded more items than the input has characters.
    Overrun,
}

impl Item {
    pub fn is_err(&self) -> bool { !matches!(self, Item::Ok(_)) }
    pub fn kind(&self) -> &'static str {
        match self {
            Item::Ok(_) => "form",
            Item::Unbalanced { .. } => "unbalanced-end",
            Item::Missing => "missing-end",
            Item::Alloc => "alloc-error",
            Item::NotMutable => "not-mutable",
            Item::Macro(_) => "macro-error",
            Item::AfterEnd => "after-end",
            Item::Overrun => "overrun",
        }
    }
    /// Same content; error positions not compared.
    pub fn same(&self, o: &Item) -> bool {
        match (self, o) {
            (Item::Ok(a), Item::Ok(b)) => a.same(b),
            (Item::Macro(a), Item::Macro(b)) => a == b,
            (Item::Ok(_), _) | (Item::Macro(_), _) => false,
            _ => self.kind() == o.kind(),
        }
    }
    /// As `same`, and the positions of unbalanced ends agree.
    pub fn same_with_err_pos(&self, o: &Item) -> bool {
        match (self, o) {
            (Item::Unbalanced { cp: a, .. }, Item::Unbalanced { cp: b, .. }) => a == b,
            _ => self.same(o),
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Item::Ok(t) => t.brief(),
            Item::Unbalanced { cp, bp, .. } if *bp == NOPOS => format!("Err(unbalanced end at char {cp})"),
            Item::Unbalanced { cp, bp, .. } => format!("Err(unbalanced end at char {cp} byte {bp})"),
            Item::Macro(n) => format!("Err(macro {n})"),
            x => format!("Err({})", x.kind()),
        }
    }
}

pub fn brief_items(v: &[Item]) -> String {
    let mut o = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if o.len() > 1500 { o.push_str(&format!(" … {} items", v.len())); break }
        if i > 0 { o.push_str("; ") }
        o.push_str(&x.brief());
    }
    o.push(']');
    o
}

pub fn same_items(a: &[Item], b: &[Item]) -> Option<usize> {
    let n = a.len().max(b.len());
    (0..n).find(|&i| match (a.get(i), b.get(i)) {
        (Some(x), Some(y)) => !x.same(y),
        _ => true,
    })
}

pub fn obs_text<TT>(t: &TT) -> Tx
    where TT: Text, TT::Pos: PosView, TT::Chunk: ChunkView,
{
    let mut x = Tx::default();
    for it in t.iter() {
        x.s.push(it.ch);
        x.cpos.push(it.pos.cp());
        let b = it.pos.bp();
        if b != NOPOS {
            x.bpos.push(b);
            x.srcs.push(it.pos.src().unwrap_or((0, 0)));
        }
    }
    for c in t.iter_chunks() {
        let s = c.sv();
        x.chunks.push(Ck { ptr: s.as_ptr() as usize, len: s.len(), cpos: c.cpv(), bpos: c.bpv() });
    }
    x
}

pub fn obs_datum<TT, ET, DR>(d: &Datum<TT, ET, DR>) -> T
    where TT: Text, TT::Pos: PosView, TT::Chunk: ChunkView, ET: ExtraView,
          DR: DerefTryMut<Target = Datum<TT, ET, DR>>,
{
    match d {
        Datum::Text(t) => T::Text(obs_text(t)),
        Datum::Combination { operator, operands } =>
            T::comb(obs_datum(Deref::deref(operator)), obs_datum(Deref::deref(operands))),
        Datum::EmptyNest => T::EmptyNest,
        Datum::EmptyList => T::EmptyList,
        Datum::Extra(n) => T::Extra(n.ev()),
        Datum::List { .. } => {
            let mut v = vec![];
            let mut cur = d;
            loop {
                match cur {
                    Datum::List { elem, next } => {
                        v.push(obs_datum(Deref::deref(elem)));
                        cur = Deref::deref(next);
                    }
                    Datum::EmptyList => return T::List(v, None),
                    other => return T::List(v, Some(Box::new(obs_datum(other)))),
                }
            }
        }
    }
}

pub fn obs_result<TT, ET, DR, P, CE>(r: &Result<Datum<TT, ET, DR>, Error<P, CE>>) -> Item
    where TT: Text<Pos = P>, P: PosView + kul::SourcePosition, TT::Chunk: ChunkView,
          TT: TextBase<Pos = P>, ET: ExtraView, CE: ErrView,
          DR: DerefTryMut<Target = Datum<TT, ET, DR>>,
{
    match r {
        Ok(d) => Item::Ok(obs_datum(d)),
        Err(Error::UnbalancedEndChar(p)) => Item::Unbalanced { cp: p.cp(), bp: p.bp(), src: p.src() },
        Err(Error::MissingEndChar) => Item::Missing,
        Err(Error::FailedAlloc(_)) => Item::Alloc,
        Err(Error::FailedDerefTryMut) => Item::NotMutable,
        Err(Error::FailedCombiner(n)) => Item::Macro(n.ec()),
    }
}
