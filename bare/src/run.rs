// One parse with only the core crate's provided types, written out byte by byte.
// Included both by the freestanding program and by the monitors.

use core::cmp::Ordering;
use core::hash::{Hash, Hasher};

use kul_core::datum::premade::{DatumMutRef, MutRefDatum};
use kul_core::parser::premade::{DefaultCharClassifier, EmptyOperatorBindings, PairOperatorBindings, SliceDatumAllocator};
use kul_core::parser::{AllocError, DatumAllocator};
use kul_core::premade::inmem;
use kul_core::text::chunk::premade::{PosStr, StrPos};
use kul_core::text::premade::TextDatumList;
use kul_core::{Combiner, Datum, Error, Parser, Text, TextBase, TextConcat};

pub type TL<'i, 'a> = TextDatumList<'a, PosStr<'i>, i64>;
pub type Node<'i, 'a> = MutRefDatum<'a, TL<'i, 'a>, i64>;
pub type Alloc<'i, 'a> = SliceDatumAllocator<'a, TL<'i, 'a>, i64>;
type Res<'i, 'a> = Result<Node<'i, 'a>, Error<StrPos<'i>, u32>>;
type MacRes<'i, 'a> = Result<Option<Node<'i, 'a>>, Error<StrPos<'i>, u32>>;

pub const KEPT: usize = 40;
pub const MAX_NODES: usize = 3000;
/// The ways of parsing `run` knows.
pub const MODES: u8 = 5;

pub struct Out<'o> { pub buf: &'o mut [u8], pub len: usize, pub full: bool }

impl Out<'_> {
    pub fn byte(&mut self, b: u8) {
        if self.len < self.buf.len() { self.buf[self.len] = b; self.len += 1 } else { self.full = true }
    }
    pub fn str(&mut self, s: &str) { for b in s.bytes() { self.byte(b) } }
    pub fn num(&mut self, n: i64) {
        if n < 0 { self.byte(b'-') }
        let mut x = n.unsigned_abs();
        let mut d = [0u8; 20];
        let mut i = 20;
        loop { i -= 1; d[i] = b'0' + (x % 10) as u8; x /= 10; if x == 0 { break } }
        for k in i..20 { self.byte(d[k]) }
    }
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn write(&mut self, b: &[u8]) { for &c in b { self.0 = (self.0 ^ u64::from(c)).wrapping_mul(0x100_0000_01b3) } }
    fn finish(&self) -> u64 { self.0 }
}
fn hash_of(h: &impl Hash) -> u64 {
    let mut f = Fnv(0xcbf2_9ce4_8422_2325);
    h.hash(&mut f);
    f.finish()
}

fn put_text(t: &TL<'_, '_>, src: &str, out: &mut Out<'_>) {
    out.byte(b'"');
    for it in t.iter() {
        let (ch, pos): (char, StrPos<'_>) = (it.ch, it.pos);
        out.num(i64::from(u32::from(ch)));
        out.byte(b'@');
        out.num(pos.char_pos as i64);
        out.byte(b'/');
        out.num(pos.byte_pos as i64);
        if pos.src.as_ptr() != src.as_ptr() || pos.src.len() != src.len() { out.str("!foreign") }
        out.byte(b' ');
    }
    out.byte(b'"');
}

fn put(d: &Node<'_, '_>, src: &str, out: &mut Out<'_>) {
    match d {
        Datum::Text(t) => put_text(t, src, out),
        Datum::EmptyNest => out.str("{}"),
        Datum::EmptyList => out.str("()"),
        Datum::Extra(n) => { out.byte(b'#'); out.num(*n) }
        Datum::Combination { operator, operands } => {
            out.byte(b'{');
            put(operator, src, out);
            out.byte(b'|');
            put(operands, src, out);
            out.byte(b'}');
        }
        Datum::List { .. } => {
            out.byte(b'(');
            let mut cur = d;
            while let Datum::List { elem, next } = cur {
                put(elem, src, out);
                out.byte(b',');
                cur = next;
            }
            if !matches!(cur, Datum::EmptyList) { out.byte(b'.'); put(cur, src, out) }
            out.byte(b')');
        }
    }
}

fn put_res(r: &Res<'_, '_>, src: &str, out: &mut Out<'_>) {
    match r {
        Ok(d) => put(d, src, out),
        Err(Error::UnbalancedEndChar(p)) => {
            out.str("unbalanced@");
            out.num(p.char_pos as i64);
            out.byte(b'/');
            out.num(p.byte_pos as i64);
        }
        Err(Error::MissingEndChar) => out.str("missing"),
        Err(Error::FailedAlloc(AllocError::AllocExhausted)) => out.str("exhausted"),
        Err(Error::FailedDerefTryMut) => out.str("immutable"),
        Err(Error::FailedCombiner(n)) => { out.str("macro "); out.num(i64::from(*n)) }
    }
}

/// What is done with the results afterwards: comparing, hashing, ordering,
/// exporting and concatenating.
fn examine<'i, 'a>(kept: &mut [Option<Res<'i, 'a>>; KEPT], src: &str, da: &mut Alloc<'i, 'a>, out: &mut Out<'_>) {
    for i in 0..KEPT {
        let Some(Ok(a)) = &kept[i] else { continue };
        // The first equal one, and whether it hashes equally.
        let mut first = i;
        for j in 0..i {
            if let Some(Ok(b)) = &kept[j] { if a == b && b == a { first = j; break } }
        }
        out.str("\neq ");
        out.num(first as i64);
        if let Some(Ok(b)) = &kept[first] { if hash_of(a) != hash_of(b) { out.str(" unequal hashes") } }
    }
    let mut last: Option<&TL<'_, '_>> = None;
    for k in kept.iter() {
        let Some(Ok(Datum::Text(t))) = k else { continue };
        if let Some(l) = last {
            out.str("\ncmp ");
            out.str(match Text::cmp(l, t) { Ordering::Less => "<", Ordering::Equal => "=", Ordering::Greater => ">" });
            if Ord::cmp(l, t) != Text::cmp(l, t) { out.str(" or differently") }
            if Text::eq(l, t) { out.str(" eq") }
        }
        out.str("\nexport ");
        let mut buf = [b'~'; 11];
        let (ok, n) = match t.encode_utf8(&mut buf) { Ok(s) => (true, s.len()), Err(s) => (false, s.len()) };
        out.str(if ok { "all " } else { "part " });
        for &b in &buf[..n] { out.num(i64::from(b)); out.byte(b' ') }
        for &b in &buf[n..] { if b != b'~' { out.str("overwritten ") } }
        if t.is_empty() { out.str("empty") }
        last = Some(t);
    }
    // Concatenate the first two texts.
    let mut two: [Option<TL<'i, 'a>>; 2] = [None, None];
    for k in kept.iter_mut() {
        if !matches!(k, Some(Ok(Datum::Text(_)))) { continue }
        let Some(Ok(Datum::Text(t))) = k.take() else { continue };
        if two[0].is_none() { two[0] = Some(t) } else if two[1].is_none() { two[1] = Some(t) }
    }
    if let [Some(a), Some(b)] = two {
        out.str("\nconcat ");
        match a.concat(b, da) { Ok(t) => put_text(&t, src, out), Err(_) => out.str("exhausted") }
    }
}

fn remove<'i, 'a>(_: Node<'i, 'a>, _: Node<'i, 'a>, _: &mut Alloc<'i, 'a>) -> MacRes<'i, 'a> { Ok(None) }
fn operands<'i, 'a>(_: Node<'i, 'a>, o: Node<'i, 'a>, _: &mut Alloc<'i, 'a>) -> MacRes<'i, 'a> { Ok(Some(o)) }
fn raw<'i, 'a>(_: Node<'i, 'a>, t: TL<'i, 'a>, _: &mut Alloc<'i, 'a>) -> MacRes<'i, 'a> { Ok(Some(Datum::Text(t))) }
fn fail<'i, 'a>(_: Node<'i, 'a>, _: Node<'i, 'a>, _: &mut Alloc<'i, 'a>) -> MacRes<'i, 'a> { Err(Error::FailedCombiner(7)) }
fn value<'i, 'a>(_: Node<'i, 'a>, _: Node<'i, 'a>, _: &mut Alloc<'i, 'a>) -> MacRes<'i, 'a> { Ok(Some(Datum::Extra(5))) }
fn rebuild<'i, 'a>(op: Node<'i, 'a>, o: Node<'i, 'a>, da: &mut Alloc<'i, 'a>) -> MacRes<'i, 'a> {
    Ok(Some(Datum::Combination { operator: da.new_datum(op)?, operands: da.new_datum(o)? }))
}

/// Parses `src` with `nodes` tree nodes in the given way and writes everything
/// that can be seen of the results.
pub fn run(src: &str, mode: u8, nodes: usize, out: &mut Out<'_>) {
    let mut store: [Node<'_, '_>; MAX_NODES] = core::array::from_fn(|_| Datum::EmptyNest);
    let mut key: [Node<'_, '_>; 3] = [Datum::Text(TextDatumList::from_str("f")), Datum::EmptyList, Datum::Extra(5)];
    let [f, el, five] = &mut key;
    let mut other: [Node<'_, '_>; 1] = [Datum::EmptyList];
    let nodes = if nodes > MAX_NODES { MAX_NODES } else { nodes };
    let room = &mut store[..nodes];
    let pairs: [inmem::BindingsPair<'_, '_, '_, i64, u32>; 9] = [
        (Datum::Text(TextDatumList::from_str("rm")), Combiner::Applicative(&remove)),
        (Datum::Text(TextDatumList::from_str("raw")), Combiner::Operative(&raw)),
        (Datum::Text(TextDatumList::from_str("ops")), Combiner::Applicative(&operands)),
        (Datum::Text(TextDatumList::from_str("bad")), Combiner::Applicative(&fail)),
        (Datum::Text(TextDatumList::from_str("v")), Combiner::Applicative(&value)),
        (Datum::Text(TextDatumList::from_str("re")), Combiner::Applicative(&rebuild)),
        (Datum::Combination { operator: DatumMutRef(f), operands: DatumMutRef(el) }, Combiner::Operative(&raw)),
        (Datum::EmptyNest, Combiner::Applicative(&rebuild)),
        (Datum::List { elem: DatumMutRef(five), next: DatumMutRef(&mut other[0]) }, Combiner::Applicative(&value)),
    ];
    let mut kept: [Option<Res<'_, '_>>; KEPT] = core::array::from_fn(|_| None);
    let text = TL::from_str(src);
    let cap = src.len() + 4;
    macro_rules! steps {
        ($it:expr) => {{
            let mut it = $it;
            let mut n = 0;
            while let Some(r) = it.next() {
                out.str("\nitem ");
                put_res(&r, src, out);
                if n < KEPT { kept[n] = Some(r) }
                n += 1;
                if n > cap { out.str("\nendless"); break }
            }
            if it.next().is_some() { out.str("\nmore after the end") }
        }};
    }
    macro_rules! finish {
        ($parser:ident) => {{
            let mut da = $parser.allocator;
            examine(&mut kept, src, &mut da, out);
            out.str("\nleft ");
            out.num(da.unused().map_or(0, |s| s.len()) as i64);
        }};
    }
    match mode {
        0 => {
            // No bindings; its errors carry no macro error.
            let mut p = Parser { classifier: DefaultCharClassifier, allocator: SliceDatumAllocator::new(room), bindings: EmptyOperatorBindings };
            steps!(p.parse(text.iter()).map(|r| r.map_err(|e| match e {
                Error::UnbalancedEndChar(p) => Error::UnbalancedEndChar(p),
                Error::MissingEndChar => Error::MissingEndChar,
                Error::FailedAlloc(a) => Error::FailedAlloc(a),
                Error::FailedDerefTryMut => Error::FailedDerefTryMut,
                Error::FailedCombiner(()) => Error::FailedCombiner(0),
            })));
            finish!(p);
        }
        1 => {
            let mut p = Parser { classifier: DefaultCharClassifier, allocator: SliceDatumAllocator::new(room), bindings: PairOperatorBindings::new(&pairs[..]) };
            steps!(p.parse(text.iter()));
            finish!(p);
        }
        2 => {
            let mut p = inmem::parser(room, &pairs[..]);
            steps!(inmem::parse_text_with(&text, &mut p));
            finish!(p);
        }
        3 => {
            let mut p = inmem::parser(room, &[]);
            steps!(p.parse(text.iter()));
            finish!(p);
        }
        _ => {
            // The first half, then the whole, with the same parser; the source
            // of the second parse is made of two pieces.
            let mut cut = src.len() / 2;
            while !src.is_char_boundary(cut) { cut -= 1 }
            let at = src[..cut].chars().count();
            let mut p = inmem::parser(room, &pairs[..]);
            let a = PosStr { val: &src[..cut], pos: StrPos { src, byte_pos: 0, char_pos: 0 } };
            let b = PosStr { val: &src[cut..], pos: StrPos { src, byte_pos: cut, char_pos: at } };
            let half = TL::from(a);
            steps!(p.parse(half.iter()));
            kept = core::array::from_fn(|_| None);
            let whole = match TL::from(a).concat(TL::from(b), &mut p.allocator) {
                Ok(t) => t,
                Err(_) => { out.str("\nno room for the source"); return }
            };
            steps!(p.parse(whole.iter()));
            finish!(p);
        }
    }
}
