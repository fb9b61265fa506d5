//! Checks of dropping: stack, completeness, and the reusable algorithm
//! (C16, C17, C22).

use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::ops::{Deref, DerefMut};
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use std::sync::Arc;

use kul::datum::{DatumArc, DatumBox, DatumRc};
use kul::drop::{algo1, Algo1DatumRef, RcLike, RcLikeAtomicCounts};
use kul::{Datum, DerefTryMut};

use super::texts::on_small_stack;
use crate::heap;
use crate::rng::{hash_str, mix, Rng};
use crate::runner::*;
use crate::wrap::lib;

// ----------------------------------------------------------------- payloads

#[derive(Debug)]
struct Ledger { drops: Vec<AtomicU32>, garbled: AtomicU32 }

impl Ledger {
    fn new(n: usize) -> Arc<Self> { Arc::new(Ledger { drops: (0..n).map(|_| AtomicU32::new(0)).collect(), garbled: AtomicU32::new(0) }) }
    fn count(&self, i: usize) -> u32 { self.drops[i].load(Relaxed) }
}

/// A payload that accounts for its destruction.
#[derive(Debug)]
struct Tok { id: u32, inner: Box<u32>, led: Arc<Ledger> }

const MAGIC: u32 = 0x5eed_cafe;

impl Tok { fn new(id: usize, led: &Arc<Ledger>) -> Tok { Tok { id: id as u32, inner: Box::new(id as u32 ^ MAGIC), led: led.clone() } } }

/// Sharing a node must not copy what it holds.
impl Clone for Tok { fn clone(&self) -> Tok { violate("a payload was copied when its owner was cloned".into()) } }

type Hook = Box<dyn FnMut(u32)>;
thread_local! { static ON_DROP: RefCell<Option<Hook>> = const { RefCell::new(None) }; }

impl Drop for Tok {
    fn drop(&mut self) {
        self.led.drops[self.id as usize].fetch_add(1, Relaxed);
        if *self.inner != self.id ^ MAGIC { self.led.garbled.fetch_add(1, Relaxed); }
        heap::touch_stack();
        let hook = ON_DROP.with(|h| h.try_borrow_mut().ok().and_then(|mut h| h.take()));
        if let Some(mut f) = hook {
            f(self.id);
            ON_DROP.with(|h| *h.borrow_mut() = Some(f));
        }
    }
}

// ------------------------------------------------------------ kinds of owner

type Node<D> = Datum<Tok, Tok, D>;

/// What the checks need of a reference type.
trait Holder: DerefTryMut<Target = Node<Self>> + Sized {
    type Weak;
    const NAME: &'static str;
    const SHARED: bool;
    fn make(n: Node<Self>) -> Self;
    fn dup(&self) -> Self;
    fn counts(&self) -> (usize, usize);
    fn weak(&self) -> Option<Self::Weak>;
    fn up(w: &Self::Weak) -> Option<Self>;
    fn addr(&self) -> usize { &**self as *const Node<Self> as usize }
}

impl Holder for DatumBox<Tok, Tok> {
    type Weak = ();
    const NAME: &'static str = "DatumBox";
    const SHARED: bool = false;
    fn make(n: Node<Self>) -> Self { DatumBox::new(n) }
    fn dup(&self) -> Self { panic!("harness: exclusive owner shared") }
    fn counts(&self) -> (usize, usize) { (1, 0) }
    fn weak(&self) -> Option<()> { None }
    fn up(_: &()) -> Option<Self> { None }
}

macro_rules! holder {
    ($t:ty, $p:ident, $w:ident, $name:expr, |$n:ident| $mk:expr, |$h:ident| $wrap:expr, |$s:ident| $dup:expr) => {
        impl Holder for $t {
            type Weak = std::$w::Weak<Node<Self>>;
            const NAME: &'static str = $name;
            const SHARED: bool = true;
            fn make($n: Node<Self>) -> Self { $mk }
            fn dup(&self) -> Self { let $s = self; $dup }
            fn counts(&self) -> (usize, usize) { ($p::strong_count(&self.0), $p::weak_count(&self.0)) }
            fn weak(&self) -> Option<Self::Weak> { Some($p::downgrade(&self.0)) }
            fn up(w: &Self::Weak) -> Option<Self> { let $h = w.upgrade()?; Some($wrap) }
        }
    };
}
holder!(DatumRc<Tok, Tok>, Rc, rc, "DatumRc", |n| DatumRc::new(n), |h| DatumRc(h), |s| s.clone());
holder!(DatumArc<Tok, Tok>, Arc, sync, "DatumArc", |n| DatumArc::new(n), |h| DatumArc(h), |s| s.clone());

/// Reference types as a user of the library would define them.
macro_rules! user_rc {
    ($name:ident, $p:ident, $w:ident, $label:expr, $how:path, { $($extra:item)* }) => {
        struct $name($p<Datum<Tok, Tok, $name>>);
        impl Deref for $name { type Target = Datum<Tok, Tok, $name>; fn deref(&self) -> &Self::Target { &self.0 } }
        impl DerefTryMut for $name { fn get_mut(this: &mut Self) -> Option<&mut Self::Target> { $p::get_mut(&mut this.0) } }
        impl RcLike for $name {
            type RC = $p<Datum<Tok, Tok, $name>>;
            fn get_rc(this: &mut Self) -> &mut Self::RC { &mut this.0 }
            fn new_rc(val: Self::Target) -> Self::RC { $p::new(val) }
            fn try_unwrap(rc: Self::RC) -> Result<Self::Target, Self::RC> { note_op(); $p::try_unwrap(rc) }
        }
        $($extra)*
        impl Algo1DatumRef for $name {
            fn try_replace(this: &mut Self, val: Self::Target) -> Result<Self::Target, Self::Target> { note_op(); $how(this, val) }
            fn set(this: &mut Self, val: Self::Target) { note_op(); RcLike::set(this, val) }
        }
        impl Drop for $name { fn drop(&mut self) { algo1(self) } }
        holder!($name, $p, $w, $label, |n| $name($p::new(n)), |h| $name(h), |s| $name(s.0.clone()));
    };
}
thread_local! { static OPS: Cell<u64> = const { Cell::new(0) }; }
fn note_op() { OPS.with(|o| o.set(o.get() + 1)) }

user_rc!(UserRc, Rc, rc, "user Rc with the basic default", RcLike::try_replace, {});
user_rc!(UserArc, Arc, sync, "user Arc with the basic default", RcLike::try_replace, {});
user_rc!(UserRcCounts, Rc, rc, "user Rc with the counting default", RcLikeAtomicCounts::try_replace_optim, {
    impl RcLikeAtomicCounts for UserRcCounts {
        fn counts(this: &Self) -> (usize, usize) { (Rc::strong_count(&this.0), Rc::weak_count(&this.0)) }
    }
});

// -------------------------------------------------------------------- shapes

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum N { Leaf(u8), Br(bool, u32, u32) }

/// Nodes in order of making: a branch refers to earlier ones.
fn dag_spec(rng: &mut Rng, n: usize, shared: bool) -> Vec<N> {
    let mut v: Vec<N> = vec![];
    let mut free: Vec<u32> = vec![];
    let style = rng.below(6);
    let leafy = [2, 3, 5][rng.below(3)];
    for i in 0..n {
        let can = if shared { i > 0 } else { free.len() > 1 };
        if !can || rng.chance(1, leafy) { v.push(N::Leaf(rng.below(4) as u8)); free.push(i as u32); continue }
        let pick = |rng: &mut Rng, free: &mut Vec<u32>| -> u32 {
            if !shared || (!free.is_empty() && rng.chance(2, 3)) {
                let k = match style { 0 | 1 => free.len() - 1 - rng.below(free.len().min(2)), 2 => rng.below(free.len().min(2)), _ => rng.below(free.len()) };
                free.swap_remove(k)
            } else if rng.chance(1, 2) { (i - 1 - rng.below(i.min(3))) as u32 } else { rng.below(i) as u32 }
        };
        let l = pick(rng, &mut free);
        let r = if shared && rng.chance(1, 8) { l } else { pick(rng, &mut free) };
        let (l, r) = if style % 2 == 1 { (r, l) } else { (l, r) };
        v.push(N::Br(rng.chance(1, 2), l, r));
        free.push(i as u32);
    }
    v
}

fn uses(spec: &[N]) -> Vec<u32> {
    let mut u = vec![0; spec.len()];
    for n in spec { if let N::Br(_, l, r) = n { u[*l as usize] += 1; u[*r as usize] += 1 } }
    u
}

/// A remaining owner: a reference, or a value holding two references.
enum Owner<D: Holder> { Ref(D, u32), Val(Node<D>, u32, u32) }

struct World<D: Holder> {
    spec: Vec<N>, led: Arc<Ledger>, addr: Vec<usize>, owners: Vec<Owner<D>>, weaks: Vec<(D::Weak, u32)>,
    node_bytes: i64, tok_bytes: i64, full: i64,
}

fn leaf<D: Holder>(k: u8, i: usize, led: &Arc<Ledger>) -> Node<D> {
    match k { 0 => Datum::Text(Tok::new(i, led)), 1 => Datum::Extra(Tok::new(i, led)), 2 => Datum::EmptyNest, _ => Datum::EmptyList }
}

fn has_tok(n: &N) -> bool { matches!(n, N::Leaf(0 | 1)) }

fn make_world<D: Holder>(spec: Vec<N>, rng: &mut Rng, more_owners: usize, weaks: usize) -> World<D> {
    let n = spec.len();
    let led = Ledger::new(n);
    let mut own = vec![0u32; n];
    let used = uses(&spec);
    for i in 0..n { if used[i] == 0 { own[i] = 1 } }
    if D::SHARED { for _ in 0..more_owners { own[rng.below(n)] += 1 } }
    let mut vals: Vec<(u32, u32)> = vec![];
    if D::SHARED { for _ in 0..rng.below(3) { vals.push((rng.below(n) as u32, rng.below(n) as u32)) } }
    let mut rem: Vec<u32> = (0..n).map(|i| used[i] + own[i]).collect();
    for &(l, r) in &vals { rem[l as usize] += 1; rem[r as usize] += 1 }
    let mut held: Vec<Option<D>> = (0..n).map(|_| None).collect();
    let mut addr = vec![0; n];
    let mut owners: Vec<Owner<D>> = Vec::with_capacity(n + 64 + more_owners);
    let mut wv = Vec::with_capacity(weaks + 16);
    let node_bytes = { let a = heap::live_bytes(); let d = D::make(Datum::EmptyNest); let b = heap::live_bytes(); drop(d); b - a };
    let full = n as i64 * node_bytes + 4 * spec.iter().filter(|n| has_tok(n)).count() as i64;
    fn take<D: Holder>(held: &mut [Option<D>], rem: &mut [u32], i: u32) -> D {
        let i = i as usize;
        rem[i] -= 1;
        if rem[i] == 0 { held[i].take().expect("harness: handle") } else { held[i].as_ref().expect("harness: handle").dup() }
    }
    for i in 0..n {
        let d = match spec[i] {
            N::Leaf(k) => leaf(k, i, &led),
            N::Br(c, l, r) => {
                let (a, b) = (take(&mut held, &mut rem, l), take(&mut held, &mut rem, r));
                if c { Datum::Combination { operator: a, operands: b } } else { Datum::List { elem: a, next: b } }
            }
        };
        let h = D::make(d);
        addr[i] = h.addr();
        held[i] = Some(h);
    }
    for (l, r) in vals {
        let (a, b) = (take(&mut held, &mut rem, l), take(&mut held, &mut rem, r));
        owners.push(Owner::Val(if rng.chance(1, 2) { Datum::Combination { operator: a, operands: b } } else { Datum::List { elem: a, next: b } }, l, r));
    }
    for i in 0..n as u32 { for _ in 0..own[i as usize] { let h = take(&mut held, &mut rem, i); owners.push(Owner::Ref(h, i)) } }
    if rem.iter().any(|&r| r != 0) { panic!("harness: handles left over") }
    // Weak handles, obtained by walking to the node.
    if D::SHARED {
        let mut w = World { spec, led, addr, owners, weaks: vec![], node_bytes, tok_bytes: 4, full };
        let refs = w.survey().unwrap_or_else(|e| panic!("harness: fresh world: {e}"));
        for _ in 0..weaks {
            let i = rng.below(n);
            // SAFETY: the world is not changed while the pointers are used.
            let h = unsafe { &*refs[i].expect("harness: fresh node is reachable") };
            wv.push((h.weak().unwrap(), i as u32));
        }
        drop(refs);
        w.weaks = wv;
        return w;
    }
    World { spec, led, addr, owners, weaks: wv, node_bytes, tok_bytes: 4, full }
}

impl<D: Holder> World<D> {
    fn alive(&self) -> Vec<bool> {
        let mut a = vec![false; self.spec.len()];
        let mut todo: Vec<u32> = vec![];
        for o in &self.owners { match o { Owner::Ref(_, i) => todo.push(*i), Owner::Val(_, l, r) => todo.extend([*l, *r]) } }
        while let Some(i) = todo.pop() {
            if std::mem::replace(&mut a[i as usize], true) { continue }
            if let N::Br(_, l, r) = self.spec[i as usize] { todo.extend([l, r]) }
        }
        a
    }

    /// Walks everything reachable and compares it with the specification.
    fn survey(&self) -> Result<Vec<Option<*const D>>, String> {
        let mut seen: Vec<Option<*const D>> = vec![None; self.spec.len()];
        let mut todo: Vec<(*const D, u32)> = vec![];
        for o in &self.owners {
            match o {
                Owner::Ref(h, i) => todo.push((h, *i)),
                Owner::Val(Datum::Combination { operator: a, operands: b } | Datum::List { elem: a, next: b }, l, r) => { todo.push((a, *l)); todo.push((b, *r)) }
                Owner::Val(..) => return Err("a held value is no longer a branch".into()),
            }
        }
        while let Some((h, i)) = todo.pop() {
            // SAFETY: points into structures owned by `self.owners`.
            let h: &D = unsafe { &*h };
            if h.addr() != self.addr[i as usize] { return Err(format!("node {i} is no longer the node it was (another address)")) }
            if seen[i as usize].is_some() { continue }
            seen[i as usize] = Some(h);
            let ok = match (&**h, self.spec[i as usize]) {
                (Datum::Text(t), N::Leaf(0)) | (Datum::Extra(t), N::Leaf(1)) => t.id == i && *t.inner == i ^ MAGIC,
                (Datum::EmptyNest, N::Leaf(2)) | (Datum::EmptyList, N::Leaf(3)) => true,
                (Datum::Combination { operator: a, operands: b }, N::Br(true, l, r)) | (Datum::List { elem: a, next: b }, N::Br(false, l, r)) => { todo.push((a, l)); todo.push((b, r)); true }
                _ => false,
            };
            if !ok { return Err(format!("the content of surviving node {i} changed")) }
        }
        Ok(seen)
    }

    fn check(&mut self, c: &mut Case, start: i64) -> Result<(), String> {
        c.eval();
        // Both before anything below requests memory that stays.
        let live = heap::live_bytes();
        let alive = self.alive();
        for (i, n) in self.spec.iter().enumerate() {
            if !has_tok(n) { continue }
            let k = self.led.count(i);
            if k != u32::from(!alive[i]) { return Err(format!("payload of node {i} was destroyed {k} times; it is {}", if alive[i] { "still owned" } else { "owned by nobody" })) }
        }
        if self.led.garbled.load(Relaxed) > 0 { return Err("a destroyed payload had been altered".into()) }
        let seen = self.survey()?;
        for i in 0..alive.len() { if alive[i] != seen[i].is_some() { panic!("harness: reachability differs from the walk") } }
        let mut strong = vec![0usize; alive.len()];
        for o in &self.owners { match o { Owner::Ref(_, i) => strong[*i as usize] += 1, Owner::Val(_, l, r) => { strong[*l as usize] += 1; strong[*r as usize] += 1 } } }
        for (i, n) in self.spec.iter().enumerate() { if let (true, N::Br(_, l, r)) = (alive[i], n) { strong[*l as usize] += 1; strong[*r as usize] += 1 } }
        let mut weak = vec![0usize; alive.len()];
        for (_, i) in &self.weaks { weak[*i as usize] += 1 }
        for i in 0..alive.len() {
            if let Some(h) = seen[i] {
                // SAFETY: as in `survey`.
                let got = unsafe { &*h }.counts();
                if got != (strong[i], weak[i]) && D::SHARED { return Err(format!("surviving node {i} has (strong, weak) counts {got:?}, expected {:?}", (strong[i], weak[i]))) }
            }
        }
        for (w, i) in &self.weaks {
            let up = D::up(w);
            if up.is_some() != alive[*i as usize] { return Err(format!("weak reference to node {i} {}", if up.is_some() { "gives access after its destruction" } else { "gives no access although it survives" })) }
            if let Some(h) = up { if h.addr() != self.addr[*i as usize] { return Err(format!("weak reference to node {i} gives another node")) } }
        }
        let mut want = 0i64;
        for (i, n) in self.spec.iter().enumerate() {
            if alive[i] || weak[i] > 0 { want += self.node_bytes }
            if alive[i] && has_tok(n) { want += self.tok_bytes }
        }
        let got = live - start + self.full;
        if got != want { return Err(format!("{got} bytes of the tree are still allocated, expected {want}")) }
        c.count("nodes surviving a drop, compared", alive.iter().filter(|a| **a).count() as u64);
        Ok(())
    }
}

/// Drops owners and weak references one after the other, judging after each.
fn history<D: Holder>(c: &mut Case, max: usize) -> Result<(), String> {
    let n = c.rng.range(1, max);
    let spec = dag_spec(&mut c.rng, n, D::SHARED);
    let (mo, wk) = if c.rng.chance(1, 5) { (0, 0) } else { (c.rng.below(6), c.rng.below(8)) };
    let sum = hash_str(&format!("{spec:?}"));
    c.describe(format!("{} owners+{mo} weak {wk} nodes {spec:?}", D::NAME));
    c.nontrivial(mix(sum, hash_str(D::NAME)));
    c.sample(|| format!("{}: {} nodes, {mo} further owners, {wk} weak references", D::NAME, spec.len()));
    let branches = spec.iter().filter(|n| matches!(n, N::Br(..))).count();
    c.max("branches in a shape", branches as u64);
    let mut rng = c.rng.clone();
    let mut w = make_world::<D>(spec, &mut rng, mo, wk);
    let start = heap::live_bytes();
    w.check(c, start)?;
    while !w.owners.is_empty() || !w.weaks.is_empty() {
        let k = rng.below(w.owners.len() + w.weaks.len().min(2));
        if k >= w.owners.len() && !w.weaks.is_empty() {
            let j = rng.below(w.weaks.len());
            w.weaks.swap_remove(j);
            c.count("weak references dropped", 1);
        } else {
            let k = k.min(w.owners.len() - 1);
            let o = w.owners.swap_remove(k);
            let twice = D::SHARED && rng.chance(1, 6);
            match o {
                Owner::Ref(h, i) => {
                    if twice { let h2 = h.dup(); lib(|| drop(h)); w.owners.push(Owner::Ref(h2, i)); w.check(c, start)?; let Some(Owner::Ref(h2, _)) = w.owners.pop() else { unreachable!() }; lib(|| drop(h2)) } else { lib(|| drop(h)) }
                    c.count("owning references dropped", 1);
                }
                Owner::Val(v, ..) => { lib(|| drop(v)); c.count("owning values dropped", 1) }
            }
        }
        w.check(c, start)?;
    }
    Ok(())
}

/// Very many owners and weak references of few nodes.
fn crowd<D: Holder>(c: &mut Case) -> Result<(), String> {
    let n = c.rng.range(1, 12);
    let spec = dag_spec(&mut c.rng, n, D::SHARED);
    let many = [300, 4_000, 66_000][c.idx as usize / 2 % 3];
    let (mo, wk) = (c.rng.range(many, 2 * many), c.rng.range(many, 2 * many));
    c.describe(format!("{} owners+{mo} weak {wk} nodes {spec:?}", D::NAME));
    c.nontrivial(mix(hash_str(&format!("{spec:?}{mo}{wk}")), hash_str(D::NAME)));
    c.max("owners and weak references of one structure", (mo + wk) as u64);
    let mut rng = c.rng.clone();
    let mut w = make_world::<D>(spec, &mut rng, mo, wk);
    let start = heap::live_bytes();
    w.check(c, start)?;
    let total = w.owners.len() + w.weaks.len();
    let every = total / 12 + 1;
    let owners_first = rng.below(3);
    for k in 0..total {
        let (o, x) = (w.owners.len(), w.weaks.len());
        let owner = x == 0 || o > 0 && match owners_first { 0 => true, 1 => rng.chance(1, 2), _ => false };
        if owner { let i = rng.below(o); let o = w.owners.swap_remove(i); lib(|| drop(o)); c.count("owning references dropped", 1) }
        else { let i = rng.below(x); w.weaks.swap_remove(i); c.count("weak references dropped", 1) }
        if k % every == 0 || total - k < 12 || w.owners.len() < 6 && owner { w.check(c, start)? }
    }
    Ok(())
}

/// Payload destructors that take hold of weakly referenced nodes while the
/// tree is being dropped.
fn rescue<D: Holder + 'static>(c: &mut Case, max: usize) -> Result<(), String> {
    let n = c.rng.range(2, max);
    let spec = dag_spec(&mut c.rng, n, D::SHARED);
    let wk = c.rng.range(1, 6);
    c.describe(format!("{} with rescues, weak {wk} nodes {spec:?}", D::NAME));
    c.nontrivial(mix(hash_str(&format!("{spec:?}")), hash_str(D::NAME)));
    let mut rng = c.rng.clone();
    let mut w = make_world::<D>(spec, &mut rng, 0, wk);
    let start = heap::live_bytes();
    // The weak handles move into the destructor hook.
    let room = w.weaks.capacity() * std::mem::size_of::<(D::Weak, u32)>();
    let weaks = Rc::new(std::mem::take(&mut w.weaks));
    let saved: Rc<RefCell<Vec<(D, u32)>>> = Rc::new(RefCell::new(Vec::with_capacity(64)));
    while !w.owners.is_empty() {
        let k = rng.below(w.owners.len());
        let o = w.owners.swap_remove(k);
        let (ws, sv) = (weaks.clone(), saved.clone());
        let mut at = rng.below(5);
        let which = rng.below(weaks.len());
        ON_DROP.with(|h| *h.borrow_mut() = Some(Box::new(move |_| {
            if at == 0 {
                let (x, i) = &ws[which];
                if let Some(h) = D::up(x) { sv.borrow_mut().push((h, *i)) }
            }
            at = at.wrapping_sub(1);
        })));
        lib(|| drop(o));
        ON_DROP.with(|h| *h.borrow_mut() = None);
        let before = w.owners.len();
        for (h, i) in saved.borrow_mut().drain(..) { w.owners.push(Owner::Ref(h, i)); c.count("nodes taken hold of during a drop", 1) }
        let rescued = w.owners.len() - before;
        let alive = w.alive();
        c.eval();
        for (i, n) in w.spec.iter().enumerate() {
            if has_tok(n) && w.led.count(i) != u32::from(!alive[i]) {
                return Err(format!("payload of node {i} was destroyed {} times; it is {} ({rescued} nodes were taken hold of during the drop)", w.led.count(i), if alive[i] { "still owned" } else { "owned by nobody" }));
            }
        }
        w.survey()?;
        for (x, i) in weaks.iter() {
            if D::up(x).is_some() != alive[*i as usize] { return Err(format!("weak reference to node {i}: access {}, survives {}", D::up(x).is_some(), alive[*i as usize])) }
        }
    }
    drop((saved, weaks));
    let left = heap::live_bytes() - start + w.full + room as i64;
    if left != 0 { return Err(format!("{left} bytes of the tree are still allocated after everything was dropped")) }
    Ok(())
}

pub fn c17(ctx: &mut Ctx) {
    ctx.rule = "random trees (exclusive owners) and DAGs (counted and atomically counted owners) with payloads that count their destruction, further owners and weak references; owners (references and values) and weak references dropped one after the other in random order; an evaluation is one drop after which every payload count, every survivor's content, address and counts, every weak reference and the number of still allocated bytes are compared with a reachability model; in one stage payload destructors take hold of nodes during the drop; non-trivial: distinct by shape and reference type".into();
    ctx.stage("trees", ctx.pick(96_000, 288_000), |c| { let m = c.rng.range(2, 60); history::<DatumBox<Tok, Tok>>(c, m) });
    ctx.stage("counted", ctx.pick(240_000, 720_000), |c| { let m = c.rng.range(2, 50); history::<DatumRc<Tok, Tok>>(c, m) });
    ctx.stage("atomically-counted", ctx.pick(240_000, 720_000), |c| { let m = c.rng.range(2, 50); history::<DatumArc<Tok, Tok>>(c, m) });
    ctx.stage("small-counted", ctx.pick(320_000, 960_000), |c| {
        if c.idx % 2 == 0 { history::<DatumRc<Tok, Tok>>(c, 8) } else { history::<DatumArc<Tok, Tok>>(c, 8) }
    });
    ctx.stage("large", ctx.pick(60, 600), |c| {
        let m = c.rng.range(300, 1500);
        match c.idx % 3 { 0 => history::<DatumBox<Tok, Tok>>(c, m), 1 => history::<DatumRc<Tok, Tok>>(c, m.min(400)), _ => history::<DatumArc<Tok, Tok>>(c, m.min(400)) }
    });
    ctx.stage("crowds", ctx.pick(60, 600), |c| if c.idx % 2 == 0 { crowd::<DatumRc<Tok, Tok>>(c) } else { crowd::<DatumArc<Tok, Tok>>(c) });
    ctx.stage("rescues", ctx.pick(240_000, 720_000), |c| {
        let m = c.rng.range(2, 30);
        if c.idx % 2 == 0 { rescue::<DatumRc<Tok, Tok>>(c, m) } else { rescue::<DatumArc<Tok, Tok>>(c, m) }
    });
}

// ----------------------------------------------------------------------- C16

/// One link of a growing structure.
#[derive(Clone, Copy, Debug)]
enum Link {
    LeafLeft(bool), LeafRight(bool),
    TreeLeft(bool, u8), TreeRight(bool, u8),
    /// Both sides the same node.
    Twice(bool),
    /// One side the top of some links ago.
    OldLeft(bool, u8), OldRight(bool, u8),
    /// One side a node that has another owner throughout.
    Pinned(bool, bool),
    /// The side is a finished chain of its own.
    ChainLeft(bool, u16),
    Hold, Weak,
}

fn any_link(rng: &mut Rng, shared: bool) -> Link {
    let b = rng.chance(1, 2);
    match rng.below(if shared { 12 } else { 5 }) {
        0 => Link::LeafLeft(b),
        1 => Link::LeafRight(b),
        2 => Link::TreeLeft(b, rng.below(8) as u8),
        3 => Link::TreeRight(b, rng.below(8) as u8),
        4 => if rng.chance(1, 6) { Link::ChainLeft(b, rng.range(1, 40) as u16) } else { Link::LeafLeft(!b) },
        5 | 6 => Link::Twice(b),
        7 => Link::OldLeft(b, rng.range(1, 6) as u8),
        8 => Link::OldRight(b, rng.range(1, 6) as u8),
        9 => Link::Pinned(b, rng.chance(1, 2)),
        10 => if rng.chance(1, 3) { Link::Hold } else { Link::Twice(b) },
        _ => Link::Weak,
    }
}

fn br<D: Holder>(c: bool, a: D, b: D) -> D {
    D::make(if c { Datum::Combination { operator: a, operands: b } } else { Datum::List { elem: a, next: b } })
}

fn little<D: Holder>(k: u8, led: &Arc<Ledger>) -> D {
    let l = || D::make(Datum::Text(Tok::new(0, led)));
    let e = || D::make(Datum::EmptyList);
    match k % 8 {
        0 => br(false, l(), e()),
        1 => br(true, br(false, l(), e()), e()),
        2 => br(true, e(), br(false, l(), l())),
        3 => br(false, br(false, l(), l()), br(true, l(), l())),
        4 => br(false, br(false, br(true, l(), e()), l()), e()),
        5 => br(false, l(), br(false, l(), br(true, e(), l()))),
        6 => br(true, br(false, e(), br(false, l(), e())), br(false, br(true, l(), e()), e())),
        _ => br(true, l(), l()),
    }
}

struct Grown<D: Holder> { top: D, holders: Vec<D>, weaks: Vec<D::Weak>, nodes: u64 }

/// `deco` gives how many weak references to make of a link's node and its
/// sides.
fn grow<D: Holder>(plan: &dyn Fn(usize) -> Link, deco: &dyn Fn(usize) -> [usize; 3], links: usize, led: &Arc<Ledger>) -> Grown<D> {
    let mut g = Grown { top: D::make(Datum::EmptyList), holders: vec![], weaks: vec![], nodes: 1 };
    let pin: Option<D> = if D::SHARED { Some(little(3, led)) } else { None };
    let mut old: Vec<Option<D>> = (0..8).map(|_| None).collect();
    for i in 0..links {
        let top = g.top;
        g.nodes += 2;
        if D::SHARED { old[i % 8] = Some(top.dup()) }
        let lf = || D::make(Datum::Extra(Tok::new(0, led)));
        let past = |k: u8| old[(i + 8 - (k as usize % 7 + 1)) % 8].as_ref().map(|d| d.dup()).unwrap_or_else(lf);
        g.top = match plan(i) {
            Link::LeafLeft(c) => br(c, lf(), top),
            Link::LeafRight(c) => br(c, top, lf()),
            Link::TreeLeft(c, k) => br(c, little(k, led), top),
            Link::TreeRight(c, k) => br(c, top, little(k, led)),
            Link::Twice(c) => { let t = top.dup(); br(c, top, t) }
            Link::OldLeft(c, k) => { let o = past(k); br(c, o, top) }
            Link::OldRight(c, k) => { let o = past(k); br(c, top, o) }
            Link::Pinned(c, left) => { let p = pin.as_ref().unwrap().dup(); if left { br(c, p, top) } else { br(c, top, p) } }
            Link::ChainLeft(c, n) => {
                let mut s = lf();
                for j in 0..n { s = if j % 3 == 0 { br(!c, s, lf()) } else { br(c, lf(), s) } }
                g.nodes += 2 * n as u64;
                br(c, s, top)
            }
            Link::Hold => { g.holders.push(top.dup()); br(false, lf(), top) }
            Link::Weak => { g.weaks.push(top.weak().unwrap()); br(true, top, lf()) }
        };
        if D::SHARED {
            let n = deco(i);
            if let Datum::Combination { operator: a, operands: b } | Datum::List { elem: a, next: b } = &*g.top {
                for (d, n) in [(&g.top, n[0]), (a, n[1]), (b, n[2])] {
                    for _ in 0..n { g.weaks.push(d.weak().unwrap()) }
                }
            }
        }
    }
    // Handles of the harness go before the measurement; some stay as owners.
    drop(old);
    if let Some(p) = pin { g.holders.push(p) }
    g
}

/// Stack a drop may use, whatever is dropped.  (Measured: well under 2 KiB.)
const DROP_STACK: usize = 12 * 1024;

fn drop_measured<D: Holder>(c: &mut Case, mut g: Grown<D>, rng: &mut Rng) -> Result<(), String> {
    let judge = |c: &mut Case, used: usize, what: &str| -> Result<(), String> {
        c.eval();
        c.max("bytes of stack seen in use by a drop", used as u64);
        if used > DROP_STACK { return Err(format!("dropping {what} used {used} bytes of stack (limit {DROP_STACK})")) }
        Ok(())
    };
    c.max("nodes dropped in one case", g.nodes);
    let n = g.nodes;
    let keep = rng.chance(1, 3);
    if !keep { rng.shuffle(&mut g.holders); let cut = rng.below(g.holders.len() + 1); g.holders.truncate(cut) }
    let top = g.top;
    let (_, used) = heap::stack_used(|| lib(|| drop(top)));
    judge(c, used, &format!("the top of a structure of about {n} nodes"))?;
    rng.shuffle(&mut g.holders);
    for h in g.holders {
        let (_, used) = heap::stack_used(|| lib(|| drop(h)));
        judge(c, used, &format!("an owner inside a structure of about {n} nodes"))?;
    }
    drop(g.weaks);
    Ok(())
}

fn drop_case<D: Holder>(c: &mut Case, links: usize) -> Result<(), String> {
    let led = Ledger::new(1);
    let period = *c.rng.pick(&[1usize, 1, 2, 2, 3, 4, 5, 7, 0]);
    // Few kinds of links in a structure make its pattern sharper.
    let few: Vec<Link> = (0..c.rng.range(1, 4)).map(|_| any_link(&mut c.rng, D::SHARED)).collect();
    let motif: Vec<Link> = (0..period.max(1)).map(|_| if c.rng.chance(1, 2) { any_link(&mut c.rng, D::SHARED) } else { *c.rng.pick(&few) }).collect();
    let salt = c.rng.next();
    let holes = c.rng.chance(1, 3);
    let any = c.rng.chance(1, 2);
    let plan = |i: usize| -> Link {
        let mut r = Rng::new(mix(salt, i as u64));
        if period == 0 { if any { any_link(&mut r, D::SHARED) } else { *r.pick(&few) } }
        else if holes && r.chance(1, 50) { any_link(&mut r, D::SHARED) }
        else { motif[i % period] }
    };
    let weak = if D::SHARED { c.rng.below(8) } else { 0 };
    let each: [usize; 3] = [c.rng.below(4), c.rng.below(3), c.rng.below(3)];
    let deco = |i: usize| -> [usize; 3] {
        let mut r = Rng::new(mix(!salt, i as u64));
        match weak {
            0 | 1 | 2 => [0; 3],
            3 | 4 => each,
            5 => if i % 3 == 0 { each } else { [0; 3] },
            _ => [r.below(4) * r.below(2), r.below(4) * r.below(2), r.below(4) * r.below(2)],
        }
    };
    c.describe(format!("{}: {links} links, period {period}, motif {motif:?}, few {few:?}, salt {salt}, holes {holes}, any {any}, weak references {weak} {each:?}", D::NAME));
    c.nontrivial(mix(hash_str(&c.desc), 0));
    c.sample(|| format!("{}: {links} links repeating {motif:?}{}", D::NAME, if holes { " with irregularities" } else { "" }));
    let g = grow::<D>(&plan, &deco, links, &led);
    c.count("weak references to nodes of dropped structures", g.weaks.len() as u64);
    let mut rng = c.rng.clone();
    drop_measured(c, g, &mut rng)
}

/// Random shapes rather than chains.
fn bushy<D: Holder>(c: &mut Case, n: usize) -> Result<(), String> {
    let spec = dag_spec(&mut c.rng, n, D::SHARED);
    c.describe(format!("{}: random shape of {n} nodes", D::NAME));
    c.nontrivial(mix(hash_str(&format!("{spec:?}")), 1));
    let mut rng = c.rng.clone();
    let mo = c.rng.below(20);
    let mut w = make_world::<D>(spec, &mut rng, mo, 0);
    rng.shuffle(&mut w.owners);
    for o in std::mem::take(&mut w.owners) {
        let (_, used) = heap::stack_used(|| lib(|| drop(o)));
        c.eval();
        c.max("bytes of stack seen in use by a drop", used as u64);
        if used > DROP_STACK { return Err(format!("dropping an owner in a random shape of {n} nodes used {used} bytes of stack (limit {DROP_STACK})")) }
    }
    Ok(())
}

pub fn c16(ctx: &mut Ctx) {
    ctx.rule = "chains of random links (leaf or small tree or finished chain on either side, the same node on both sides, nodes of some links ago, nodes with other owners, weakly referenced nodes), periodic, periodic with irregularities, or irregular, of thousands of links; random bushy trees and DAGs; and chains of 10^6 nodes on a thread with 192 KiB of stack; an evaluation is one dropped owner with the lowest stack address at any payload destruction or heap operation compared with a fixed limit; non-trivial: distinct by structure and reference type".into();
    ctx.assumptions.push(format!("a drop that needs a constant amount of stack needs at most {DROP_STACK} bytes"));
    let links = ctx.pick(3_000, 6_000);
    let n = ctx.pick(3_000, 16_000);
    ctx.stage("exclusive", n, |c| drop_case::<DatumBox<Tok, Tok>>(c, links));
    ctx.stage("counted", 2 * n, |c| drop_case::<DatumRc<Tok, Tok>>(c, links));
    ctx.stage("atomically-counted", 2 * n, |c| drop_case::<DatumArc<Tok, Tok>>(c, links));
    ctx.stage("bushy", ctx.pick(90, 900), |c| {
        let n = c.rng.range(2_000, 30_000);
        match c.idx % 3 { 0 => bushy::<DatumBox<Tok, Tok>>(c, n), 1 => bushy::<DatumRc<Tok, Tok>>(c, n), _ => bushy::<DatumArc<Tok, Tok>>(c, n) }
    });
    ctx.stage_on("small-stack", ctx.pick(36, 240), 6, |c| {
        let mut inner = Case::quiet(c);
        inner.desc = String::new();
        let idx = c.idx;
        let links = if c.tier == Tier::Quick { 150_000 } else { 500_000 };
        let inner_ref = &mut inner;
        let r = on_small_stack("small-stack", idx, move || match idx % 3 {
            0 => drop_case::<DatumBox<Tok, Tok>>(inner_ref, links),
            1 => drop_case::<DatumRc<Tok, Tok>>(inner_ref, links),
            _ => drop_case::<DatumArc<Tok, Tok>>(inner_ref, links),
        });
        c.describe(std::mem::take(&mut inner.desc));
        c.absorb(inner);
        r
    });
}

// ----------------------------------------------------------------------- C22

/// When a reference refuses to be taken out of.
#[derive(Clone, Debug)]
enum Policy {
    Never,
    Always,
    /// By reference, always the same.
    Fixed(u64),
    FixedOneIn(usize, u64),
    /// By the number of the request.
    Calls(u64),
    CallsOneIn(usize, u64),
    /// The first so many requests to each reference are refused.
    FirstPer(u32),
    /// Only the first so many requests to each reference are granted.
    OnlyFirstPer(u32),
    /// References alternate, starting with a refusal or not.
    Alternate(bool),
    /// All requests before, or after, a moment.
    Until(u64),
    From(u64),
    /// References that were put back into refuse afterwards.
    AfterSet,
}

struct Ctl { policy: Policy, calls: u64, sets: u64, limit: u64, per: Vec<u32>, was_set: Vec<bool>, last_ok: Vec<bool>, bad: Option<String>, over: bool, run_on_drop: bool, refused: u64 }

thread_local! { static CTL: RefCell<Option<Ctl>> = const { RefCell::new(None) }; }

/// A conforming reference type of the harness that may refuse.
struct Inst { id: u32, node: Box<Datum<Tok, Tok, Inst>>, _guard: Tok }

impl Deref for Inst { type Target = Datum<Tok, Tok, Inst>; fn deref(&self) -> &Self::Target { &self.node } }
impl DerefMut for Inst { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.node } }
impl DerefTryMut for Inst { fn get_mut(this: &mut Self) -> Option<&mut Self::Target> { Some(this) } }

impl Algo1DatumRef for Inst {
    fn try_replace(this: &mut Self, val: Self::Target) -> Result<Self::Target, Self::Target> {
        let grant = CTL.with(|c| {
            let mut c = c.borrow_mut();
            let Some(c) = c.as_mut() else { return true };
            let i = this.id as usize;
            let k = c.calls;
            c.calls += 1;
            if c.calls + c.sets > c.limit { c.over = true; c.last_ok[i] = false; return false }
            let p = c.per[i];
            c.per[i] += 1;
            let refuse = match &c.policy {
                Policy::Never => false,
                Policy::Always => true,
                Policy::Fixed(m) => m >> (i % 64) & 1 == 1,
                Policy::FixedOneIn(n, s) => Rng::new(mix(*s, i as u64)).chance(1, *n),
                Policy::Calls(m) => m >> (k % 64) & 1 == 1,
                Policy::CallsOneIn(n, s) => Rng::new(mix(*s, k)).chance(1, *n),
                Policy::FirstPer(n) => p < *n,
                Policy::OnlyFirstPer(n) => p >= *n,
                Policy::Alternate(b) => (p % 2 == 0) == *b,
                Policy::Until(n) => k < *n,
                Policy::From(n) => k >= *n,
                Policy::AfterSet => c.was_set[i],
            };
            c.last_ok[i] = !refuse;
            if refuse { c.refused += 1 }
            !refuse
        });
        if grant { Ok(std::mem::replace(&mut *this.node, val)) } else { Err(val) }
    }
    fn set(this: &mut Self, val: Self::Target) {
        CTL.with(|c| {
            let mut c = c.borrow_mut();
            let Some(c) = c.as_mut() else { return };
            let i = this.id as usize;
            c.sets += 1;
            if c.calls + c.sets > c.limit { c.over = true }
            c.was_set[i] = true;
            if !c.last_ok[i] && c.bad.is_none() { c.bad = Some(format!("a value was put into reference {i}, from which nothing had been taken")) }
        });
        *this.node = val;
    }
}

impl Drop for Inst {
    fn drop(&mut self) {
        if CTL.with(|c| c.borrow().as_ref().is_some_and(|c| c.run_on_drop)) { algo1(self) }
    }
}

/// Operations allowed for a tree of `n` nodes.  (Measured: under 4 per node.)
fn op_limit(n: usize) -> u64 { 24 * n as u64 + 48 }

fn shape_to_inst(spec: &[N], led: &Arc<Ledger>) -> Inst {
    let n = spec.len();
    let mut held: Vec<Option<Inst>> = (0..n).map(|_| None).collect();
    for i in 0..n {
        let d = match spec[i] {
            N::Leaf(k) => match k { 0 => Datum::Text(Tok::new(i, led)), 1 => Datum::Extra(Tok::new(i, led)), 2 => Datum::EmptyNest, _ => Datum::EmptyList },
            N::Br(c, l, r) => {
                let (a, b) = (held[l as usize].take().unwrap(), held[r as usize].take().unwrap());
                if c { Datum::Combination { operator: a, operands: b } } else { Datum::List { elem: a, next: b } }
            }
        };
        held[i] = Some(Inst { id: i as u32, node: Box::new(d), _guard: Tok::new(n + i, led) });
    }
    held.pop().unwrap().unwrap()
}

fn left_in(root: &Inst, toks: &mut HashMap<u32, u32>, guards: &mut HashMap<u32, u32>) {
    let mut todo = vec![root];
    while let Some(h) = todo.pop() {
        *guards.entry(h.id).or_default() += 1;
        match &**h {
            Datum::Text(t) | Datum::Extra(t) => *toks.entry(t.id).or_default() += 1,
            Datum::Combination { operator: a, operands: b } | Datum::List { elem: a, next: b } => todo.extend([a, b]),
            _ => {}
        }
    }
}

fn refusal_case(c: &mut Case, spec: &[N], policy: Policy, on_drop: bool) -> Result<(), String> {
    let n = spec.len();
    c.describe(format!("policy {policy:?}, run on drop {on_drop}, nodes {spec:?}"));
    c.nontrivial(mix(hash_str(&format!("{spec:?}")), mix(hash_str(&format!("{policy:?}")), on_drop as u64)));
    c.sample(|| format!("{n} nodes, {policy:?}, {}", if on_drop { "run by each destructor" } else { "run once on the top" }));
    let before = heap::live_bytes();
    let led = Ledger::new(2 * n);
    let mut root = shape_to_inst(spec, &led);
    CTL.with(|k| *k.borrow_mut() = Some(Ctl { policy, calls: 0, sets: 0, limit: op_limit(n), per: vec![0; n], was_set: vec![false; n], last_ok: vec![false; n], bad: None, over: false, run_on_drop: on_drop, refused: 0 }));
    let take_ctl = || CTL.with(|k| k.borrow_mut().take().unwrap());
    let kept = if on_drop {
        lib(|| drop(root));
        None
    } else {
        lib(|| algo1(&mut root));
        Some(root)
    };
    let ctl = take_ctl();
    c.evals(1);
    c.count("take-out requests", ctl.calls);
    c.count("take-out requests refused", ctl.refused);
    c.count("put-backs", ctl.sets);
    c.max("operations per 100 nodes", (ctl.calls + ctl.sets) * 100 / n as u64);
    let (mut toks, mut guards) = (HashMap::new(), HashMap::new());
    if let Some(r) = &kept { left_in(r, &mut toks, &mut guards) }
    let result = (|| {
        if ctl.over { return Err(format!("more than {} take-out and put-back operations on a tree of {n} nodes", op_limit(n))) }
        if let Some(b) = ctl.bad { return Err(b) }
        for i in 0..n {
            if has_tok(&spec[i]) {
                let (d, k) = (led.count(i), toks.get(&(i as u32)).copied().unwrap_or(0));
                if d + k != 1 { return Err(format!("payload of node {i}: destroyed {d} times and found {k} times in what is left")) }
            }
            let (d, k) = (led.count(n + i), guards.get(&(i as u32)).copied().unwrap_or(0));
            if d + k != 1 { return Err(format!("reference {i}: destroyed {d} times and found {k} times in what is left")) }
        }
        if led.garbled.load(Relaxed) > 0 { return Err("a destroyed payload had been altered".into()) }
        Ok(())
    })();
    drop(toks); drop(guards);
    if result.is_err() { std::mem::forget(kept); return result }
    drop(kept);
    for i in 0..n { if led.count(n + i) != 1 || (has_tok(&spec[i]) && led.count(i) != 1) { return Err(format!("node {i} was not destroyed exactly once in the end")) } }
    drop((ctl.per, ctl.was_set, ctl.last_ok));
    drop(led);
    let left = heap::live_bytes() - before;
    if left != 0 { return Err(format!("{left} bytes are left allocated")) }
    Ok(())
}

/// The `k`-th binary tree with `b` branches, in order of making.
fn catalan(b: usize) -> u64 { let mut t = vec![1u64; b + 1]; for n in 1..=b { t[n] = (0..n).map(|i| t[i] * t[n - 1 - i]).sum() } t[b] }
fn nth_tree(b: usize, mut k: u64, bits: &mut Rng, out: &mut Vec<N>) -> u32 {
    if b == 0 { out.push(N::Leaf(bits.below(4) as u8)); return out.len() as u32 - 1 }
    for l in 0..b {
        let m = catalan(l) * catalan(b - 1 - l);
        if k < m {
            let x = nth_tree(l, k / catalan(b - 1 - l), bits, out);
            let y = nth_tree(b - 1 - l, k % catalan(b - 1 - l), bits, out);
            out.push(N::Br(bits.chance(1, 2), x, y));
            return out.len() as u32 - 1;
        }
        k -= m;
    }
    unreachable!()
}

/// One tree: everything joined under one top.
fn one_tree(rng: &mut Rng, n: usize) -> Vec<N> {
    let mut v = if rng.chance(1, 2) {
        dag_spec(rng, n, false)
    } else {
        // Chains with a pattern.
        let pat: Vec<usize> = (0..rng.range(1, 4)).map(|_| rng.below(4)).collect();
        let mut v = vec![N::Leaf(0)];
        let mut top = 0u32;
        while v.len() < n {
            let k = pat[v.len() % pat.len()];
            let at = v.len() as u32;
            v.push(N::Leaf(rng.below(4) as u8));
            let mut side = at;
            if k >= 2 { v.push(N::Leaf(1)); v.push(N::Br(false, at, at + 1)); side = at + 2 }
            v.push(if k % 2 == 0 { N::Br(rng.chance(1, 2), side, top) } else { N::Br(rng.chance(1, 2), top, side) });
            top = v.len() as u32 - 1;
        }
        v
    };
    let used = uses(&v);
    let mut tops: Vec<u32> = (0..v.len() as u32).filter(|&i| used[i as usize] == 0).collect();
    while tops.len() > 1 {
        let (a, b) = (tops.pop().unwrap(), tops.pop().unwrap());
        v.push(N::Br(rng.chance(1, 2), a, b));
        tops.push(v.len() as u32 - 1);
        if rng.chance(1, 2) { let k = tops.len() - 1; tops.swap(0, k) }
    }
    // The top must come last.
    let t = tops[0] as usize;
    if t != v.len() - 1 { let l = v.len() as u32; v.push(N::Leaf(3)); v.push(N::Br(true, t as u32, l)); }
    v
}

fn any_policy(rng: &mut Rng, n: usize) -> Policy {
    let s = rng.next();
    match rng.below(13) {
        0 => Policy::Never,
        1 => Policy::Always,
        2 => Policy::Fixed(s),
        3 => Policy::FixedOneIn(rng.range(2, 12), s),
        4 => Policy::Calls(s),
        5 => Policy::CallsOneIn(rng.range(2, 12), s),
        6 => Policy::FirstPer(rng.range(1, 3) as u32),
        7 => Policy::OnlyFirstPer(rng.range(1, 3) as u32),
        8 => Policy::Alternate(rng.chance(1, 2)),
        9 => Policy::Until(rng.below(2 * n) as u64),
        10 => Policy::From(rng.below(2 * n) as u64),
        11 => Policy::Calls([0xaaaa_aaaa_aaaa_aaaa, 0x5555_5555_5555_5555, 0xcccc_cccc_cccc_cccc, 0x9249_2492_4924_9249, 0x7fff_ffff_ffff_ffff][rng.below(5)]),
        _ => Policy::AfterSet,
    }
}

pub fn c22(ctx: &mut Ctx) {
    ctx.rule = "the algorithm run through an instrumented reference type on all small tree shapes with all sets of refusing references and all short sequences of answers, and on random and patterned trees with fixed, random, per-reference, alternating and time-dependent refusals, once on the top or by every destructor; also through three user-defined counted types built on the provided defaults, with sharing and weak references; an evaluation is one run whose operations are counted and bounded, put-backs judged, and payloads, references and bytes conserved; non-trivial: distinct by shape and refusals".into();
    ctx.assumptions.push("work proportional to the number of nodes means at most 24 operations per node".into());
    let mut total = 0;
    for b in 0..=ctx.pick(4usize, 5) {
        let shapes = catalan(b);
        let masks = 1u64 << (2 * b + 1);
        total += shapes * masks * 2;
        ctx.stage(&format!("all-fixed-{b}"), shapes * masks * 2, |c| {
            let (k, r) = (c.idx / 2 / masks, c.idx / 2 % masks);
            let mut spec = vec![];
            nth_tree(b, k, &mut c.rng, &mut spec);
            refusal_case(c, &spec, Policy::Fixed(r), c.idx % 2 == 0)
        });
    }
    let calls = ctx.pick(10u32, 13);
    for b in 1..=4usize {
        let shapes = catalan(b);
        total += shapes << (calls + 1);
        ctx.stage(&format!("all-answers-{b}"), shapes << (calls + 1), |c| {
            let (k, r) = (c.idx >> (calls + 1), c.idx >> 1 & ((1 << calls) - 1));
            let mut spec = vec![];
            nth_tree(b, k, &mut c.rng, &mut spec);
            // Later answers repeat the sequence.
            let mut m = 0u64;
            let mut i = 0;
            while i < 64 { m |= r << i; i += calls }
            refusal_case(c, &spec, Policy::Calls(m), c.idx % 2 == 0)
        });
    }
    ctx.exhaustive_note = Some(format!("{total} combinations of all tree shapes of up to {} branches with all sets of refusing references, and of up to 4 branches with all sequences of {calls} answers", ctx.pick(4, 5)));
    ctx.stage("random", ctx.pick(480_000, 1_440_000), |c| {
        let n = c.rng.range(1, 60);
        let spec = one_tree(&mut c.rng, n);
        let p = any_policy(&mut c.rng, n);
        let d = c.rng.chance(1, 2);
        refusal_case(c, &spec, p, d)
    });
    ctx.stage("large", ctx.pick(300, 3_000), |c| {
        let n = if c.idx % 20 == 7 { c.rng.range(33_000, 70_000) } else { c.rng.range(500, 6_000) };
        let spec = one_tree(&mut c.rng, n);
        let p = any_policy(&mut c.rng, n);
        let d = c.rng.chance(1, 2);
        refusal_case(c, &spec, p, d)
    });
    ctx.stage("user-counted", ctx.pick(240_000, 720_000), |c| {
        let m = c.rng.range(2, 30);
        let ops = OPS.with(Cell::get);
        let r = match c.idx % 3 { 0 => history::<UserRc>(c, m), 1 => history::<UserArc>(c, m), _ => history::<UserRcCounts>(c, m) };
        c.count("operations of user-defined counted references", OPS.with(Cell::get) - ops);
        r
    });
    ctx.stage("user-counted-chains", ctx.pick(300, 3_000), |c| {
        let ops = OPS.with(Cell::get);
        let links = c.rng.range(200, 1500);
        match c.idx % 3 { 0 => drop_case::<UserRc>(c, links), 1 => drop_case::<UserArc>(c, links), _ => drop_case::<UserRcCounts>(c, links) }?;
        let done = OPS.with(Cell::get) - ops;
        c.max("operations per 100 links of user-defined counted references", done * 100 / links as u64);
        // A link is up to 120 nodes when it is a chain of its own.
        if done > 3 * 24 * 90 * links as u64 { return Err(format!("{done} operations to drop a chain of {links} links")) }
        Ok(())
    });
}
