//! The concurrent workload and its judgement.  Only the standard library and
//! the crate under test are used, so that it runs natively, under a sanitizer,
//! and interpreted.

use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex, Weak};

use kul::datum::{ArcDatum, DatumArc};
use kul::Datum;

#[derive(Clone)]
pub struct Params { pub threads: usize, pub nodes: usize, pub steps: usize, pub rounds: usize, pub pauses: bool, pub spy: bool, pub on_start: fn(u64) }

#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    pub rounds: u64, pub clones: u64, pub drops: u64, pub walks: u64, pub nodes_read: u64, pub comparisons: u64,
    pub upgrades: u64, pub failed_upgrades: u64, pub payloads: u64, pub handed_over: u64, pub foreign: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.rounds += o.rounds; self.clones += o.clones; self.drops += o.drops; self.walks += o.walks; self.nodes_read += o.nodes_read;
        self.comparisons += o.comparisons; self.upgrades += o.upgrades; self.failed_upgrades += o.failed_upgrades; self.payloads += o.payloads;
        self.handed_over += o.handed_over; self.foreign += o.foreign;
    }
}

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(s.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def1) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
}

/// Destructions of the payloads of one round.
pub struct Led { drops: Vec<AtomicU32>, by: Vec<AtomicU64>, maker: u64, garbled: AtomicU32, pauses: bool }

pub struct Pay { serial: u32, label: u32, inner: Box<u32>, led: Arc<Led>, _pad: [u64; 21] }

const MAGIC: u32 = 0xfeed_5eed;

impl Pay {
    fn new(serial: usize, label: u32, led: &Arc<Led>) -> Pay {
        Pay { serial: serial as u32, label, inner: Box::new(serial as u32 ^ MAGIC), led: led.clone(), _pad: [0; 21] }
    }
}
/// Sharing a node must not copy what it holds.
impl Clone for Pay { fn clone(&self) -> Pay { panic!("a payload was copied") } }
impl PartialEq for Pay { fn eq(&self, o: &Pay) -> bool { self.label == o.label } }

fn me() -> u64 {
    static NEXT: AtomicU64 = AtomicU64::new(1);
    thread_local! { static ME: u64 = NEXT.fetch_add(1, Relaxed); }
    ME.try_with(|m| *m).unwrap_or(0)
}

/// Lets other threads get in between.
fn pause(k: u64) {
    match k % 8 { 0 => std::thread::yield_now(), 1 | 2 => for _ in 0..k % 64 { std::hint::spin_loop() }, _ => {} }
}

impl Drop for Pay {
    fn drop(&mut self) {
        if self.led.pauses { pause(self.led.drops[self.serial as usize].load(Relaxed) as u64 + me() * 31 + self.serial as u64 * 7) }
        self.led.drops[self.serial as usize].fetch_add(1, AcqRel);
        self.led.by[self.serial as usize].store(me(), Relaxed);
        if *self.inner != self.serial ^ MAGIC { self.led.garbled.fetch_add(1, Relaxed); }
    }
}

type H = DatumArc<Pay, Pay>;
type W = Weak<ArcDatum<Pay, Pay>>;

#[derive(Clone, Copy)]
enum N { Leaf(u8, u32), Br(bool, u32, u32) }

/// The shape of a round, as every thread must see it at any time.
struct Shape { spec: Vec<N>, class: Vec<u32>, addr: Vec<usize> }

struct Round {
    shape: Arc<Shape>, led: Arc<Led>,
    strong: Vec<Mutex<Vec<(H, u32)>>>,
    weak: Vec<Mutex<Vec<(W, u32)>>>,
    slot: Mutex<Option<(H, u32)>>,
    spies: Vec<W>,
}

fn round(rng: &mut Rng, p: &Params) -> Round {
    let n = 1 + rng.below(p.nodes);
    let mut spec: Vec<N> = vec![];
    for i in 0..n {
        if i == 0 || rng.below(3) == 0 { spec.push(N::Leaf(rng.below(4) as u8, rng.below(3) as u32)); continue }
        let near = |rng: &mut Rng| if rng.below(2) == 0 { (i - 1 - rng.below(i.min(2))) as u32 } else { rng.below(i) as u32 };
        let (l, r) = (near(rng), near(rng));
        spec.push(N::Br(rng.below(2) == 0, l, r));
    }
    let mut classes: HashMap<(u8, u32, u32), u32> = HashMap::new();
    let mut class: Vec<u32> = vec![];
    for s in &spec {
        let key = match *s { N::Leaf(k, l) => (k, if k < 2 { l } else { 0 }, 0), N::Br(c, l, r) => (10 + c as u8, class[l as usize], class[r as usize]) };
        let next = classes.len() as u32;
        class.push(*classes.entry(key).or_insert(next));
    }
    let led = Arc::new(Led { drops: (0..n).map(|_| AtomicU32::new(0)).collect(), by: (0..n).map(|_| AtomicU64::new(0)).collect(), maker: me(), garbled: AtomicU32::new(0), pauses: p.pauses });
    let mut hs: Vec<H> = vec![];
    for (i, s) in spec.iter().enumerate() {
        let d = match *s {
            N::Leaf(0, l) => Datum::Text(Pay::new(i, l, &led)),
            N::Leaf(1, l) => Datum::Extra(Pay::new(i, l, &led)),
            N::Leaf(2, _) => Datum::EmptyNest,
            N::Leaf(..) => Datum::EmptyList,
            N::Br(true, l, r) => Datum::Combination { operator: hs[l as usize].clone(), operands: hs[r as usize].clone() },
            N::Br(false, l, r) => Datum::List { elem: hs[l as usize].clone(), next: hs[r as usize].clone() },
        };
        hs.push(DatumArc::new(d));
    }
    let addr = hs.iter().map(|h| Arc::as_ptr(&h.0) as usize).collect();
    let mut strong: Vec<Vec<(H, u32)>> = (0..p.threads).map(|_| vec![]).collect();
    let mut weak: Vec<Vec<(W, u32)>> = (0..p.threads).map(|_| vec![]).collect();
    // Threads own tops and parts; some only have weak references.
    for t in 0..p.threads {
        for _ in 0..rng.below(3) {
            let i = if rng.below(2) == 0 { n - 1 } else { rng.below(n) };
            strong[t].push((hs[i].clone(), i as u32));
        }
        for _ in 0..rng.below(3) {
            let i = if rng.below(2) == 0 { n - 1 } else { rng.below(n) };
            weak[t].push((Arc::downgrade(&hs[i].0), i as u32));
        }
    }
    let t = rng.below(p.threads);
    strong[t].push((hs[n - 1].clone(), n as u32 - 1));
    let spies = if p.spy { hs.iter().map(|h| Arc::downgrade(&h.0)).collect() } else { vec![] };
    while let Some(h) = hs.pop() { drop(h) }
    Round { shape: Arc::new(Shape { spec, class, addr }), led, strong: strong.into_iter().map(Mutex::new).collect(), weak: weak.into_iter().map(Mutex::new).collect(), slot: Mutex::new(None), spies }
}

fn read(sh: &Shape, h: &H, i: u32, st: &mut Stats) -> Result<(), String> {
    st.walks += 1;
    let mut todo = vec![(h, i)];
    let mut budget = 64;
    while let Some((h, i)) = todo.pop() {
        st.nodes_read += 1;
        budget -= 1;
        if budget == 0 { break }
        if Arc::as_ptr(&h.0) as usize != sh.addr[i as usize] { return Err(format!("a reader found another node in the place of node {i}")) }
        let ok = match (&**h, sh.spec[i as usize]) {
            (Datum::Text(t), N::Leaf(0, l)) | (Datum::Extra(t), N::Leaf(1, l)) => t.serial == i && t.label == l && *t.inner == i ^ MAGIC && t.led.drops[i as usize].load(Acquire) == 0,
            (Datum::EmptyNest, N::Leaf(2, _)) | (Datum::EmptyList, N::Leaf(3, _)) => true,
            (Datum::Combination { operator: a, operands: b }, N::Br(true, l, r)) | (Datum::List { elem: a, next: b }, N::Br(false, l, r)) => { todo.push((a, l)); todo.push((b, r)); true }
            _ => false,
        };
        if !ok { return Err(format!("a reader found altered content in node {i}")) }
    }
    Ok(())
}

fn act(t: usize, r: &Round, rng: &mut Rng, steps: usize, st: &mut Stats) -> Result<(), String> {
    let mut mine = std::mem::take(&mut *r.strong[t].lock().unwrap());
    let mut weak = std::mem::take(&mut *r.weak[t].lock().unwrap());
    let sh = &*r.shape;
    for _ in 0..rng.below(steps + 1) {
        match rng.below(12) {
            0 if !mine.is_empty() => { let k = rng.below(mine.len()); let (h, i) = &mine[k]; let c = (h.clone(), *i); mine.push(c); st.clones += 1 }
            1 if !mine.is_empty() => { let k = rng.below(mine.len()); read(sh, &mine[k].0, mine[k].1, st)? }
            2 if !mine.is_empty() => {
                let (a, b) = (rng.below(mine.len()), rng.below(mine.len()));
                // Shared parts can make a comparison long.
                if sh.spec.len() <= 12 {
                    st.comparisons += 1;
                    let want = sh.class[mine[a].1 as usize] == sh.class[mine[b].1 as usize];
                    if (mine[a].0 == mine[b].0) != want { return Err(format!("comparing nodes {} and {} did not give {want}", mine[a].1, mine[b].1)) }
                }
            }
            3 | 4 if !mine.is_empty() => { let k = rng.below(mine.len()); let (h, _) = mine.swap_remove(k); drop(h); st.drops += 1 }
            5 | 6 | 7 if !weak.is_empty() => {
                let k = rng.below(weak.len());
                let i = weak[k].1;
                let up = weak[k].0.upgrade().map(DatumArc);
                if rng.below(2) == 0 { weak.swap_remove(k); }
                match up {
                    Some(h) => {
                        st.upgrades += 1;
                        if rng.below(2) == 0 { read(sh, &h, i, st)? }
                        if rng.below(3) == 0 { drop(h); st.drops += 1 } else { mine.push((h, i)) }
                    }
                    None => st.failed_upgrades += 1,
                }
            }
            8 if !mine.is_empty() => { let k = rng.below(mine.len()); weak.push((Arc::downgrade(&mine[k].0 .0), mine[k].1)) }
            9 | 10 if !mine.is_empty() => {
                // Own a part instead of, or besides, the whole.
                let k = rng.below(mine.len());
                let part = match (&*mine[k].0, sh.spec[mine[k].1 as usize]) {
                    (Datum::Combination { operator: a, operands: b } | Datum::List { elem: a, next: b }, N::Br(_, l, r)) => Some(if rng.below(2) == 0 { (a.clone(), l) } else { (b.clone(), r) }),
                    _ => None,
                };
                if let Some(p) = part { if rng.below(2) == 0 { drop(mine.swap_remove(k)); st.drops += 1 } mine.push(p); st.clones += 1 }
            }
            _ => {
                // Hand over an owner to whoever comes next.
                let give = if mine.is_empty() || rng.below(3) == 0 { None } else { let k = rng.below(mine.len()); Some(mine.swap_remove(k)) };
                let got = std::mem::replace(&mut *r.slot.lock().unwrap(), give);
                if let Some(g) = got { st.handed_over += 1; mine.push(g) }
            }
        }
    }
    while !mine.is_empty() {
        let k = rng.below(mine.len());
        if rng.below(3) == 0 { read(sh, &mine[k].0, mine[k].1, st)? }
        drop(mine.swap_remove(k));
        st.drops += 1;
        if !weak.is_empty() && rng.below(2) == 0 {
            let k = rng.below(weak.len());
            let (w, i) = weak.swap_remove(k);
            let up = w.upgrade().map(DatumArc);
            drop(w);
            if let Some(h) = up { st.upgrades += 1; read(sh, &h, i, st)?; drop(h); st.drops += 1 }
        }
    }
    // Weak references that outlive the owners of this thread.
    *r.weak[t].lock().unwrap() = weak;
    Ok(())
}

fn meet(at: &AtomicUsize, goal: usize) {
    at.fetch_add(1, AcqRel);
    let mut k = 0u32;
    while at.load(Acquire) < goal {
        k += 1;
        if k > 2000 || cfg!(miri) { std::thread::yield_now() } else { std::hint::spin_loop() }
    }
}

fn message(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())
}

pub fn case(seed: u64, p: &Params) -> Result<Stats, String> {
    let mut rng = Rng::new(seed);
    let rounds: Vec<Round> = (0..p.rounds).map(|_| round(&mut rng, p)).collect();
    let at = AtomicUsize::new(0);
    let gone = AtomicUsize::new(0);
    let mut st = Stats::default();
    let results: Vec<Result<Stats, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..p.threads).map(|t| {
            let (rounds, at, gone) = (&rounds, &at, &gone);
            s.spawn(move || {
                (p.on_start)(seed ^ t as u64);
                let mut st = Stats::default();
                let mut rng = Rng::new(seed ^ (t as u64 + 1) << 40);
                let mut bad = None;
                for (k, r) in rounds.iter().enumerate() {
                    meet(at, (k + 1) * p.threads);
                    if bad.is_some() || gone.load(Relaxed) > 0 { continue }
                    for _ in 0..rng.below(4) * 20 { std::hint::spin_loop() }
                    match catch_unwind(AssertUnwindSafe(|| act(t, r, &mut rng, p.steps, &mut st))) {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => bad = Some(format!("round {k}: {e}")),
                        Err(m) => bad = Some(format!("round {k}: a thread panicked: {}", message(m))),
                    }
                    if bad.is_some() { gone.store(1, Relaxed) }
                }
                bad.map_or(Ok(st), Err)
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|m| Err(format!("a thread panicked: {}", message(m))))).collect()
    });
    for r in results { st.add(&r?) }
    for (k, r) in rounds.iter().enumerate() {
        st.rounds += 1;
        let left = r.slot.lock().unwrap().take();
        if let Some((h, i)) = left { read(&r.shape, &h, i, &mut st)?; drop(h) }
        for (i, s) in r.shape.spec.iter().enumerate() {
            if let N::Leaf(0 | 1, _) = s {
                st.payloads += 1;
                let d = r.led.drops[i].load(Acquire);
                if d != 1 { return Err(format!("round {k}: after all owners are gone the payload of node {i} was destroyed {d} times")) }
                if r.led.by[i].load(Relaxed) != r.led.maker { st.foreign += 1 }
            }
        }
        if r.led.garbled.load(Relaxed) > 0 { return Err(format!("round {k}: a destroyed payload had been altered")) }
        let weak: Vec<W> = r.weak.iter().flat_map(|w| std::mem::take(&mut *w.lock().unwrap())).map(|w| w.0).collect();
        for w in weak.iter().chain(&r.spies) {
            if w.strong_count() != 0 || w.upgrade().is_some() { return Err(format!("round {k}: a node is still owned after all owners are gone")) }
        }
    }
    Ok(st)
}

/// The bytes of one tree node, for counting them.
#[allow(dead_code)]
pub fn probe() -> impl Drop {
    DatumArc::<Pay, Pay>::new(Datum::EmptyNest)
}
