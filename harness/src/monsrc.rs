//! A user-supplied source stream that watches how it is driven.

use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;

use kul::parser::{AllocError, DatumAllocator};
use kul::text::chunk::{PosStr, StrPos};
use kul::{SourceIterItem, SourceStream, Text, TextBase, TextConcat};

use crate::configs::{enter, At, FailPlan};
use crate::model::{Call, Delims};
use crate::obs::{Item, T};
use crate::runner::violate;

#[derive(Default)]
pub struct MonLog {
    pub cursor: usize,
    peeked: bool,
    after_escape: bool,
    /// Characters accumulated and not finished.
    pending: Vec<usize>,
    /// The pending accumulation belongs to a step that reported an error.
    orphan: HashSet<usize>,
    finished: Vec<usize>,
    abandoned: Option<usize>,
    failed: usize,
    fail_calls: usize,
    ops: u64,
    start: usize,
    // Totals.
    pub peeks: u64,
    pub advances: u64,
    pub accumulated: u64,
    pub finishes: u64,
    pub failures: u64,
    pub steps: u64,
    pub max_ops_per_char: u64,
}

pub struct MonSrc<'s> {
    src: &'s str,
    chars: Vec<(usize, char)>,
    cur: Option<SourceIterItem<StrPos<'s>>>,
    esc: Vec<char>,
    plan: FailPlan,
    /// What a failing accumulation does besides failing.
    consume_on_fail: bool,
    keep_on_fail: bool,
    pub log: Rc<RefCell<MonLog>>,
    /// Judge the driving (needs disjoint delimiter classes).
    strict: bool,
}

impl<'s> MonSrc<'s> {
    pub fn new(src: &'s str, d: &Delims, plan: FailPlan, seed: u64, strict: bool) -> Self {
        MonSrc { src, chars: src.char_indices().collect(), cur: None, esc: d.esc.clone(), plan,
                 consume_on_fail: seed & 1 == 1, keep_on_fail: seed & 2 == 2, log: Rc::default(), strict }
    }
    fn item(&self, i: usize) -> Option<SourceIterItem<StrPos<'s>>> {
        self.chars.get(i).map(|&(b, ch)| SourceIterItem { ch, pos: StrPos { src: self.src, byte_pos: b, char_pos: i } })
    }
    fn fails(&self) -> bool {
        let mut l = self.log.borrow_mut();
        let n = l.fail_calls;
        l.fail_calls += 1;
        let f = self.plan.fails(n);
        if f { l.failed += 1; l.failures += 1 }
        f
    }
    fn op(&self) {
        enter(At::Source);
        let mut l = self.log.borrow_mut();
        l.ops += 1;
        let used = (l.cursor - l.start) as u64;
        // Every consumed character may be looked at a few times.
        if l.ops > 64 * (used + 1) {
            drop(l);
            violate("the work done on the source in one step is not bounded by the characters consumed in it".into());
        }
    }
    fn may_consume(&self) {
        let l = self.log.borrow();
        if self.strict && l.cursor < self.chars.len() && !l.peeked && !l.after_escape {
            let c = l.cursor;
            drop(l);
            violate(format!("character {c} was consumed without peeking at it, and not directly after an escape"));
        }
    }
}

impl<'s> Iterator for MonSrc<'s> {
    type Item = SourceIterItem<StrPos<'s>>;
    fn next(&mut self) -> Option<Self::Item> {
        self.op();
        self.may_consume();
        let mut l = self.log.borrow_mut();
        if let Some(&c) = l.pending.iter().find(|c| !l.orphan.contains(*c)) { l.abandoned = Some(c) }
        l.pending.clear();
        let it = self.item(l.cursor);
        if let Some(i) = &it {
            l.cursor += 1;
            l.advances += 1;
            l.peeked = false;
            l.after_escape = self.esc.contains(&i.ch);
        }
        it
    }
}

impl<'s, DA> SourceStream<DA> for MonSrc<'s>
    where DA: DatumAllocator, DA::TT: TextConcat<DA> + Text<Chunk = PosStr<'s>> + TextBase<Pos = StrPos<'s>>,
{
    fn peek(&mut self) -> Option<&Self::Item> {
        self.op();
        let mut l = self.log.borrow_mut();
        l.peeked = true;
        l.peeks += 1;
        self.cur = self.item(l.cursor);
        self.cur.as_ref()
    }
    fn next_accum(&mut self, _: &mut DA) -> Result<Option<Self::Item>, AllocError> {
        self.op();
        self.may_consume();
        if self.fails() {
            let mut l = self.log.borrow_mut();
            if self.consume_on_fail && l.cursor < self.chars.len() { l.cursor += 1 }
            if !self.keep_on_fail { l.pending.clear() }
            l.peeked = false;
            l.after_escape = false;
            return Err(AllocError::AllocExhausted);
        }
        let mut l = self.log.borrow_mut();
        let it = self.item(l.cursor);
        if it.is_some() {
            let c = l.cursor;
            l.pending.push(c);
            l.cursor += 1;
            l.accumulated += 1;
            l.peeked = false;
            l.after_escape = false;
        }
        Ok(it)
    }
    fn accum_done(&mut self, da: &mut DA) -> Result<DA::TT, AllocError> {
        self.op();
        let empty = self.log.borrow().pending.is_empty();
        if !empty && self.fails() {
            if !self.keep_on_fail { self.log.borrow_mut().pending.clear() }
            return Err(AllocError::AllocExhausted);
        }
        let p = {
            let mut l = self.log.borrow_mut();
            l.finishes += 1;
            let p = std::mem::take(&mut l.pending);
            l.finished.extend(&p);
            p
        };
        let mut text = DA::TT::empty();
        let mut i = 0;
        while i < p.len() {
            let mut j = i + 1;
            while j < p.len() && p[j] == p[j - 1] + 1 { j += 1 }
            let from = self.chars[p[i]].0;
            let (b, c) = self.chars[p[j - 1]];
            let chunk = PosStr { val: &self.src[from..b + c.len_utf8()], pos: StrPos { src: self.src, byte_pos: from, char_pos: p[i] } };
            let next = DA::TT::from(chunk);
            text = if i == 0 { next } else { text.concat(next, da)? };
            i = j;
        }
        Ok(text)
    }
}

fn positions(t: &T, out: &mut Vec<usize>) { t.texts(&mut |x| out.extend(&x.cpos)) }

/// Judges a finished step.  `can_fail`: a macro may itself return an
/// allocation error.
pub fn after_step(log: &Rc<RefCell<MonLog>>, strict: bool, n: usize, item: Option<&Item>, calls: &[Call], alloc_failed: usize, can_fail: bool) {
    let mut l = log.borrow_mut();
    l.steps += 1;
    let failed = l.failed + alloc_failed;
    let used = (l.cursor - l.start) as u64;
    l.max_ops_per_char = l.max_ops_per_char.max(l.ops / (used + 1));
    let bad = match item {
        _ if !strict => None,
        Some(Item::Alloc) if failed == 0 && !can_fail => Some("an allocation error was reported although neither the source nor the allocator failed".to_string()),
        Some(Item::Alloc) => None,
        _ if failed > 0 => Some(format!("the source or the allocator reported exhaustion, but the step gave {}", item.map_or("the end".into(), Item::brief))),
        None | Some(Item::Ok(_)) => {
            let mut all = vec![];
            if let Some(Item::Ok(t)) = item { positions(t, &mut all) }
            for c in calls { positions(&c.operator, &mut all); positions(&c.operands, &mut all) }
            let all: HashSet<usize> = all.into_iter().collect();
            let fin: HashSet<usize> = l.finished.iter().copied().collect();
            if item.is_none() && l.cursor != n {
                Some(format!("the parse ended after consuming {} of {n} characters", l.cursor))
            } else if let Some(c) = l.abandoned {
                Some(format!("the step succeeded although the accumulation of character {c} was abandoned"))
            } else if !l.pending.iter().all(|c| l.orphan.contains(c)) {
                Some(format!("the step succeeded while the accumulation of characters {:?} was not finished", l.pending))
            } else if let Some(c) = l.finished.iter().find(|c| !all.contains(c) && !l.orphan.contains(c)) {
                Some(format!("character {c} was accumulated and finished, but is neither in the delivered form nor in macro arguments of the step"))
            } else {
                all.iter().find(|c| !fin.contains(c)).map(|c| format!("character {c} is in a delivered text or macro argument of the step but was not accumulated in it"))
            }
        }
        Some(_) => None,
    };
    let err = matches!(item, Some(i) if i.is_err());
    if err { let p = l.pending.clone(); l.orphan.extend(p) }
    l.finished.clear();
    l.abandoned = None;
    l.failed = 0;
    l.ops = 0;
    l.start = l.cursor;
    drop(l);
    if let Some(m) = bad { violate(m) }
}
