//! Independent reader of the notation: escapes are resolved into tokens first,
//! then a push-down machine with an explicit stack builds the expected items.

use crate::obs::{Item, T, Tx, NOPOS};

/// Delimiter classes (disjoint).  `ws: None` means Unicode whitespace.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Delims {
    pub start: Vec<char>,
    pub end: Vec<char>,
    pub esc: Vec<char>,
    pub ws: Option<Vec<char>>,
    /// Use the library's provided default classifier for the real parse.
    pub provided_default: bool,
}

impl Delims {
    pub fn default_set() -> Self {
        Delims { start: vec!['{'], end: vec!['}'], esc: vec!['\\'], ws: None, provided_default: true }
    }
    pub fn is_ws(&self, c: char) -> bool {
        match &self.ws { None => c.is_whitespace(), Some(v) => v.contains(&c) }
    }
    pub fn is_special(&self, c: char) -> bool {
        self.start.contains(&c) || self.end.contains(&c) || self.esc.contains(&c)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tok {
    Open(usize, char),
    Close(usize, char),
    Lit { c: char, at: usize, ws: bool },
    /// An escape character that ends the input: contributes nothing, but it is
    /// text.
    EscEnd,
}

pub fn tokens(cs: &[char], d: &Delims) -> Vec<Tok> {
    let mut v = Vec::with_capacity(cs.len());
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if d.esc.contains(&c) {
            if i + 1 < cs.len() {
                v.push(Tok::Lit { c: cs[i + 1], at: i + 1, ws: false });
                i += 2;
            } else {
                v.push(Tok::EscEnd);
                i += 1;
            }
            continue;
        }
        v.push(if d.start.contains(&c) { Tok::Open(i, c) }
               else if d.end.contains(&c) { Tok::Close(i, c) }
               else { Tok::Lit { c, at: i, ws: d.is_ws(c) } });
        i += 1;
    }
    v
}

/// What a bound macro does.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Act {
    Remove,
    Fail(u32),
    /// Fail with one of the library's own error values.
    FailMissing,
    FailAlloc,
    Extra(i64),
    EmptyNest,
    EmptyList,
    /// The operands: the raw text or the list.
    Operands,
    Operator,
    /// A nest of operator and operands.
    Rebuild,
    /// A two-element list of operator and operands.
    Pair,
    /// `Extra` of the number of characters or elements.
    Count,
    /// An improper list: operator followed by the operands as tail.
    Cons,
}

#[derive(Clone, Debug)]
pub struct Mac {
    pub key: T,
    /// Given raw text (true) or the parsed list (false).
    pub raw: bool,
    pub act: Act,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub mac: usize,
    pub operator: T,
    pub operands: T,
}

impl Call {
    pub fn same(&self, o: &Call) -> bool {
        self.mac == o.mac && self.operator.same(&o.operator) && self.operands.same(&o.operands)
    }
}

pub fn act_result(act: &Act, operator: T, operands: T) -> Result<Option<T>, Item> {
    Ok(Some(match act {
        Act::Remove => return Ok(None),
        Act::Fail(n) => return Err(Item::Macro(*n)),
        Act::FailMissing => return Err(Item::Missing),
        Act::FailAlloc => return Err(Item::Alloc),
        Act::Extra(n) => T::Extra(*n),
        Act::EmptyNest => T::EmptyNest,
        Act::EmptyList => T::EmptyList,
        Act::Operands => operands,
        Act::Operator => operator,
        Act::Rebuild => T::comb(operator, operands),
        Act::Pair => T::List(vec![operator, operands], None),
        Act::Count => T::Extra(match &operands {
            T::Text(t) => t.s.chars().count() as i64,
            T::List(v, _) => v.len() as i64,
            _ => 0,
        }),
        Act::Cons => match operands {
            T::EmptyList => T::List(vec![operator], None),
            T::List(mut v, t) => { v.insert(0, operator); T::List(v, t) }
            other => T::List(vec![operator], Some(Box::new(other))),
        },
    }))
}

enum St {
    /// Waiting for the head form.
    Head,
    HeadText(Tx),
    /// Right after a head form that was a nest.
    AfterHead,
    Args { cur: Option<Tx> },
    Raw { level: usize, text: Tx },
}

struct Frame {
    st: St,
    head: Option<T>,
    mac: Option<usize>,
    args: Vec<T>,
}

#[derive(Debug, Clone, Default)]
pub struct Expected {
    pub items: Vec<Item>,
    pub calls: Vec<Call>,
    /// For each item, number of calls made when it is yielded.
    pub calls_at: Vec<usize>,
    /// For each item, the number of input characters that must have been looked
    /// at (consumed, or peeked) for it to be decided.
    pub need: Vec<usize>,
    /// Deepest nesting.
    pub depth: usize,
}

pub fn expected(cs: &[char], d: &Delims, macs: &[Mac]) -> Expected {
    let toks = tokens(cs, d);
    let mut out = Expected::default();
    let mut stack: Vec<Frame> = vec![];
    let mut top: Option<Tx> = None;

    fn at_of(t: &Tok, n: usize) -> usize {
        match t { Tok::Open(i, _) | Tok::Close(i, _) => *i, Tok::Lit { at, .. } => *at, Tok::EscEnd => n - 1 }
    }

    macro_rules! emit {
        ($it:expr, $need:expr) => {{
            out.items.push($it);
            out.calls_at.push(out.calls.len());
            out.need.push($need);
        }};
    }

    let mut k = 0;
    while k < toks.len() {
        let tok = toks[k];
        // Number of characters up to and including this token.
        let upto = at_of(&tok, cs.len()) + 1;
        let Some(f) = stack.last_mut() else {
            match tok {
                Tok::Open(..) => {
                    if let Some(t) = top.take() { emit!(Item::Ok(T::Text(t)), upto) }
                    stack.push(Frame { st: St::Head, head: None, mac: None, args: vec![] });
                    out.depth = out.depth.max(stack.len());
                }
                Tok::Close(i, _) => {
                    top = None;
                    emit!(Item::Unbalanced { cp: i, bp: NOPOS, src: None }, upto);
                }
                Tok::Lit { c, at, .. } => top.get_or_insert_with(Tx::default).push(c, at),
                Tok::EscEnd => { let _ = top.get_or_insert_with(Tx::default); }
            }
            k += 1;
            continue;
        };

        // The result of the innermost nest, when this token completes it.
        let mut done: Option<Result<Option<T>, Item>> = None;
        let mut consumed = true;
        match &mut f.st {
            St::Head => match tok {
                Tok::Lit { ws: true, .. } => {}
                Tok::Lit { c, at, .. } => {
                    let mut t = Tx::default();
                    t.push(c, at);
                    f.st = St::HeadText(t);
                }
                Tok::EscEnd => f.st = St::HeadText(Tx::default()),
                Tok::Open(..) => {
                    stack.push(Frame { st: St::Head, head: None, mac: None, args: vec![] });
                    out.depth = out.depth.max(stack.len());
                }
                Tok::Close(..) => done = Some(Ok(Some(T::EmptyNest))),
            },
            St::HeadText(t) => match tok {
                Tok::Lit { c, at, ws: false } => t.push(c, at),
                Tok::EscEnd => {}
                _ => {
                    f.head = Some(T::Text(std::mem::take(t)));
                    f.st = St::AfterHead;
                    consumed = false;
                }
            },
            St::AfterHead => {
                // Exactly one whitespace character ends the head.
                consumed = matches!(tok, Tok::Lit { ws: true, .. });
                let head = f.head.as_ref().unwrap();
                f.mac = macs.iter().position(|m| m.key.same(head));
                f.st = match f.mac {
                    Some(m) if macs[m].raw => St::Raw { level: 0, text: Tx::default() },
                    _ => St::Args { cur: None },
                };
            }
            St::Args { cur } => match tok {
                Tok::Lit { c, at, .. } => cur.get_or_insert_with(Tx::default).push(c, at),
                Tok::EscEnd => { let _ = cur.get_or_insert_with(Tx::default); }
                Tok::Open(..) => {
                    if let Some(t) = cur.take() { f.args.push(T::Text(t)) }
                    stack.push(Frame { st: St::Head, head: None, mac: None, args: vec![] });
                    out.depth = out.depth.max(stack.len());
                }
                Tok::Close(..) => {
                    if let Some(t) = cur.take() { f.args.push(T::Text(t)) }
                    let head = f.head.take().unwrap();
                    let args = T::list(std::mem::take(&mut f.args));
                    done = Some(match f.mac {
                        None => Ok(Some(T::comb(head, args))),
                        Some(m) => {
                            out.calls.push(Call { mac: m, operator: head.clone(), operands: args.clone() });
                            act_result(&macs[m].act, head, args)
                        }
                    });
                }
            },
            St::Raw { level, text } => match tok {
                Tok::Lit { c, at, .. } => text.push(c, at),
                Tok::EscEnd => {}
                Tok::Open(i, c) => { text.push(c, i); *level += 1 }
                Tok::Close(i, c) if *level > 0 => { text.push(c, i); *level -= 1 }
                Tok::Close(..) => {
                    let head = f.head.take().unwrap();
                    let raw = T::Text(std::mem::take(text));
                    let m = f.mac.unwrap();
                    out.calls.push(Call { mac: m, operator: head.clone(), operands: raw.clone() });
                    done = Some(act_result(&macs[m].act, head, raw));
                }
            },
        }
        if consumed { k += 1 }
        match done {
            None => {}
            Some(Err(e)) => {
                stack.clear();
                emit!(e, upto);
            }
            Some(Ok(r)) => {
                stack.pop();
                match (stack.last_mut(), r) {
                    (_, None) => {} // removed: whoever was waiting keeps waiting
                    (None, Some(t)) => emit!(Item::Ok(t), upto),
                    (Some(p), Some(t)) => match p.st {
                        St::Head => { p.head = Some(t); p.st = St::AfterHead }
                        St::Args { .. } => p.args.push(t),
                        _ => unreachable!("model: nest delivered to a frame not expecting one"),
                    },
                }
            }
        }
    }
    if !stack.is_empty() {
        emit!(Item::Missing, cs.len() + 1);
    } else if let Some(t) = top {
        emit!(Item::Ok(T::Text(t)), cs.len() + 1);
    }
    out
}
