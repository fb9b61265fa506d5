//! Input generators.

use crate::model::{Act, Delims, Mac};
use crate::obs::{Tx, T};
use crate::rng::Rng;

/// Ordinary characters: all UTF-8 lengths and their borders, combining marks,
/// zero-width characters, things that look like delimiters.
pub const ORD: &[char] = &[
    'a', 'b', 'm', 'x', 'Z', '0', '#', '(', ')', '[', ']', '/', '"', '\u{0}', '\u{7f}',
    '\u{80}', 'é', 'ß', '\u{7ff}', '\u{800}', 'λ', '▷', '\u{fffd}', '\u{ffff}', '\u{feff}',
    '\u{200b}', '\u{301}', '\u{d7ff}', '\u{e000}', '\u{10000}', '😀', '\u{10ffff}', '｛', '｝', '＼',
    '\u{180e}', '\u{2060}', '\u{1c}', '\u{fffe}', '\u{fdd0}', '\u{1fffe}',
];

/// Different characters that some notion of equivalence puts together.
pub const ALIKE: &[(char, char)] = &[
    ('\u{212b}', '\u{c5}'), ('\u{2126}', '\u{3a9}'), ('\u{212a}', 'K'), ('\u{37e}', ';'), ('\u{1fef}', '`'),
    ('\u{2000}', '\u{2002}'), ('\u{2001}', '\u{2003}'), ('\u{340}', '\u{300}'), ('\u{f900}', '\u{8c48}'),
    ('a', 'A'), ('é', 'É'), ('λ', 'Λ'), ('σ', 'ς'), ('ß', '\u{1e9e}'), ('i', '\u{131}'), ('I', '\u{130}'), ('s', '\u{17f}'),
    ('\u{b5}', '\u{3bc}'), ('1', '\u{ff11}'), ('a', '\u{ff41}'), ('{', '｛'), ('}', '｝'), ('\\', '＼'), ('2', '\u{b2}'),
    (' ', '\u{a0}'), (' ', '\t'), ('\r', '\n'), ('\n', '\u{85}'), ('\u{2028}', '\n'), ('-', '\u{2010}'), ('-', '\u{ad}'),
    ('a', '\u{430}'), ('o', '\u{3bf}'), ('\u{fffd}', '\u{fffe}'), ('\u{fffd}', '\u{ffff}'), ('\u{200b}', '\u{feff}'),
];

/// Two different characters, alike or one bit or one step apart.
pub fn alike(rng: &mut Rng) -> (char, char) {
    loop {
        let (a, b) = match rng.below(4) {
            0 | 1 => *rng.pick(ALIKE),
            2 => { let c = any_char(rng); (c, char::from_u32(c as u32 ^ (1 << rng.below(21))).unwrap_or(c)) }
            _ => { let c = any_char(rng); (c, char::from_u32(c as u32 + 1).unwrap_or(c)) }
        };
        if a != b { return if rng.chance(1, 2) { (a, b) } else { (b, a) } }
    }
}

/// Unicode whitespace.
pub const WS: &[char] = &[
    ' ', '\t', '\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2003}',
    '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}',
];

pub fn ws_char(rng: &mut Rng, d: &Delims) -> Option<char> {
    match &d.ws {
        Some(v) if v.is_empty() => None,
        Some(v) => Some(*rng.pick(v)),
        None => Some(if rng.chance(2, 3) { *rng.pick(&WS[..4]) } else { *rng.pick(WS) }),
    }
}

pub fn any_char(rng: &mut Rng) -> char {
    if rng.chance(1, 12) {
        loop {
            let top = *rng.pick(&[0x80u32, 0x800, 0x1_0000, 0x11_0000]);
            if let Some(c) = char::from_u32(rng.below(top as usize) as u32) { return c }
        }
    }
    if rng.chance(1, 2) { *rng.pick(&ORD[..6]) } else { *rng.pick(ORD) }
}

/// A character that is not a bracket, escape or whitespace under `d`.
pub fn ord_char(rng: &mut Rng, d: &Delims) -> char {
    for _ in 0..64 {
        let c = any_char(rng);
        if !d.is_special(c) && !d.is_ws(c) { return c }
    }
    loop {
        let c = char::from_u32(0x4e00 + rng.below(2000) as u32).unwrap();
        if !d.is_special(c) && !d.is_ws(c) { return c }
    }
}

/// Any string, delimiters likely.
pub fn soup(rng: &mut Rng, d: &Delims, len: usize) -> String {
    let style = rng.below(5);
    let (wb, ww, we) = match style { 0 => (20, 15, 10), 1 => (50, 10, 5), 2 => (10, 40, 10), 3 => (20, 5, 40), _ => (5, 5, 3) };
    (0..len).map(|_| {
        let r = rng.below(100);
        if r < wb {
            let open = rng.chance(1, 2);
            let set = if open { &d.start } else { &d.end };
            if set.is_empty() { ord_char(rng, d) } else { *rng.pick(set) }
        } else if r < wb + ww {
            ws_char(rng, d).unwrap_or('a')
        } else if r < wb + ww + we && !d.esc.is_empty() {
            *rng.pick(&d.esc)
        } else {
            ord_char(rng, d)
        }
    }).collect()
}

/// Options for trees to be written out.
pub struct TreeOpts {
    pub max_nodes: usize,
    pub max_depth: usize,
    pub heads: Vec<String>,
    pub text_len: usize,
}

/// Writes a random well-formed text by choosing a tree and writing it with
/// random optional whitespace and escapes.
pub fn structured(rng: &mut Rng, d: &Delims, heads: &[String], budget: usize) -> String {
    let mut s = String::new();
    let mut left = budget;
    while left > 0 {
        left -= 1;
        if rng.chance(1, 2) { write_text(rng, d, &mut s, 6) }
        write_nest(rng, d, heads, &mut s, &mut left, 0);
        if rng.chance(1, 4) { break }
    }
    if rng.chance(1, 3) { write_text(rng, d, &mut s, 6) }
    s
}

fn write_text(rng: &mut Rng, d: &Delims, s: &mut String, max: usize) {
    let n = rng.range(1, max.max(1));
    for _ in 0..n {
        let r = rng.below(20);
        if r < 3 {
            if let Some(w) = ws_char(rng, d) { s.push(w) }
        } else if r < 5 && !d.esc.is_empty() {
            s.push(*rng.pick(&d.esc));
            let c = match rng.below(4) {
                0 => *rng.pick(&d.esc),
                1 if !d.start.is_empty() => *rng.pick(&d.start),
                2 if !d.end.is_empty() => *rng.pick(&d.end),
                _ => ws_char(rng, d).unwrap_or('q'),
            };
            s.push(c);
        } else {
            s.push(ord_char(rng, d));
        }
    }
}

fn write_ws(rng: &mut Rng, d: &Delims, s: &mut String, max: usize) {
    for _ in 0..rng.below(max + 1) {
        if let Some(w) = ws_char(rng, d) { s.push(w) }
    }
}

fn write_nest(rng: &mut Rng, d: &Delims, heads: &[String], s: &mut String, left: &mut usize, depth: usize) {
    if d.start.is_empty() || d.end.is_empty() { return write_text(rng, d, s, 4) }
    s.push(*rng.pick(&d.start));
    if rng.chance(1, 3) { write_ws(rng, d, s, 3) }
    if rng.chance(1, 7) {
        s.push(*rng.pick(&d.end));
        return;
    }
    // Head.
    if *left > 0 && rng.chance(1, 5) && depth < 40 {
        *left -= 1;
        write_nest(rng, d, heads, s, left, depth + 1);
        if rng.chance(1, 8) { write_ws(rng, d, s, 2) }
    } else if !heads.is_empty() && rng.chance(3, 5) {
        let h = rng.pick(heads).clone();
        s.push_str(&h);
    } else {
        let n = rng.range(1, 4);
        for _ in 0..n {
            if rng.chance(1, 6) && !d.esc.is_empty() {
                s.push(*rng.pick(&d.esc));
                s.push(ws_char(rng, d).unwrap_or('q'));
            } else {
                s.push(ord_char(rng, d));
            }
        }
    }
    if rng.chance(4, 5) { write_ws(rng, d, s, 2) }
    // Operands.
    loop {
        match rng.below(8) {
            0 | 1 => write_text(rng, d, s, 4),
            2 | 3 | 4 if *left > 0 && depth < 40 => {
                *left -= 1;
                write_nest(rng, d, heads, s, left, depth + 1);
            }
            _ => break,
        }
    }
    s.push(*rng.pick(&d.end));
}

/// Inserts, deletes, replaces, duplicates and truncates.
pub fn mutate(rng: &mut Rng, d: &Delims, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..rng.range(1, 4) {
        let n = v.len();
        match rng.below(6) {
            0 => { let c = soup(rng, d, 1); let at = rng.below(n + 1); v.splice(at..at, c.chars()); }
            1 if n > 0 => { let at = rng.below(n); v.remove(at); }
            2 if n > 0 => { let at = rng.below(n); v[at] = soup(rng, d, 1).chars().next().unwrap(); }
            3 if n > 0 => {
                let a = rng.below(n);
                let b = (a + 1 + rng.below(6)).min(n);
                let part: Vec<char> = v[a..b].to_vec();
                let at = rng.below(n + 1);
                v.splice(at..at, part);
            }
            4 if n > 0 => { let at = rng.below(n); v.truncate(at); }
            _ if n > 0 => { let at = rng.below(n); v.drain(..at); }
            _ => {}
        }
    }
    v.into_iter().collect()
}

/// A random input of any of the styles.
pub fn input(rng: &mut Rng, d: &Delims, heads: &[String], max: usize) -> String {
    match rng.below(10) {
        0..=2 => { let n = rng.size(max); soup(rng, d, n) }
        3..=6 => { let b = 1 + rng.size(max / 6 + 1); structured(rng, d, heads, b) }
        _ => {
            let b = 1 + rng.size(max / 6 + 1);
            let s = structured(rng, d, heads, b);
            mutate(rng, d, &s)
        }
    }
}

/// A random well-formed input.
pub fn well_formed(rng: &mut Rng, d: &Delims, heads: &[String], max: usize) -> String {
    let b = 1 + rng.size(max / 6 + 1);
    structured(rng, d, heads, b)
}

/// Disjoint delimiter classes, sometimes swapping the default roles, sometimes
/// empty.
pub fn delims(rng: &mut Rng) -> Delims {
    let mut pool: Vec<char> = vec!['{', '}', '\\', ' ', '\n', '(', ')', '[', ']', '/', 'a', 'x', '#', '«', '»', 'λ',
                                   '😀', '\u{a0}', '\u{3000}', '\u{0}', '\u{10ffff}', '\u{301}', '`', 'é'];
    let mut take = |rng: &mut Rng, n: usize, no_ws: bool| -> Vec<char> {
        let mut v = vec![];
        for _ in 0..n {
            for _ in 0..20 {
                if pool.is_empty() { break }
                let i = rng.below(pool.len());
                if no_ws && pool[i].is_whitespace() { continue }
                v.push(pool.swap_remove(i));
                break;
            }
        }
        v
    };
    let uni_ws = rng.chance(1, 3);
    let n = |rng: &mut Rng| if rng.chance(1, 10) { 0 } else if rng.chance(2, 3) { 1 } else { rng.range(1, 4) };
    let (a, b, c, w) = (n(rng), n(rng), n(rng), n(rng));
    let start = take(rng, a, uni_ws);
    let end = take(rng, b, uni_ws);
    let esc = take(rng, c, uni_ws);
    let ws = if uni_ws { None } else { Some(take(rng, w, false)) };
    Delims { start, end, esc, ws, provided_default: false }
}

/// `i`-th string over `alphabet`, shortest first.
pub fn nth_string(mut i: u64, alphabet: &[char]) -> String {
    let k = alphabet.len() as u64;
    let mut len = 0u32;
    let mut block = 1u64;
    while i >= block {
        i -= block;
        len += 1;
        block *= k;
    }
    let mut v = vec![];
    for _ in 0..len {
        v.push(alphabet[(i % k) as usize]);
        i /= k;
    }
    v.iter().rev().collect()
}

/// Number of strings over `k` symbols up to length `len`.
pub fn count_strings(k: u64, len: u32) -> u64 {
    (0..=len).map(|l| k.pow(l)).sum()
}

pub const SMALL: &[char] = &['a', ' ', '{', '}', '\\'];

/// Large regular inputs; sizes around powers of two.
pub fn magnitude(i: u64, max_pow: u32, depth_pow: u32, d: &Delims) -> Option<(String, String)> {
    let fams: &[(&str, u32)] = &[
        ("long top text", max_pow), ("long multibyte text", max_pow), ("many siblings", max_pow - 1),
        ("many nests", max_pow - 1), ("many escapes", max_pow - 1), ("long head", max_pow),
        ("long whitespace before head", max_pow), ("long whitespace in operands", max_pow),
        ("deep nests", depth_pow), ("deep heads", depth_pow), ("many unbalanced ends", max_pow - 1),
        ("unclosed after long", max_pow), ("many empty nests in operands", max_pow - 1),
        ("many escaped brackets in head", max_pow - 1), ("deep unclosed", depth_pow),
        ("error after many forms", max_pow - 1),
    ];
    let mut i = i;
    for (name, pow) in fams {
        let per = u64::from((*pow).max(4) - 3) * 3;
        if i >= per { i -= per; continue }
        let p = 4 + (i / 3) as u32;
        let n = match i % 3 { 0 => (1usize << p) - 1, 1 => 1usize << p, _ => (1usize << p) + 1 };
        let (o, c, e) = (d.start[0], d.end[0], d.esc[0]);
        let w = match &d.ws { None => ' ', Some(v) => v[0] };
        let rep = |s: &str, n: usize| s.repeat(n);
        let s = match *name {
            "long top text" => rep("x", n),
            "long multibyte text" => rep("é", n / 3) + &rep("😀", n / 3) + &rep("▷", n - 2 * (n / 3)),
            "many siblings" => format!("{o}h {}{c}", rep(&format!("{o}{c}t"), n)),
            "many nests" => rep(&format!("{o}a b{c}"), n),
            "many escapes" => rep(&format!("y{e}{e}{e}{o}z"), n),
            "long head" => format!("{o}{} b{c}", rep("h", n)),
            "long whitespace before head" => format!("{o}{}h{w}t{c}", w.to_string().repeat(n)),
            "long whitespace in operands" => format!("{o}h{}{c}", w.to_string().repeat(n)),
            "deep nests" => rep(&format!("{o}n "), n) + "leaf" + &rep(&format!("{c}"), n),
            "deep heads" => rep(&format!("{o}"), n) + "leaf" + &rep(&format!("{c}"), n),
            "many unbalanced ends" => rep(&format!("a{c}"), n),
            "unclosed after long" => format!("ok{o}a {}{o}b", rep("t", n)),
            "many empty nests in operands" => format!("{o}h{w}{}{c}", rep(&format!("{o}{c}"), n)),
            "many escaped brackets in head" => format!("{o}{}{w}b{c}", rep(&format!("{e}{o}{e}{c}{e}{w}"), n)),
            "deep unclosed" => rep(&format!("{o}n "), n),
            _ => rep(&format!("{o}a{c}b"), n) + &format!("{c}tail{o}x{c}"),
        };
        return Some((format!("{name} n={n}"), s));
    }
    None
}

/// Runs of text around 2^16 and more characters long, with a few delimiters
/// and escapes between and behind them, in no, few or long chunks.
pub fn long(rng: &mut Rng, d: &Delims) -> (String, Vec<usize>) {
    let mut s = String::new();
    let mut n = 0;
    for _ in 0..rng.range(1, 2) {
        let len = match rng.below(4) { 0 => 65_536, 1 => 32_768, 2 => 131_072, _ => 65_536 + rng.below(9000) } + rng.below(5) - 2;
        let unit = *rng.pick(&["a", "é", "▷", "😀", "ab ", "x😀"]);
        let k = unit.chars().count();
        match rng.below(4) {
            0 => {}
            1 => s.push(d.start[0]),
            2 => { s.push(d.start[0]); s.push_str("h ") }
            _ => s.push(d.end[0]),
        }
        for _ in 0..len / k { s.push_str(unit) }
        s.push_str(&mutate(rng, d, "{h \\{é} t}u\\\\v}w{i}"));
        n = s.chars().count();
    }
    let splits = match rng.below(5) {
        0 | 1 => vec![],
        4 => crate::configs::block_splits(rng, n),
        2 => vec![n - 1 - rng.below(30)],
        _ => { let mut v: Vec<usize> = (0..rng.range(1, 4)).map(|_| rng.below(n + 1)).collect(); v.sort_unstable(); v }
    };
    (s, splits)
}

/// Block of an exhaustive sweep over all characters: every character in head,
/// operand, escaped and delimiter-adjacent places.
pub const SWEEP_BLOCK: u32 = 128;
pub fn sweep(i: u64, d: &Delims) -> Option<String> {
    let lo = i as u32 * SWEEP_BLOCK;
    if lo > 0x10_ffff { return None }
    let (o, c, e) = (d.start[0], d.end[0], d.esc[0]);
    let mut s = String::new();
    for u in lo..lo + SWEEP_BLOCK {
        if let Some(ch) = char::from_u32(u) {
            s.push(ch);
            s.push_str(&format!("{o}{ch}h{ch}{ch}t{e}{ch}{o}{ch}{c}{ch}{c}"));
        }
    }
    Some(s)
}

// -------------------------------------------------------------------- macros

/// How a head form is written in a source so that it parses to `t`.
pub fn write_form(t: &T, d: &Delims, head: bool, s: &mut String) {
    match t {
        T::Text(x) => for ch in x.s.chars() {
            if d.is_special(ch) || (head && d.is_ws(ch)) { s.push(d.esc[0]) }
            s.push(ch);
        },
        T::EmptyNest => { s.push(d.start[0]); s.push(d.end[0]) }
        T::Comb(h, args) => {
            s.push(d.start[0]);
            write_form(h, d, true, s);
            match &**args {
                T::List(v, None) => {
                    s.push(match &d.ws { None => ' ', Some(v) => v[0] });
                    for x in v { write_form(x, d, false, s) }
                }
                _ => {}
            }
            s.push(d.end[0]);
        }
        _ => {}
    }
}

/// A random set of macros for the default delimiters, and ways of writing heads
/// that may or may not be bound.
pub fn macros(rng: &mut Rng, d: &Delims, distinct: bool) -> (Vec<Mac>, Vec<String>) {
    let n = rng.range(1, 6);
    let mut macs: Vec<Mac> = vec![];
    let mut heads = vec![];
    for i in 0..n {
        let key = key_form(rng, d, 0);
        if distinct && macs.iter().any(|m| m.key.same(&key)) { continue }
        let act = match rng.below(14) {
            0 | 1 => Act::Remove,
            2 => Act::Fail(100 + i as u32),
            3 => Act::Extra(i as i64),
            4 => Act::EmptyNest,
            5 => Act::EmptyList,
            6 | 7 => Act::Operands,
            8 => Act::Operator,
            9 => Act::Rebuild,
            10 => Act::Pair,
            11 => Act::Cons,
            12 => if rng.chance(1, 2) { Act::FailMissing } else { Act::FailAlloc },
            _ => Act::Count,
        };
        macs.push(Mac { raw: rng.chance(1, 2), act, key });
    }
    // Ways to produce each key as a head.
    for m in &macs {
        match &m.key {
            T::Text(_) | T::EmptyNest | T::Comb(..) => {
                let mut s = String::new();
                write_form(&m.key, d, true, &mut s);
                heads.push(s.clone());
                // Also written with needless escapes.
                if let T::Text(x) = &m.key {
                    let esc: String = x.s.chars().flat_map(|c| {
                        let e = d.is_special(c) || d.is_ws(c) || rng.chance(1, 2);
                        e.then(|| d.esc[0]).into_iter().chain(std::iter::once(c))
                    }).collect();
                    heads.push(esc);
                }
                // A nest that evaluates to something, in head position.
                let mut t = String::new();
                t.push(d.start[0]);
                t.push_str(&s);
                t.push(d.end[0]);
                heads.push(t);
            }
            _ => {}
        }
    }
    // Unbound near misses.
    for m in &macs {
        if let T::Text(x) = &m.key {
            let mut y = x.s.clone();
            y.push('a');
            let mut s = String::new();
            write_form(&T::text(&y), d, true, &mut s);
            heads.push(s);
        }
    }
    (macs, heads)
}

pub fn key_form(rng: &mut Rng, d: &Delims, depth: usize) -> T {
    let texts = ["m", "é", "x", "mm", "a b", "{", "}", "\\", "ab", "λx", "#"];
    match rng.below(if depth > 2 { 6 } else { 12 }) {
        0..=5 => T::text(*rng.pick(&texts)),
        6 => T::EmptyNest,
        7 => T::EmptyList,
        8 => T::Extra(rng.below(4) as i64),
        9 => {
            let v = key_args(rng, d, depth);
            if v.is_empty() { T::EmptyList } else { T::List(v, None) }
        }
        _ => {
            let h = match rng.below(3) { 0 => T::EmptyNest, _ => T::text(*rng.pick(&texts)) };
            let v = key_args(rng, d, depth);
            T::comb(h, T::list(v))
        }
    }
}

fn key_args(rng: &mut Rng, d: &Delims, depth: usize) -> Vec<T> {
    let mut v: Vec<T> = vec![];
    for _ in 0..rng.below(3) {
        let t = key_form(rng, d, depth + 1);
        if matches!((&t, v.last()), (T::Text(_), Some(T::Text(_)))) { continue }
        v.push(t);
    }
    v
}

/// A random tree that the notation can express.
pub fn expressible(rng: &mut Rng, left: &mut usize, depth: usize) -> T {
    // A nest (texts are added by the callers).
    if rng.chance(1, 6) { return T::EmptyNest }
    let head = if *left > 0 && depth < 30 && rng.chance(1, 5) {
        *left -= 1;
        expressible(rng, left, depth + 1)
    } else {
        T::Text(hostile_text(rng, 5))
    };
    let v = siblings(rng, left, depth + 1);
    T::comb(head, T::list(v))
}

pub fn siblings(rng: &mut Rng, left: &mut usize, depth: usize) -> Vec<T> {
    let mut v = vec![];
    loop {
        match rng.below(6) {
            0 | 1 if !matches!(v.last(), Some(T::Text(_))) => v.push(T::Text(hostile_text(rng, 6))),
            2 | 3 if *left > 0 && depth < 30 => {
                *left -= 1;
                v.push(expressible(rng, left, depth));
            }
            4 | 5 => break,
            _ => {}
        }
    }
    v
}

/// Non-empty text in which delimiters, escapes and whitespace are likely.
pub fn hostile_text(rng: &mut Rng, max: usize) -> Tx {
    let n = rng.range(1, max);
    let mut s = String::new();
    for _ in 0..n {
        s.push(match rng.below(8) {
            0 => '{',
            1 => '}',
            2 => '\\',
            3 => *rng.pick(WS),
            _ => any_char(rng),
        });
    }
    Tx::plain(&s)
}

/// Length classes for chunk splits of `n` characters.
pub fn splits(rng: &mut Rng, n: usize) -> Vec<usize> {
    crate::configs::random_splits(rng, n)
}

/// A first character that some programs treat specially.
pub fn weird_start(rng: &mut Rng) -> String {
    rng.pick(&["\u{FEFF}", "\0", "\u{FFFE}", "\u{2028}", "\u{200B}", "\r\n", "\u{1F600}", "\u{301}", "\u{10FFFF}", "\u{7F}"]).to_string()
}
