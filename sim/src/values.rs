//! Making green values: as plain values first, then for real.
use crate::model::*;
use crate::rng::Rng;
use crate::world::*;
use rowan::{GreenNode, GreenNodeBuilder, GreenToken, NodeOrToken, SyntaxKind};
use std::collections::HashMap;
use std::rc::Rc;

pub fn kind(w: &World, r: &mut Rng) -> u16 {
    let n = w.cfg.kinds;
    if n == 0 {
        let k = w.next_kind.get();
        w.next_kind.set(k + 1);
        (k % 65535) as u16
    } else {
        let k = r.below(n as usize);
        spread(w, k)
    }
}

pub fn spread(w: &World, k: usize) -> u16 {
    if w.cfg.spread != 0 { SPREAD[k % SPREAD.len()] } else { k as u16 }
}

/// Kinds that are the same but for a part of their bits, and the ends of their range.
const SPREAD: [u16; 12] = [1, 257, 0, 256, 65535, 255, 32769, 512, 2, 258, 65534, 0x4001];

const PLAIN: [&str; 12] = ["a", "b", "(", ")", " ", "x", "yy", "zzz", "hello", "world", "+", "\n"];
const WIDE: [&str; 8] = ["é", "ß", "漢", "字", "🙂", "aé", "漢b", "\"\\"];

pub fn word(w: &World, r: &mut Rng) -> String {
    if r.chance(w.cfg.empty_tokens as usize) {
        return String::new();
    }
    let a = w.cfg.alphabet;
    let mut s = String::new();
    let n = if a >= 2 && r.chance(25) {
        r.range(8, 30)
    } else {
        r.range(1, 3)
    };
    for _ in 0..n {
        if a >= 1 && r.chance(35) {
            s.push_str(WIDE[r.below(WIDE.len())]);
        } else {
            s.push_str(PLAIN[r.below(PLAIN.len())]);
        }
    }
    if a >= 2 && r.chance(10) {
        // around the point where long texts are cut
        let mut t = "0123456789012345678".to_string();
        for _ in 0..r.below(5) {
            t.push('.');
        }
        for _ in 0..r.range(1, 3) {
            t.push_str(WIDE[r.below(5)]);
        }
        return t;
    }
    s
}

pub fn token(w: &World, r: &mut Rng) -> Rc<G> {
    G::token(kind(w, r), &word(w, r))
}

/// A node with about `size` elements.
pub fn tree(w: &World, r: &mut Rng) -> Rc<G> {
    let mut budget = w.cfg.size.max(1) as usize;
    let mut pool = vec![];
    if w.cfg.giant != 0 && !w.giant_made.replace(true) {
        return giant(w, r);
    }
    grow(w, r, w.cfg.depth.max(1) as usize, &mut budget, &mut pool, true)
}

/// A tree that is far wider, deeper or has far longer texts than others.
fn giant(w: &World, r: &mut Rng) -> Rc<G> {
    let n = w.cfg.giant_n as usize;
    let n = n + r.below(5);
    match w.cfg.giant {
        1 => {
            let some: Vec<Rc<G>> = (0..r.range(0, 12)).map(|_| small_tree(w, r)).collect();
            let mut ch: Vec<Rc<G>> = (0..n).map(|_| if !some.is_empty() && r.chance(2) { some[r.below(some.len())].clone() } else { token(w, r) }).collect();
            let k = kind(w, r);
            if r.chance(30) {
                // not at the top
                let rest = ch.split_off(ch.len() - r.below(4));
                let mut out = vec![G::node(kind(w, r), ch)];
                out.extend(rest);
                ch = out;
            }
            G::node(k, ch)
        }
        2 => {
            let mut g = small_tree(w, r);
            for _ in 0..n {
                let k = kind(w, r);
                let mut ch = vec![g];
                if r.chance(30) {
                    ch.push(token(w, r));
                }
                if r.chance(20) {
                    ch.insert(0, token(w, r));
                }
                g = G::node(k, ch);
            }
            g
        }
        _ => {
            let mut budget = 6;
            let small = grow(w, r, 3, &mut budget, &mut vec![], true);
            let mut ch = small.children().to_vec();
            for _ in 0..r.range(1, 2) {
                let mut s = String::with_capacity(n + 8);
                while s.len() < n {
                    s.push_str(&word(w, r));
                    s.push((b'a' + r.below(26) as u8) as char);
                }
                if w.cfg.alphabet == 0 {
                    s.truncate(n);
                }
                let at = r.below(ch.len() + 1);
                ch.insert(at, G::token(kind(w, r), &s));
            }
            G::node(small.kind, ch)
        }
    }
}

pub fn small_tree(w: &World, r: &mut Rng) -> Rc<G> {
    let mut budget = r.range(1, 5);
    let mut pool = vec![];
    grow(w, r, 2, &mut budget, &mut pool, true)
}

fn grow(w: &World, r: &mut Rng, depth: usize, budget: &mut usize, pool: &mut Vec<Rc<G>>, root: bool) -> Rc<G> {
    let k = kind(w, r);
    *budget = budget.saturating_sub(1);
    let mut ch = vec![];
    if root || !r.chance(w.cfg.empties as usize) {
        let n = if root { r.range(1, w.cfg.width.max(1) as usize + 1) } else { r.range(0, w.cfg.width.max(1) as usize) };
        for _ in 0..n {
            if *budget == 0 {
                break;
            }
            if !pool.is_empty() && r.chance(w.cfg.sharing as usize) {
                let g = pool[r.below(pool.len())].clone();
                if g.size <= *budget {
                    *budget -= g.size;
                    ch.push(g);
                    continue;
                }
            }
            let g = if depth > 1 && r.chance(50) {
                grow(w, r, depth - 1, budget, pool, false)
            } else {
                *budget -= 1;
                token(w, r)
            };
            pool.push(g.clone());
            ch.push(g);
        }
    }
    G::node(k, ch)
}

/// Make the value for real, without a cache. Equal parts may be one object.
pub fn plain(g: &Rc<G>, memo: &mut HashMap<*const G, NodeOrToken<GreenNode, GreenToken>>) -> NodeOrToken<GreenNode, GreenToken> {
    let key = Rc::as_ptr(g);
    if let Some(x) = memo.get(&key) {
        return x.clone();
    }
    let res = match &g.body {
        GBody::Token(t) => NodeOrToken::Token(GreenToken::new(SyntaxKind(g.kind), t)),
        GBody::Node(ch) => {
            let v: Vec<_> = ch.iter().map(|c| plain(c, memo)).collect();
            NodeOrToken::Node(GreenNode::new(SyntaxKind(g.kind), v))
        }
    };
    memo.insert(key, res.clone());
    res
}

thread_local! {
    static LINE: std::cell::RefCell<String> = std::cell::RefCell::new(crate::alloc::ours(|| String::with_capacity(1 << 16)));
}
/// The text in a buffer that is the same for all: what a lexer with a line buffer does.
pub fn line<R>(text: &str, f: impl FnOnce(&str) -> R) -> R {
    LINE.with(|l| {
        let Ok(mut l) = l.try_borrow_mut() else { return f(text) };
        if text.len() > l.capacity() {
            return f(text);
        }
        l.clear();
        l.push_str(text);
        f(&l)
    })
}

pub fn feed(b: &mut GreenNodeBuilder<'_>, g: &G) {
    match &g.body {
        GBody::Token(t) => line(t, |t| b.token(SyntaxKind(g.kind), t)),
        GBody::Node(ch) => {
            b.start_node(SyntaxKind(g.kind));
            ch.iter().for_each(|c| feed(b, c));
            b.finish_node();
        }
    }
}

/// Make a node value for real, one way or another. Library code; call within `World::call`.
pub fn real(w: &World, g: &Rc<G>, how: u32) -> GreenNode {
    match how % 4 {
        0 | 1 => {
            let mut memo = HashMap::new();
            plain(g, &mut memo).into_node().unwrap()
        }
        2 => {
            let mut b = GreenNodeBuilder::new();
            feed(&mut b, g);
            b.finish()
        }
        _ => {
            let n = w.cfg.caches.max(1) as usize;
            let k = how as usize / 4 % n;
            match crate::alloc::ours(|| crate::build::take_cache(w, k)) {
                None => real(w, g, 2),
                Some(mut c) => {
                    let res = {
                        let mut b = GreenNodeBuilder::with_cache(&mut c.cache);
                        feed(&mut b, g);
                        b.finish()
                    };
                    crate::alloc::ours(|| {
                        c.model.saw(g);
                        crate::build::put_cache(w, k, c);
                    });
                    res
                }
            }
        }
    }
}

pub fn real_token(g: &G) -> GreenToken {
    match &g.body {
        GBody::Token(t) => GreenToken::new(SyntaxKind(g.kind), t),
        GBody::Node(_) => unreachable!(),
    }
}
