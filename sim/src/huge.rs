//! Trees whose text is too long for small integers, or nearly too long for the offset type, made
//! of a few long texts used over and over. The model knows kinds (each used once) and lengths.
use crate::plan::Op;
use crate::rng::Rng;
use crate::world::*;
use std::fmt::Write;
use rowan::{GreenNode, GreenToken, NodeOrToken, SyntaxKind, TextRange, TextSize, WalkEvent};

struct It {
    kind: u16,
    /// Text of a token: a short one, or that many times 'x'
    text: Option<Result<&'static str, u32>>,
    kids: Vec<It>,
}
const SHORT: [&str; 5] = ["a", "bc", "漢", "", "_0z"];

impl It {
    fn len(&self) -> u64 {
        match self.text {
            Some(Ok(s)) => s.len() as u64,
            Some(Err(n)) => n as u64,
            None => self.kids.iter().map(|k| k.len()).sum(),
        }
    }
    fn is_node(&self) -> bool {
        self.text.is_none()
    }
    fn tokens<'a>(&'a self, at: &mut u64, to: &mut Vec<(u64, &'a It)>) {
        if self.text.is_some() {
            to.push((*at, self));
            *at += self.len();
        }
        for k in &self.kids {
            k.tokens(at, to);
        }
    }
    /// Path and offset of what has this kind
    fn find(&self, kind: u16, at: u64, path: &mut Vec<usize>) -> Option<(u64, &It)> {
        if self.kind == kind {
            return Some((at, self));
        }
        let mut at = at;
        for (i, k) in self.kids.iter().enumerate() {
            path.push(i);
            if let Some(x) = k.find(kind, at, path) {
                return Some(x);
            }
            path.pop();
            at += k.len();
        }
        None
    }
    fn at_mut(&mut self, path: &[usize]) -> &mut It {
        path.iter().fold(self, |x, &i| &mut x.kids[i])
    }
}

struct Huge<'a> {
    w: &'a World,
    big: std::cell::RefCell<Vec<(u32, GreenToken)>>,
    next: u16,
    trees: Vec<It>,
    held: Vec<(El, u16)>,
}

/// Takes the text of these tokens, and notes where it is another.
struct Sink<'a> {
    toks: &'a [(u64, &'a It)],
    k: usize,
    got: u64,
    fails: u64,
    failed: bool,
    wrong: Option<&'static str>,
}
impl std::fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed {
            self.wrong = Some("the sink is written to after it failed");
            return Err(std::fmt::Error);
        }
        let mut s = s.as_bytes();
        if self.got + s.len() as u64 > self.fails {
            self.failed = true;
        }
        while !s.is_empty() {
            while self.toks.get(self.k).is_some_and(|x| x.0 + x.1.len() <= self.got) {
                self.k += 1;
            }
            let Some((at, i)) = self.toks.get(self.k) else {
                self.wrong = Some("more than the text is written");
                return Err(std::fmt::Error);
            };
            let n = ((at + i.len() - self.got) as usize).min(s.len());
            let off = (self.got - at) as usize;
            let ok = match i.text {
                Some(Ok(x)) => x.as_bytes()[off..off + n] == s[..n],
                _ => s[0] == b'x' && s[n - 1] == b'x',
            };
            if !ok {
                self.wrong = Some("another text is written");
            }
            if self.failed {
                return Err(std::fmt::Error);
            }
            self.got += n as u64;
            s = &s[n..];
        }
        Ok(())
    }
}

fn size(n: u64) -> TextSize {
    TextSize::from(n as u32)
}

impl Huge<'_> {
    fn kind(&mut self) -> u16 {
        self.next += 1;
        self.next
    }
    fn item(&mut self, r: &mut Rng, unit: u32, deep: u32) -> It {
        let kind = self.kind();
        if deep > 0 && r.chance(25) {
            let n = r.below(4);
            let kids = (0..n).map(|_| self.item(r, unit, deep - 1)).collect();
            return It { kind, text: None, kids };
        }
        let text = if r.chance(60) { Err(unit) } else { Ok(SHORT[r.below(5)]) };
        It { kind, text: Some(text), kids: vec![] }
    }
    /// Tokens of one text cannot be of different kinds and share it: the long ones have kind 1,
    /// and a node of its own around them when they are to be told apart.
    fn green(&self, i: &It) -> NodeOrToken<GreenNode, GreenToken> {
        match i.text {
            Some(Ok(s)) => GreenToken::new(SyntaxKind(i.kind), s).into(),
            Some(Err(n)) => self.long(n).into(),
            None => GreenNode::new(SyntaxKind(i.kind), i.kids.iter().map(|k| self.green(k)).collect::<Vec<_>>()).into(),
        }
    }
    fn long(&self, n: u32) -> GreenToken {
        if let Some(b) = self.big.borrow().iter().find(|b| b.0 == n) {
            return b.1.clone();
        }
        let tok = GreenToken::new(SyntaxKind(1), &crate::alloc::ours(|| "x".repeat(n as usize)));
        let copy = tok.clone();
        crate::alloc::ours(|| self.big.borrow_mut().push((n, copy)));
        tok
    }
    fn seen_kind(i: &It) -> u16 {
        if matches!(i.text, Some(Err(_))) {
            1
        } else {
            i.kind
        }
    }
    fn bad(&self, tags: u32, what: &str, e: String) {
        self.w.bad(tags, format!("huge: {what}: {e}"));
    }
    fn check(&self, tags: u32, what: &str, f: impl FnOnce() -> Result<(), String>) {
        if let Some(Err(e)) = self.w.must(what, f) {
            self.bad(tags, what, e);
        }
    }
    fn is(el: &El, i: &It, at: u64) -> Result<(), String> {
        let (k, rg) = (el.kind().0, el.text_range());
        let want = (at, at + i.len());
        let got = (u32::from(rg.start()) as u64, u32::from(rg.end()) as u64);
        if k != Self::seen_kind(i) || el.as_node().is_some() != i.is_node() {
            return Err(format!("it is of kind {k}, expected {}", Self::seen_kind(i)));
        }
        if got != want {
            return Err(format!("range of kind {k} is {got:?}, expected {want:?}"));
        }
        if let NodeOrToken::Token(t) = el {
            let text = t.text();
            let ok = match i.text {
                Some(Ok(s)) => text == s,
                _ => text.len() as u64 == i.len() && text.starts_with('x') && text.ends_with('x'),
            };
            if !ok {
                return Err(format!("text of kind {k} has length {}", text.len()));
            }
        } else if u64::from(u32::from(el.as_node().unwrap().text().len())) != i.len() {
            return Err(format!("length of the text of kind {k} is {:?}, expected {}", el.as_node().unwrap().text().len(), i.len()));
        }
        Ok(())
    }
    fn place(el: &El, path: &[usize]) -> Result<(), String> {
        let mut at = el.clone();
        for (i, &want) in path.iter().enumerate().rev() {
            if at.index() != want {
                return Err(format!("index at depth {i} is {}, expected {want}", at.index()));
            }
            match at.parent() {
                Some(p) => at = p.into(),
                None => return Err(format!("no parent at depth {i}")),
            }
        }
        match at.parent() {
            None => Ok(()),
            Some(_) => Err("the root has a parent".into()),
        }
    }
    fn check_held(&self) {
        for (el, kind) in &self.held {
            let mut path = vec![];
            for tree in &self.trees {
                path.clear();
                if let Some((at, i)) = tree.find(*kind, 0, &mut path) {
                    self.check(t(1) | t(2), "a handle held", || {
                        Self::is(el, i, at)?;
                        Self::place(el, &path)
                    });
                    break;
                }
            }
        }
    }
    /// The whole tree, against the model.
    fn whole(n: &Node, m: &It) -> Result<(), String> {
        let mut todo: Vec<(&It, u64)> = vec![(m, 0)];
        for e in n.preorder_with_tokens() {
            let WalkEvent::Enter(el) = e else { continue };
            let (i, at) = todo.pop().ok_or("more elements than expected")?;
            Self::is(&el, i, at)?;
            let mut a = at + i.len();
            for k in i.kids.iter().rev() {
                a -= k.len();
                todo.push((k, a));
            }
        }
        if todo.is_empty() {
            Ok(())
        } else {
            Err(format!("{} elements are missing", todo.len()))
        }
    }
}

const MAX: u64 = (1 << 32) - 1;

impl Huge<'_> {
    /// Something of exactly this length
    fn exactly(&mut self, len: u64, unit: u32) -> It {
        let kind = self.kind();
        let mut kids: Vec<It> = vec![];
        let mut left = len;
        while left >= unit as u64 {
            kids.push(It { kind: self.kind(), text: Some(Err(unit)), kids: vec![] });
            left -= unit as u64;
        }
        if left > 4 {
            kids.push(It { kind: self.kind(), text: Some(Err(left as u32)), kids: vec![] });
        } else {
            for _ in 0..left {
                kids.push(It { kind: self.kind(), text: Some(Ok("a")), kids: vec![] });
            }
        }
        It { kind, text: None, kids }
    }
    /// An insertion that fits exactly, or does not. True if this cannot go on.
    fn beyond(&mut self, top: &Node, r: &mut Rng, unit: u32) -> bool {
        let w = self.w;
        let tree = &self.trees[0];
        let end = tree.len();
        // where: at the top or in a node below
        let mut path = vec![];
        let mut at = tree;
        while r.chance(50) {
            let nodes: Vec<usize> = at.kids.iter().enumerate().filter(|k| k.1.is_node()).map(|k| k.0).collect();
            if nodes.is_empty() {
                break;
            }
            path.push(nodes[r.below(nodes.len())]);
            at = &at.kids[path[path.len() - 1]];
        }
        let n = at.kids.len();
        let start = r.below(n + 1);
        let stop = if r.chance(50) { start } else { (start + r.below(3)).min(n) };
        let gone: u64 = at.kids[start..stop].iter().map(|k| k.len()).sum();
        let room = MAX - (end - gone);
        let many = unit as u64 * 4200;
        let over = [0, 0, 1, 1, 2, 65_536, 1 << 24, 1 << 31][r.below(8)];
        if room + over > MAX || room + over > many {
            return false;
        }
        let (len, refused) = (room + over, over > 0);
        let first = r.chance(30).then(|| It { kind: self.kind(), text: Some(Ok("")), kids: vec![] });
        let wrap = r.chance(50);
        let item = self.exactly(len, unit);
        let node = w.must("a child", || {
            let mut x = top.clone();
            for &p in &path {
                x = x.children_with_tokens().nth(p).and_then(|x| x.into_node()).expect("a node");
            }
            x
        });
        let Some(node) = node else { return true };
        w.say(|| format!("  an insertion of {len} into {end} - {gone}: {}", if refused { "too long" } else { "fits" }));
        // from a tree of its own, or the whole of one
        let other = w.must("another tree", || {
            let g = self.green(&item).into_node().unwrap();
            if wrap {
                Node::new_root_mut(GreenNode::new(SyntaxKind(3), [g.into()]))
            } else {
                Node::new_root_mut(g)
            }
        });
        let Some(other) = other else { return true };
        let el: El = if wrap {
            match w.must("child", || other.first_child_or_token().unwrap()) {
                Some(x) => x,
                None => return true,
            }
        } else {
            other.clone().into()
        };
        let res = w.call(|| {
            let mut items: Vec<El> = vec![];
            if let Some(f) = &first {
                let x = Node::new_root_mut(GreenNode::new(SyntaxKind(3), [self.green(f)])).first_child_or_token().unwrap();
                x.detach();
                items.push(x);
            }
            items.push(el.clone());
            node.splice_children(start..stop, items);
        });
        let mut new: Vec<It> = first.into_iter().collect();
        match (res, refused) {
            (Ok(()), false) => {
                w.stat("scale.longest_text");
                new.push(item);
                // what was deleted, and what went in
                self.spliced(&path, start..stop, new);
                self.check(t(19) | t(1), "what went in", || {
                    let (a, i) = self.trees[0].find(el.kind().0, 0, &mut vec![]).ok_or("not there")?;
                    Self::is(&el, i, a)
                });
                // to another place: it does not get longer by that
                let m = &self.trees[0];
                if m.kids.len() > 1 && r.chance(50) && w.must("index", || el.parent()).flatten().is_some_and(|p| p == *top) {
                    let from = m.kids.iter().position(|k| k.kind == el.kind().0).unwrap();
                    let to = r.below(m.kids.len());
                    if w.must("move", || top.splice_children(to..to, vec![el.clone()])).is_some() {
                        let k = self.trees[0].kids.remove(from);
                        self.trees[0].kids.insert(to, k);
                    }
                }
            }
            (Err(Panic::Msg(_)), true) => {
                w.stat("fault.text_too_long");
                // it stays where it is; what came before has been done
                self.spliced(&path, start..stop, new);
                self.check(t(19) | t(9), "what was refused", || {
                    Self::is(&el, &item, 0)?;
                    Self::place(&el, if wrap { &[0] } else { &[] })?;
                    Self::whole(el.as_node().unwrap(), &item)
                });
            }
            (Ok(()), true) => {
                self.bad(t(19) | t(9), "splice", format!("{len} bytes more than {} are accepted", end - gone));
            }
            (Err(Panic::Msg(e)), false) => self.bad(ALL, "splice", format!("{len} bytes more than {} are refused: {e}", end - gone)),
            (Err(Panic::Injected), _) => (),
        }
        if w.stopped() {
            std::mem::forget((el, other, node));
            return true;
        }
        self.check(t(19) | t(9) | t(1), "the tree", || Self::whole(top, &self.trees[0]));
        w.must("drop", || drop((el, other, node)));
        // no more than what is in use
        let used = |i: &It, n: u32| {
            let mut toks = vec![];
            i.tokens(&mut 0, &mut toks);
            toks.iter().any(|x| matches!(x.1.text, Some(Err(m)) if m == n))
        };
        let (keep, old) = std::mem::take(&mut *self.big.borrow_mut()).into_iter().partition(|b| b.0 == unit || self.trees.iter().any(|x| used(x, b.0)));
        *self.big.borrow_mut() = keep;
        w.must("drop", || drop::<Vec<(u32, GreenToken)>>(old));
        false
    }
    fn spliced(&mut self, path: &[usize], range: std::ops::Range<usize>, new: Vec<It>) {
        let gone: Vec<It> = self.trees[0].at_mut(path).kids.splice(range, new).collect();
        for g in gone {
            if self.held.iter().any(|h| g.find(h.1, 0, &mut vec![]).is_some()) {
                self.trees.push(g);
            }
        }
    }
}

/// Values whose text is about as long as it can be, from a few that share everything.
pub fn over(w: &World, op: &Op) {
    let mut r = Rng::from3(op.a[0], op.a[1]);
    let base = w.must("new", || {
        let t16 = GreenToken::new(SyntaxKind(1), &crate::alloc::ours(|| "x".repeat(1 << 16)));
        let n24 = GreenNode::new(SyntaxKind(2), (0..256).map(|_| NodeOrToken::Token(t16.clone())).collect::<Vec<_>>());
        (t16, n24)
    });
    let Some((t16, n24)) = base else { return };
    let value = |kind: u16, len: u64| {
        let mut kids: Vec<NodeOrToken<GreenNode, GreenToken>> = vec![];
        for _ in 0..len >> 24 {
            kids.push(n24.clone().into());
        }
        for _ in 0..(len >> 16) & 255 {
            kids.push(t16.clone().into());
        }
        if len & 0xffff > 0 {
            kids.push(GreenToken::new(SyntaxKind(4), &crate::alloc::ours(|| "y".repeat((len & 0xffff) as usize))).into());
        }
        GreenNode::new(SyntaxKind(kind), kids)
    };
    for _ in 0..r.range(2, 8) {
        if w.stopped() {
            break;
        }
        // what is there, what comes to it, and by how much that is too long
        let piece = match r.below(4) {
            0 => r.below(5) as u64,
            1 => 65_534 + r.below(5) as u64,
            2 => (1 << 31) - 2 + r.below(5) as u64,
            _ => r.next() % MAX,
        };
        let over = [0, 0, 0, 1, 1, 2, 65_536][r.below(7)];
        if piece < over {
            continue;
        }
        let have = MAX - piece + over;
        if have > MAX {
            continue;
        }
        let form = r.below(9);
        let made = w.must("values", || {
            let (a, b) = (value(10, have), value(11, piece));
            let outer = GreenNode::new(SyntaxKind(12), [GreenToken::new(SyntaxKind(13), "").into(), NodeOrToken::Node(a.clone())]);
            (a, b, outer)
        });
        let Some((a, b, outer)) = made else { break };
        let n = a.children().len();
        let k = r.below(n + 1);
        w.say(|| format!("  {have} and {piece} bytes, form {form}"));
        let res = w.call(|| match form {
            0 => GreenNode::new(SyntaxKind(14), [a.clone().into(), b.clone().into()]),
            1 => a.insert_child(k, b.clone().into()),
            2 => outer.insert_child(k % 3, b.clone().into()),
            3 => {
                // in the place of an empty one
                outer.replace_child(0, b.clone().into())
            }
            // in the place of some that are not
            6 if over == 0 => {
                let full = a.insert_child(k, b.clone().into());
                let many = r.below(4).min(n - k) + 1;
                let gone: u64 = full.children().skip(k).take(many).map(|c| u32::from(c.as_node().map_or_else(|| c.as_token().unwrap().text_len(), |n| n.text_len())) as u64).sum();
                full.splice_children(k..k + many, [GreenToken::new(SyntaxKind(5), "").into(), NodeOrToken::Node(value(17, gone))])
            }
            7 if over == 0 => {
                let full = a.insert_child(k, b.clone().into());
                full.replace_child(k, value(17, piece).into())
            }
            8 => {
                // less by one child first, and more by two
                let inner = GreenNode::new(SyntaxKind(18), [NodeOrToken::Node(a.clone()), GreenToken::new(SyntaxKind(5), "").into()]);
                let inner = inner.remove_child(0).insert_child(r.below(2), a.clone().into());
                inner.splice_children(1..=1, inner.children().nth(1).map(|x| x.to_owned()).into_iter().chain([b.clone().into()]))
            }
            4 => outer.splice_children(k % 3..k % 3, [GreenToken::new(SyntaxKind(5), "").into(), NodeOrToken::Node(b.clone())]),
            _ => {
                let root = Node::new_root(GreenNode::new(SyntaxKind(15), [a.clone().into(), GreenNode::new(SyntaxKind(16), []).into()]));
                let small = root.last_child().unwrap();
                small.replace_with(GreenNode::new(SyntaxKind(16), [b.clone().into()]))
            }
        });
        match (res, over > 0) {
            (Ok(g), false) => {
                w.stat("scale.longest_text");
                let e = w.must("look", || {
                    let sum: u64 = g.children().map(|c| u32::from(c.as_node().map_or_else(|| c.as_token().unwrap().text_len(), |n| n.text_len())) as u64).sum();
                    let root = Node::new_root(g.clone());
                    let last = root.last_child_or_token().map(|x| u32::from(x.text_range().end()) as u64);
                    if sum != MAX || u32::from(g.text_len()) as u64 != MAX || last != Some(MAX) {
                        return Err(format!("length is {:?}, of the children {sum}, the last ends at {last:?}, expected {MAX}", g.text_len()));
                    }
                    Ok(())
                });
                if let Some(e) = e {
                    w.check(t(19) | t(3), "the longest text", e);
                }
                w.must("drop", || drop(g));
            }
            (Err(Panic::Msg(_)), true) => {
                w.stat("fault.text_too_long");
                // half of a node is left behind
                w.leaky.set(true);
            }
            (Ok(g), true) => {
                w.bad(t(19), format!("form {form}: {have} and {piece} bytes are accepted: length is {:?}", g.text_len()));
                std::mem::forget(g);
            }
            (Err(Panic::Msg(e)), false) => w.bad(ALL, format!("form {form}: {have} and {piece} bytes are refused: {e}")),
            (Err(Panic::Injected), _) => (),
        }
        // what they were made of is as before
        let ok = w.must("look", || a.children().len() == n && [(&a, have), (&b, piece), (&outer, have)].iter().all(|x| u32::from(x.0.text_len()) as u64 == x.1));
        if ok == Some(false) {
            w.bad(t(19) | t(9) | t(3), "operands of a refused request have changed");
        }
        if w.stopped() {
            std::mem::forget((a, b, outer));
            break;
        }
        w.must("drop", || drop((a, b, outer)));
        w.hit();
        w.trace(op, form as u64 * 2 + (over > 0) as u64);
    }
    if w.stopped() {
        std::mem::forget((t16, n24));
    } else {
        w.must("drop", || drop((t16, n24)));
    }
}

pub fn play(w: &World, op: &Op) {
    let mut r = Rng::from3(op.a[0], op.a[1]);
    // the length of the long text, how long all of it is to be
    let near = |p: u32, r: &mut Rng| if r.chance(40) { 1 << p } else { (1u32 << p) - 5 + r.below(10) as u32 };
    let (unit, total): (u32, u64) = match if matches!(w.cfg.prop, 9 | 19) { 8 + r.below(6) } else { r.below(if cfg!(asan) { 6 } else { 12 }) } {
        0 => (near(7, &mut r), 256),
        1 => (near(8, &mut r), 1 << 15),
        2 => (near(8, &mut r), 1 << 16),
        3 => (near(15, &mut r), 1 << 16),
        4 => (near(16, &mut r), 1 << 17),
        5 => (near(16, &mut r), 1 << 24),
        6 => (near(20, &mut r), 1 << 24),
        7 => (near(20, &mut r), 1 << 31),
        8 => (near(23, &mut r), 1 << 31),
        9 => (near(24, &mut r), 1 << 31),
        _ => (near(24, &mut r), (1 << 32) - 1),
    };
    w.stat(if total >= 1 << 31 { "scale.over_2g_text" } else if total >= 1 << 24 { "scale.over_16m_text" } else { "scale.long_text" });
    let Some(tok) = w.must("new", || GreenToken::new(SyntaxKind(1), &crate::alloc::ours(|| "x".repeat(unit as usize)))) else { return };
    let mut me = Huge { w, big: vec![(unit, tok)].into(), next: 16, trees: vec![], held: vec![] };
    let mut m = It { kind: 8, text: None, kids: vec![] };
    let mut len = 0;
    // close to it from below, or beyond it unless that is too long
    let cap = if total == (1 << 32) - 1 { total } else { total + total / 2 };
    loop {
        let i = me.item(&mut r, unit, 2);
        if len + i.len() > cap || m.kids.len() > 2500 {
            break;
        }
        len += i.len();
        let stop = len > total && r.chance(30);
        m.kids.push(i);
        if stop {
            break;
        }
    }
    // up to the last byte
    while cap - len > 0 && cap - len < 4 && total == (1 << 32) - 1 {
        let kind = me.kind();
        m.kids.push(It { kind, text: Some(Ok("a")), kids: vec![] });
        len += 1;
    }
    if m.kids.is_empty() {
        return;
    }
    let Some(green) = w.must("green", || me.green(&m).into_node().unwrap()) else { return };
    let fixed = w.must("root", || Node::new_root(green.clone()));
    let copy = w.must("copy", || if r.chance(50) { Node::new_root(green.clone()).clone_for_update() } else { Node::new_root_mut(green.clone()) });
    let (Some(fixed), Some(top)) = (fixed, copy) else { return };
    w.say(|| format!("  huge: {} children, length {len}, of {unit}", m.kids.len()));
    me.trees.push(m);
    me.check(t(4), "a tree", || Huge::whole(&fixed, &me.trees[0]));
    let first = me.trees[0].len();
    let edits = w.cfg.prop != 4 || r.chance(70);
    let steps = r.range(6, 30);
    for step in 0..steps {
        if w.stopped() || crate::slow() {
            break;
        }
        // tokens of the tree, and one of them
        let tree = &me.trees[0];
        let mut toks = vec![];
        tree.tokens(&mut 0, &mut toks);
        let end = tree.len();
        let root = if edits || step > 0 { &top } else { &fixed };
        let code = if w.cfg.prop == 17 && r.chance(30) {
            8
        } else if matches!(w.cfg.prop, 9 | 19) && r.chance(40) {
            15
        } else { r.below(if matches!(w.cfg.prop, 11 | 12) { 15 } else { 13 })
        };
        if toks.is_empty() || tree.kids.is_empty() {
            break;
        }
        // at the end, where an offset needs one more bit, or anywhere
        let edge = 1u64 << [7, 8, 15, 16, 24, 31, 31][r.below(7)];
        let k = match r.below(10) {
            0..4 => toks.len().saturating_sub(1 + r.below(4)),
            4..7 if edge < end => (toks.partition_point(|x| x.0 <= edge).saturating_sub(1) + r.below(2)).min(toks.len() - 1),
            _ => r.below(toks.len().max(1)),
        };
        w.say(|| format!("  huge {code} at {k} of {}", toks.len()));
        let (at, it) = toks[k];
        match code {
            0 | 1 => {
                // lookups
                if it.len() == 0 {
                    continue;
                }
                let mut off = at + if it.len() < 2 { 0 } else { 1 + r.next() % (it.len() - 1) };
                if at < edge && edge < at + it.len() && r.chance(60) {
                    off = edge;
                }
                let off = if matches!(it.text, Some(Ok(_))) { at } else { off };
                me.check(t(4), "lookup", || {
                    let got = root.token_at_offset(size(off)).right_biased().ok_or(format!("no token at {off}"))?;
                    Huge::is(&got.into(), it, at)?;
                    let rg = TextRange::new(size(at), size(at + it.len()));
                    let got = root.covering_element(rg);
                    if got.as_token().is_some() {
                        Huge::is(&got, it, at)?;
                    } else {
                        return Err(format!("a node covers {rg:?} at least"));
                    }
                    let got = root.token_at_offset(size(end)).left_biased().ok_or("no token at the end")?;
                    let (a, l) = toks.iter().rev().find(|x| x.1.len() > 0).unwrap();
                    Huge::is(&got.into(), l, *a)
                });
            }
            2 => {
                // one child by its range, and its neighbours
                let c = r.below(tree.kids.len());
                let c = if r.chance(40) { tree.kids.len() - 1 } else { c };
                let a: u64 = tree.kids[..c].iter().map(|k| k.len()).sum();
                let i = &tree.kids[c];
                let hold = me.held.len() < 8 && Huge::seen_kind(i) != 1;
                let mut got = None;
                me.check(t(4) | t(2), "a child", || {
                    let x = root.children_with_tokens().nth(c).ok_or("no such child")?;
                    Huge::is(&x, i, a)?;
                    Huge::place(&x, &[c])?;
                    if i.len() > 0 {
                        let rg = TextRange::new(size(a), size(a + i.len()));
                        let y = root.child_or_token_at_range(rg).ok_or(format!("none at {rg:?}"))?;
                        Huge::is(&y, i, a)?;
                    }
                    match (x.next_sibling_or_token(), tree.kids.get(c + 1)) {
                        (None, None) => (),
                        (Some(n), Some(j)) => Huge::is(&n, j, a + i.len())?,
                        (n, _) => return Err(format!("the next is {:?}", n.map(|n| n.kind()))),
                    }
                    match (x.prev_sibling_or_token(), c.checked_sub(1).map(|c| &tree.kids[c])) {
                        (None, None) => (),
                        (Some(n), Some(j)) => Huge::is(&n, j, a - j.len())?,
                        (n, _) => return Err(format!("the one before is {:?}", n.map(|n| n.kind()))),
                    }
                    got = Some(x);
                    Ok(())
                });
                if let (Some(x), true) = (got, hold && root.is_mutable()) {
                    let kind = i.kind;
                    me.held.push((x, kind));
                }
            }
            3 => {
                // tokens, one after the other
                let m = (toks.len() - k).min(20);
                me.check(t(4), "next and previous token", || {
                    let mut x = match root.token_at_offset(size(at)) {
                        _ if it.len() == 0 => return Ok(()),
                        x => x.right_biased().ok_or(format!("no token at {at}"))?,
                    };
                    for (a, i) in &toks[k..k + m] {
                        Huge::is(&x.clone().into(), i, *a)?;
                        match x.next_token() {
                            Some(n) => x = n,
                            None => break,
                        }
                    }
                    Ok(())
                });
            }
            4 if edits => {
                // out with one
                let c = r.below(tree.kids.len());
                let held = me.held.iter().any(|h| tree.kids[c].find(h.1, 0, &mut vec![]).is_some());
                let x = w.must("detach", || {
                    let x = top.children_with_tokens().nth(c)?;
                    x.detach();
                    Some(x)
                });
                let Some(Some(x)) = x else {
                    me.bad(t(4), "detach", format!("no child {c}"));
                    continue;
                };
                let gone = me.trees[0].kids.remove(c);
                me.check(t(1) | t(2), "what is detached", || {
                    Huge::is(&x, &gone, 0)?;
                    Huge::place(&x, &[])
                });
                if held {
                    me.trees.push(gone);
                }
                w.must("drop", || drop(x));
            }
            5 | 6 if edits => {
                // replace some
                let start = r.below(tree.kids.len());
                let stop = (start + r.below(3)).min(tree.kids.len());
                let mut room = (1u64 << 32) - 1 - end;
                let mut new = vec![];
                for _ in 0..r.below(4) {
                    let i = me.item(&mut r, unit, 2);
                    if i.len() <= room {
                        room -= i.len();
                        new.push(i);
                    }
                }
                let made = w.must("splice", || {
                    let items: Vec<El> = new
                        .iter()
                        .map(|i| {
                            let x = Node::new_root_mut(GreenNode::new(SyntaxKind(3), [me.green(i)]));
                            let c = x.first_child_or_token().unwrap();
                            c.detach();
                            c
                        })
                        .collect();
                    top.splice_children(start..stop, items);
                });
                if made.is_none() {
                    return;
                }
                let gone: Vec<It> = me.trees[0].kids.splice(start..stop, new).collect();
                for g in gone {
                    if me.held.iter().any(|h| g.find(h.1, 0, &mut vec![]).is_some()) {
                        me.trees.push(g);
                    }
                }
            }
            7 => {
                // the text of a small piece of it
                let mut from = at.saturating_sub(r.below(6) as u64);
                if at + 6 < edge && edge < at + it.len() && r.chance(60) {
                    from = edge - r.below(6) as u64;
                }
                let mut to = (at + it.len() + r.below(6) as u64).min(end);
                if to - from > 40 {
                    to = from + 20;
                }
                let mut want = String::new();
                let mut whole = true;
                for (a, i) in &toks {
                    let (s, e) = ((*a).max(from), (a + i.len()).min(to));
                    if s < e {
                        match i.text {
                            Some(Ok(x)) => match x.get((s - a) as usize..(e - a) as usize) {
                                Some(x) => want.push_str(x),
                                None => whole = false,
                            },
                            _ => want.push_str(&"x".repeat((e - s) as usize)),
                        }
                    }
                }
                if !whole {
                    continue;
                }
                me.check(t(12), "text", || {
                    let text = root.text();
                    if u32::from(text.len()) as u64 != end {
                        return Err(format!("length is {:?}, expected {end}", text.len()));
                    }
                    let x = text.slice(TextRange::new(size(from), size(to)));
                    let y = text.slice(size(from)..).slice(..size(to - from));
                    if x.to_string() != want || y != want.as_str() || x != y {
                        return Err(format!("{from}..{to} is {:?}, expected {want:?}", x.to_string()));
                    }
                    let c = want.chars().next();
                    if c.is_some() && text.char_at(size(from)) != c {
                        return Err(format!("at {from} is {:?}, expected {c:?}", text.char_at(size(from))));
                    }
                    if text.char_at(size(end)).is_some() {
                        return Err("there is a character at the end".into());
                    }
                    let rest = text.slice(size(from)..);
                    if u32::from(rest.len()) as u64 != end - from {
                        return Err(format!("length from {from} on is {:?}, expected {}", rest.len(), end - from));
                    }
                    let mut sum = 0u64;
                    rest.for_each_chunk(|c| sum += c.len() as u64);
                    if sum != end - from {
                        return Err(format!("chunks from {from} on add up to {sum}, expected {}", end - from));
                    }
                    let stop = rest.try_fold_chunks(0u64, |n, c| if n > 3 { Err(n) } else { Ok(n + c.len() as u64) });
                    if stop.is_ok_and(|n| n > 3 && n != end - from) {
                        return Err("the visitor is not stopped".into());
                    }
                    Ok(())
                });
            }
            8 => {
                // pointers, into the same tree made anew
                let c = r.below(tree.kids.len());
                let i = &tree.kids[c];
                if !i.is_node() {
                    continue;
                }
                let a: u64 = tree.kids[..c].iter().map(|k| k.len()).sum();
                me.check(t(17), "pointer", || {
                    let g = root.green().into_owned();
                    let (once, again) = (Node::new_root(g.clone()), Node::new_root(g));
                    let here = once.children_with_tokens().nth(c).and_then(|x| x.into_node()).ok_or("not there")?;
                    let p = rowan::ast::SyntaxNodePtr::new(&here);
                    let y = p.try_to_node(&again).ok_or("does not resolve")?;
                    Huge::is(&y.clone().into(), i, a)?;
                    Huge::place(&y.into(), &[c])
                });
            }
            9 => {
                // edits of a value
                let c = r.below(tree.kids.len());
                let i = &tree.kids[c];
                let small = GreenToken::new(SyntaxKind(5), "q");
                me.check(t(3), "an edited value", || {
                    let g = root.green();
                    let x = match r.below(2) {
                        0 if end - i.len() < MAX => g.replace_child(c, small.into()),
                        _ => g.remove_child(c),
                    };
                    let n = end - i.len() + if x.children().len() == g.children().len() { 1 } else { 0 };
                    if u32::from(x.text_len()) as u64 != n {
                        return Err(format!("length is {:?}, expected {n}", x.text_len()));
                    }
                    let n: u64 = x.children().map(|c| u32::from(match c {
                        NodeOrToken::Node(n) => n.text_len(),
                        NodeOrToken::Token(t) => t.text_len(),
                    }) as u64).sum();
                    if n != u32::from(x.text_len()) as u64 {
                        return Err(format!("the children add up to {n}"));
                    }
                    Ok(())
                });
            }
            10 => {
                // deep down
                let inner: Vec<u16> = tree.kids.iter().flat_map(|k| k.kids.iter()).filter(|k| Huge::seen_kind(k) != 1).map(|k| k.kind).collect();
                if inner.is_empty() {
                    continue;
                }
                let kind = inner[r.below(inner.len())];
                let mut path = vec![];
                let (a, i) = tree.find(kind, 0, &mut path).unwrap();
                let mut got = None;
                me.check(t(4) | t(2), "deep down", || {
                    let mut x: El = root.clone().into();
                    for &p in &path {
                        x = x.into_node().unwrap().children_with_tokens().nth(p).ok_or("not there")?;
                    }
                    Huge::is(&x, i, a)?;
                    got = Some(x);
                    Ok(())
                });
                if let Some(x) = got {
                    if root.is_mutable() && me.held.len() < 8 {
                        me.held.push((x, kind));
                    } else if edits && root.is_mutable() && r.chance(50) {
                        w.must("detach", || x.detach());
                        let (last, up) = path.split_last().unwrap();
                        let gone = me.trees[0].at_mut(up).kids.remove(*last);
                        me.check(t(1) | t(2), "what is detached", || Huge::is(&x, &gone, 0));
                        if me.held.iter().any(|h| gone.find(h.1, 0, &mut vec![]).is_some()) {
                            me.trees.push(gone);
                        }
                    }
                }
            }
            11 if edits => {
                // within a node, with as many steps up
                let mut nodes = vec![];
                for (c, k) in tree.kids.iter().enumerate().filter(|k| k.1.is_node()) {
                    nodes.push(vec![c]);
                    nodes.extend(k.kids.iter().enumerate().filter(|k| k.1.is_node()).map(|d| vec![c, d.0]));
                }
                if nodes.is_empty() {
                    continue;
                }
                let path = &nodes[r.below(nodes.len())];
                let add = end + unit as u64 <= (1 << 32) - 1 && r.chance(60);
                let n = path.iter().fold(tree, |x, &i| &x.kids[i]).kids.len();
                if !add && n == 0 {
                    continue;
                }
                let c = r.below(n + add as usize);
                let i = It { kind: me.kind(), text: Some(Err(unit)), kids: vec![] };
                let many = if add { 0 } else { r.range(1, 2).min(n - c) };
                let made = w.must("splice", || {
                    let mut x = top.clone();
                    for &p in path {
                        x = x.children_with_tokens().nth(p).and_then(|x| x.into_node()).expect("a node");
                    }
                    let item = add.then(|| {
                        let y = Node::new_root_mut(GreenNode::new(SyntaxKind(3), [me.green(&i)]));
                        let c = y.first_child_or_token().unwrap();
                        c.detach();
                        c
                    });
                    x.splice_children(c..c + many, item.into_iter().collect::<Vec<El>>());
                });
                if made.is_none() {
                    return;
                }
                let gone: Vec<It> = me.trees[0].at_mut(path).kids.splice(c..c + many, add.then_some(i)).collect();
                for g in gone {
                    if me.held.iter().any(|h| g.find(h.1, 0, &mut vec![]).is_some()) {
                        me.trees.push(g);
                    }
                }
            }
            13 => {
                // all of it into a sink that counts, and may fail
                let at = if r.chance(60) { r.next() % (end + 1) } else { edge.min(end) };
                let mut sink = Sink { toks: &toks, k: 0, got: 0, fails: if r.chance(60) { at } else { u64::MAX }, failed: false, wrong: None };
                let form = r.below(4);
                me.check(t(11) | t(12), "rendering", || {
                    let res = match form {
                        0 => write!(sink, "{root}"),
                        1 => write!(sink, "{}", root.green()),
                        2 => write!(sink, "{}", root.text()),
                        _ => write!(sink, "{}", El::from(root.clone())),
                    };
                    if let Some(e) = sink.wrong {
                        return Err(format!("at {}: {e}", sink.got));
                    }
                    if res.is_err() != sink.failed {
                        return Err(format!("form {form}: result {res:?}, the sink failed: {}", sink.failed));
                    }
                    if !sink.failed && sink.got != end {
                        return Err(format!("form {form}: {} bytes, expected {end}", sink.got));
                    }
                    Ok(())
                });
            }
            15 if edits => {
                // up to the longest there is, and beyond
                if me.beyond(&top, &mut r, unit) {
                    std::mem::forget((me, top, fixed, green));
                    return;
                }
            }
            _ => {
                if !me.held.is_empty() {
                    let x = me.held.swap_remove(r.below(me.held.len()));
                    w.must("drop", || drop(x));
                }
            }
        }
        w.hit();
        me.check_held();
    }
    if w.stopped() {
        std::mem::forget(me);
        return;
    }
    me.check(t(1), "the tree in the end", || Huge::whole(&top, &me.trees[0]));
    me.check(t(3), "the source of the copy", || if u32::from(fixed.text_range().len()) as u64 == first { Ok(()) } else { Err(format!("its length is {:?} now", fixed.text_range())) });
    w.trace(op, me.trees[0].len());
    w.must("drop", || drop((me, top, fixed, green)));
}

/// The builder, and a single token, at the longest text and beyond it: too much
/// to do in every run.
pub fn beyond_builder() -> ! {
    std::panic::set_hook(Box::new(|_| ()));
    let refused = |f: &mut dyn FnMut() -> GreenNode, what: &str| match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(g) => {
            println!("WRONG {what}: accepted, its length is {:?}", g.text_len());
            std::process::exit(1)
        }
        Err(_) => println!("{what}: refused"),
    };
    let text = "x".repeat(1 << 26);
    let mut cache = rowan::NodeCache::default();
    let mut build = |cut: usize, deep: bool| {
        let mut b = rowan::GreenNodeBuilder::with_cache(&mut cache);
        b.start_node(SyntaxKind(1));
        for i in 0..64 {
            if deep && i % 16 == 0 {
                b.start_node(SyntaxKind(2));
            }
            b.token(SyntaxKind(3), if i == 63 { &text[cut..] } else { &text });
            if deep && i % 16 == 15 {
                b.finish_node();
            }
        }
        b.finish_node();
        b.finish()
    };
    refused(&mut || build(0, false), "2^32 bytes in one node of a builder");
    refused(&mut || build(0, true), "2^32 bytes in nodes of a builder");
    let g = build(1, true);
    let root = Node::new_root(g.clone());
    let last = root.last_token().unwrap();
    if u32::from(g.text_len()) != u32::MAX || u32::from(last.text_range().end()) != u32::MAX || u32::from(last.text_range().start()) != 63 << 26 {
        println!("WRONG 2^32-1 bytes of a builder: length is {:?}, the last token at {:?}", g.text_len(), last.text_range());
        std::process::exit(1)
    }
    println!("2^32-1 bytes of a builder: accepted");
    drop((root, last, g));
    let mut b = rowan::GreenNodeBuilder::with_cache(&mut cache);
    b.start_node(SyntaxKind(1));
    b.token(SyntaxKind(3), "x");
    b.finish_node();
    if b.finish().to_string() != "x" {
        println!("WRONG after a refusal the cache is no good");
        std::process::exit(1)
    }
    drop((cache, text));
    // one token
    for over in [1usize, 7] {
        let text = "y".repeat(u32::MAX as usize + over);
        refused(&mut || GreenNode::new(SyntaxKind(1), [GreenToken::new(SyntaxKind(3), &text).into()]), "a token that is too long");
    }
    println!("fine");
    std::process::exit(0)
}
