//! Fixed shapes beyond 24 bits: one node with more than 2^24 children, and a cache with millions of
//! different values. Too much to do in every run, so it is one history per check, after the search.
use crate::rng::Rng;
use crate::world::Node as ApiNode;
use rowan::ast::SyntaxNodePtr;
use rowan::cursor::{SyntaxElement as El, SyntaxNode as Node};
use rowan::{Direction, GreenNode, GreenNodeBuilder, GreenNodeData, GreenToken, NodeCache, NodeOrToken, SyntaxKind, TextRange, TextSize};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::time::Instant;

const SOLE: &str = "there are two copies of one content";
type Res = Result<(), String>;

fn k(n: u16) -> SyntaxKind {
    SyntaxKind(n)
}
fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// What a child is follows from its number, so that the model is a list of numbers.
struct Shape {
    n: u32,
    marks: Vec<u32>,
}

impl Shape {
    fn mark(&self, id: u32) -> bool {
        id >= self.n || self.marks.binary_search(&id).is_ok()
    }
    /// kind, text, whether it is a node (with one token)
    fn item(&self, id: u32) -> (u16, String, bool) {
        if self.mark(id) {
            return (7, format!("<{id}>"), true);
        }
        match id % 4099 {
            7 => (5, "n".into(), true),
            9 => (4, "".into(), false),
            x if x % 3 == 0 => (2, "a".into(), false),
            _ => (3, "bc".into(), false),
        }
    }
    fn green(&self, id: u32) -> NodeOrToken<GreenNode, GreenToken> {
        let (kind, text, node) = self.item(id);
        let tok = GreenToken::new(k(kind), &text);
        if node { GreenNode::new(k(kind), [tok.into()]).into() } else { tok.into() }
    }
    /// With few different values
    fn value(&self) -> GreenNode {
        let usual = [9, 7, 3, 4].map(|id| self.green(id));
        let at = |id: u32| {
            if self.mark(id) {
                return self.green(id);
            }
            match id % 4099 {
                7 => usual[1].clone(),
                9 => usual[0].clone(),
                x if x % 3 == 0 => usual[2].clone(),
                _ => usual[3].clone(),
            }
        };
        GreenNode::new(k(1), (0..self.n).map(at))
    }
    fn len(&self, id: u32) -> u32 {
        if self.mark(id) { self.item(id).1.len() as u32 } else { [1, 0, 1, 2][match id % 4099 { 7 => 0, 9 => 1, x if x % 3 == 0 => 2, _ => 3 }] }
    }
}

struct Vast {
    s: Shape,
    list: Vec<u32>,
    starts: Vec<u32>,
    top: Node,
    began: Instant,
}

impl Vast {
    fn slow(&self) -> bool {
        self.began.elapsed().as_secs() > 50
    }
    fn settle(&mut self) {
        self.starts.clear();
        let mut at = 0;
        for &id in &self.list {
            self.starts.push(at);
            at += self.s.len(id);
        }
        self.starts.push(at);
    }
    fn range(&self, at: usize) -> TextRange {
        TextRange::new(self.starts[at].into(), self.starts[at + 1].into())
    }
    fn looks(&self, el: &El, id: u32) -> Res {
        let (kind, text, node) = self.s.item(id);
        let ok = match el {
            NodeOrToken::Node(x) => node && x.text() == text.as_str(),
            NodeOrToken::Token(x) => !node && x.text() == text,
        };
        if ok && el.kind() == k(kind) { Ok(()) } else { Err(format!("it is {:?} of {:?}, expected {text:?} of {kind}", el.to_string(), el.kind())) }
    }
    fn is(&self, el: &El, at: usize) -> Res {
        self.looks(el, self.list[at])?;
        if el.index() != at || el.text_range() != self.range(at) {
            return Err(format!("it is number {} at {:?}, expected {at} at {:?}", el.index(), el.text_range(), self.range(at)));
        }
        if el.parent().as_ref() != Some(&self.top) {
            return Err(format!("number {at} has another parent"));
        }
        Ok(())
    }
    fn opt(&self, el: Option<El>, at: Option<usize>) -> Res {
        match (el, at) {
            (None, None) => Ok(()),
            (Some(el), Some(at)) => self.is(&el, at),
            (el, at) => Err(format!("it is {:?}, expected number {at:?}", el.map(|x| x.index()))),
        }
    }
    fn node_at(&self, at: &usize) -> bool {
        self.s.mark(self.list[*at]) || self.list[*at] % 4099 == 7
    }
    /// The child, by a way that does not take long
    fn get(&self, at: usize) -> Result<El, String> {
        let x = self.top.child_or_token_at_range(self.range(at)).ok_or(format!("no child is found at number {at}"))?;
        self.is(&x, at)?;
        Ok(x)
    }
    fn around(&self, at: usize) -> Res {
        let el = self.get(at)?;
        let n = self.list.len();
        self.opt(el.next_sibling_or_token(), (at + 1 < n).then_some(at + 1)).map_err(|e| format!("after number {at}: {e}"))?;
        self.opt(el.prev_sibling_or_token(), at.checked_sub(1)).map_err(|e| format!("before number {at}: {e}"))?;
        if let NodeOrToken::Node(x) = &el {
            self.opt(x.next_sibling().map(El::from), (at + 1..n).find(|x| self.node_at(x))).map_err(|e| format!("node after number {at}: {e}"))?;
            self.opt(x.prev_sibling().map(El::from), (0..at).rev().find(|x| self.node_at(x))).map_err(|e| format!("node before number {at}: {e}"))?;
            let c = x.clone();
            self.opt(c.to_next_sibling().map(El::from), (at + 1..n).find(|x| self.node_at(x))).map_err(|e| format!("node after number {at}: {e}"))?;
        }
        let again = self.get(at)?;
        if again != el || hash(&again) != hash(&el) {
            return Err(format!("two handles of number {at} are not the same"));
        }
        let two = self.range(at);
        let c = self.top.covering_element(two);
        if c.text_range() != two {
            return Err(format!("what covers number {at} is at {:?}, expected {two:?}", c.text_range()));
        }
        Ok(())
    }
    /// The last one, from both sides
    fn ends(&self) -> Res {
        let n = self.list.len();
        self.opt(self.top.first_child_or_token(), Some(0))?;
        self.opt(self.top.last_child_or_token(), Some(n - 1))?;
        self.opt(self.top.first_child().map(El::from), (0..n).find(|x| self.node_at(x)))?;
        self.opt(self.top.last_child().map(El::from), (0..n).rev().find(|x| self.node_at(x)))
    }
    fn same(&self, g: &GreenNodeData, list: &[u32]) -> Res {
        let len: u32 = list.iter().map(|&id| self.s.len(id)).sum();
        if g.children().len() != list.len() || u32::from(g.text_len()) != len {
            return Err(format!("{} children with {:?} bytes, expected {} with {len}", g.children().len(), g.text_len(), list.len()));
        }
        for (at, (c, &id)) in g.children().zip(list).enumerate() {
            let ok = match c {
                NodeOrToken::Token(x) if !self.s.mark(id) => match id % 4099 {
                    7 => false,
                    9 => x.text().is_empty() && x.kind() == k(4),
                    y if y % 3 == 0 => x.text() == "a" && x.kind() == k(2),
                    _ => x.text() == "bc" && x.kind() == k(3),
                },
                NodeOrToken::Token(_) => false,
                NodeOrToken::Node(x) => {
                    let (kind, text, node) = self.s.item(id);
                    node && x.kind() == k(kind) && x.children().len() == 1 && x.children().next().unwrap().into_token().is_some_and(|t| t.text() == text)
                }
            };
            if !ok {
                return Err(format!("child {at} is {:?}, expected {:?}", c.to_string(), self.s.item(id)));
            }
        }
        Ok(())
    }
}

const EDGES: [u32; 10] = [0, 127, 255, 65_535, 65_536, (1 << 20) + 1, 1 << 23, (1 << 24) - 1, 1 << 24, (1 << 24) + 1];

fn tree(prop: u32, r: &mut Rng) -> Res {
    let n = (1 << 24) + r.range(1000, 9000) as u32;
    let mut marks: Vec<u32> = EDGES.to_vec();
    marks.extend([n - 1, (1 << 24) + 2 + r.below(900) as u32]);
    marks.sort();
    marks.dedup();
    let s = Shape { n, marks: marks.clone() };
    let green = s.value();
    let list: Vec<u32> = (0..n).collect();
    let root = Node::new_root(green.clone());
    let mut me = Vast { s, list, starts: vec![], top: root.clone(), began: Instant::now() };
    me.settle();
    me.same(&green, &me.list).map_err(|e| format!("a new value: {e}"))?;
    let places: Vec<usize> = marks.iter().flat_map(|&x| [x as usize, (x as usize + 1).min(n as usize - 1), (x as usize).saturating_sub(1)]).chain((0..10).map(|_| r.below(n as usize))).filter(|&x| me.s.len(me.list[x]) > 0).collect();
    if matches!(prop, 3 | 4 | 16) {
        me.ends()?;
        for &at in &places {
            me.around(at)?;
        }
    }
    if prop == 4 {
        let at = (1 << 24) + 2;
        let mut it = me.top.children_with_tokens();
        me.opt(it.nth(at), Some(at))?;
        me.opt(it.next(), Some(at + 1))?;
        let here = me.range(at).start();
        let x = me.top.token_at_offset(here + TextSize::from(1)).left_biased().map(|x| x.text_range());
        if !x.is_some_and(|x| x.start() <= here) {
            return Err(format!("the token at {here:?} is at {x:?}"));
        }
    }
    if prop == 12 {
        let whole: String = me.list.iter().map(|&id| me.s.item(id).1).collect();
        let t = me.top.text();
        if u32::from(t.len()) as usize != whole.len() || t != whole.as_str() || t.to_string() != whole {
            return Err("the text of so many tokens is another".into());
        }
        for _ in 0..2 {
            let at = me.starts[places[r.below(places.len())]] as usize;
            let to = (at + r.below(300)).min(whole.len());
            let x = t.slice(TextRange::new((at as u32).into(), (to as u32).into()));
            if x != whole[at..to] || x.to_string() != whole[at..to] || t.char_at((at as u32).into()) != whole[at..].chars().next() {
                return Err(format!("the text at {at}..{to} is {:?}, expected {:?}", x.to_string(), &whole[at..to]));
            }
            let y = t.slice(TextSize::from(at as u32)..);
            let want = whole[at..].find('9').map(|x| TextSize::from(x as u32));
            if y.find_char('9') != want {
                return Err(format!("from {at} '9' is found at {:?}, expected {want:?}", y.find_char('9')));
            }
            if me.slow() {
                break;
            }
        }
    }
    if prop == 16 {
        // the same made again, and with one difference
        let other = me.s.value();
        if other != green || hash(&other) != hash(&green) {
            return Err("equal values are not equal or hash differently".into());
        }
        for at in [marks[r.below(marks.len())], 1 << 24, n - 1] {
            let x = other.replace_child(at as usize, me.s.green(n + 5));
            let y = other.replace_child(at as usize, if at % 2 == 0 { me.s.green(marks[1]) } else { me.s.green(marks[0]) });
            if x == green || green == x || y == green && at != marks[0] && at != marks[1] {
                return Err(format!("values that differ in child {at} are equal"));
            }
        }
    }
    if prop == 17 {
        let (a, b) = (ApiNode::new_root(green.clone()), ApiNode::new_root(green.clone()));
        for &at in places.iter().filter(|x| me.node_at(x)) {
            let x = a.child_or_token_at_range(me.range(at)).and_then(|x| x.into_node()).ok_or("no node is found")?;
            let p = SyntaxNodePtr::new(&x);
            let y = p.try_to_node(&b).ok_or(format!("a pointer to number {at} finds nothing"))?;
            let y: Node = y.into();
            if y.index() != at || y.text_range() != me.range(at) || y.kind() != SyntaxKind(x.kind().0) || y.text() != x.text() {
                return Err(format!("a pointer to number {at} resolves to number {}", y.index()));
            }
        }
    }
    if matches!(prop, 1 | 2 | 3 | 5) {
        edits(&mut me, &root, &green, prop, r)?;
    }
    drop((me, root, green));
    Ok(())
}

fn edits(me: &mut Vast, root: &Node, green: &GreenNode, prop: u32, r: &mut Rng) -> Res {
    me.top = root.clone_for_update();
    // (handle, its number, whether it is out)
    let mut held: Vec<(El, u32, bool)> = vec![];
    for id in me.s.marks.clone() {
        held.push((me.get(id as usize)?, id, false));
    }
    let all = |me: &Vast, held: &[(El, u32, bool)], after: &str| -> Res {
        for (el, id, out) in held {
            let res = if *out {
                me.looks(el, *id).and(if el.parent().is_none() && el.text_range().start() == 0.into() { Ok(()) } else { Err("it is taken for attached".into()) })
            } else {
                // marks stay in their order
                let at = me.list.iter().position(|x| x == id).unwrap();
                me.is(el, at)
            };
            res.map_err(|e| format!("{after}: the handle of {id}: {e}"))?;
        }
        Ok(())
    };
    all(me, &held, "at first")?;
    let mut snap: Option<(GreenNode, Vec<u32>)> = None;
    for step in 0..4 {
        if me.slow() {
            println!("slow");
            break;
        }
        let what;
        if step == 2 && prop != 5 {
            // one out, some new ones and one from far away in, behind 2^24
            let at = (1 << 24) - r.below(3);
            let new = me.s.n + 10;
            let made = Node::new_root_mut(GreenNode::new(k(9), [me.s.green(new)])).first_child_or_token().unwrap();
            made.detach();
            let i = held.iter().position(|x| !x.2).unwrap();
            let (el, far, _) = &held[i];
            let far = *far;
            me.top.splice_children(at..at + 1, vec![made.clone(), el.clone()]);
            let gone = me.list.remove(at);
            // it has left its place when it comes to the new one
            me.list.insert(at, new);
            let from = me.list.iter().position(|&x| x == far).filter(|_| far != gone);
            if let Some(from) = from {
                me.list.remove(from);
            }
            me.list.insert(at + 1, far);
            for x in &mut held {
                x.2 |= x.1 == gone && gone != far;
            }
            held.push((made, new, false));
            what = format!("after a splice at {at}");
        } else if prop == 5 && step % 2 == 0 {
            // all that a walk has passed goes
            let at = me.list.iter().position(|&x| x == (1 << 24) - 1).unwrap_or(1 << 24);
            let el = me.get(at)?;
            let mut it: Box<dyn Iterator<Item = El>> = match &el {
                NodeOrToken::Node(x) => Box::new(x.siblings_with_tokens(Direction::Next)),
                NodeOrToken::Token(x) => Box::new(x.siblings_with_tokens(Direction::Next)),
            };
            let passed: Vec<El> = it.by_ref().take(4).collect();
            for (i, x) in passed.iter().enumerate() {
                me.is(x, at + i).map_err(|e| format!("in a walk: {e}"))?;
            }
            for (x, _) in passed.iter().zip(0..3) {
                x.detach();
                let id = me.list.remove(at);
                for h in held.iter_mut().filter(|h| h.1 == id) {
                    h.2 = true;
                }
            }
            me.settle();
            let mut want = at + 1;
            for x in it {
                if want >= me.list.len() {
                    return Err("a walk goes on beyond the end".into());
                }
                me.is(&x, want).map_err(|e| format!("in the rest of a walk: {e}"))?;
                want += 1;
            }
            if want != me.list.len() {
                return Err(format!("a walk ends before {want}"));
            }
            what = format!("after a walk from {at}");
        } else {
            // mostly one in front of the others
            let inside: Vec<usize> = (0..held.len()).filter(|&i| !held[i].2).collect();
            let i = inside[r.below(inside.len()).min(r.below(inside.len()))];
            held[i].0.detach();
            held[i].2 = true;
            let id = held[i].1;
            me.list.retain(|x| *x != id);
            what = format!("after {id} is detached");
        }
        me.settle();
        all(me, &held, &what)?;
        me.ends().map_err(|e| format!("{what}: {e}"))?;
        for at in [(1 << 24) - 2, 1 << 24, me.list.len() - 1, 65_536] {
            if me.s.len(me.list[at]) > 0 {
                me.around(at).map_err(|e| format!("{what}: {e}"))?;
            }
        }
        if step == 1 {
            snap = Some((me.top.green().into_owned(), me.list.clone()));
        }
    }
    me.same(&me.top.green(), &me.list).map_err(|e| format!("at the end: {e}"))?;
    let first: Vec<u32> = (0..me.s.n).collect();
    me.same(green, &first).map_err(|e| format!("the source of the copy: {e}"))?;
    if let Some((g, list)) = snap {
        me.same(&g, &list).map_err(|e| format!("a snapshot: {e}"))?;
    }
    Ok(())
}

/// Millions of different tokens and nodes through one cache, and all of them once more.
fn cache(r: &mut Rng) -> Res {
    let n = (1 << 21) + r.range(1000, 9000) as u32;
    let base = r.u32() as u64;
    let deep = |i: u32| i % 3;
    // what is put around the rest when it is there already
    let point = (1 << 20) + r.below(1 << 19) as u32;
    let session = |cache: &mut NodeCache| {
        let mut b = GreenNodeBuilder::with_cache(cache);
        let mut at = None;
        b.start_node(k(1));
        for i in 0..n {
            if i == point {
                at = Some(b.checkpoint());
            }
            (0..deep(i)).for_each(|_| b.start_node(k(2 + (i % 5) as u16)));
            b.token(k(3), &format!("{}", base + i as u64));
            (0..deep(i)).for_each(|_| b.finish_node());
        }
        b.start_node_at(at.unwrap(), k(9));
        b.finish_node();
        b.finish_node();
        b.finish()
    };
    let leaves = |g: &GreenNode, each: &mut dyn FnMut(u32, &[*const u8]) -> Res| -> Res {
        let n1 = g.children().len();
        if n1 != point as usize + 1 {
            return Err(format!("{n1} children, expected {}", point + 1));
        }
        let inner = g.children().last().and_then(|x| x.into_node()).filter(|x| x.kind() == k(9)).ok_or("what was put in a node at a checkpoint is not in it")?;
        if inner.children().len() != (n - point) as usize {
            return Err(format!("{} children, expected {}", inner.children().len(), n - point));
        }
        for (i, c) in (0..).zip(g.children().take(point as usize).chain(inner.children())) {
            let mut path = [std::ptr::null::<u8>(); 3];
            let mut c = c;
            for p in path.iter_mut().take(deep(i) as usize) {
                let x = c.into_node().filter(|x| x.kind() == k(2 + (i % 5) as u16) && x.children().len() == 1);
                let x = x.ok_or(format!("number {i} is {:?}", c.to_string()))?;
                *p = x as *const GreenNodeData as *const u8;
                c = x.children().next().unwrap();
            }
            match c {
                NodeOrToken::Token(x) if x.kind() == k(3) && x.text().parse() == Ok(base + i as u64) => path[deep(i) as usize] = x as *const _ as *const u8,
                c => return Err(format!("number {i} is {:?}, expected {}", c.to_string(), base + i as u64)),
            }
            each(i, &path)?;
        }
        Ok(())
    };
    let mut cache = NodeCache::default();
    let one = session(&mut cache);
    let mut where_at: Vec<[*const u8; 3]> = Vec::with_capacity(n as usize);
    leaves(&one, &mut |_, p| {
        where_at.push([p[0], p[1], p[2]]);
        Ok(())
    })
    .map_err(|e| format!("the first session: {e}"))?;
    let two = session(&mut cache);
    let mut copies = 0u32;
    let mut which = 0;
    leaves(&two, &mut |i, p| {
        if where_at[i as usize] != *p {
            copies += 1;
            which = i;
        }
        Ok(())
    })
    .map_err(|e| format!("the second session: {e}"))?;
    if one != two {
        return Err("two sessions of one content are not equal".into());
    }
    if copies > 0 {
        return Err(format!("{SOLE}: {copies} of {n} values, the last of them number {which}"));
    }
    drop(cache);
    leaves(&one, &mut |_, _| Ok(())).map_err(|e| format!("without the cache: {e}"))
}

pub fn play(prop: u32, seed: u64) -> ! {
    let out = std::panic::catch_unwind(|| {
        let mut r = Rng::from3(seed as u32, (seed >> 32) as u32);
        match prop {
            14 | 15 => cache(&mut r),
            _ => tree(prop, &mut r),
        }
    });
    let out = out.unwrap_or_else(|e| {
        let what = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string()));
        Err(format!("unexpected panic: {}", what.unwrap_or_default()))
    });
    match out {
        // who keeps copies is not who loses content
        Err(e) if prop == 14 && e.starts_with(SOLE) => println!("fine"),
        Err(e) => {
            println!("WRONG {e}");
            std::process::exit(1)
        }
        Ok(()) => println!("fine"),
    }
    std::process::exit(0)
}
