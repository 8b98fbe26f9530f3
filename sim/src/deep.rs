//! A chain of nodes many levels deep, with tokens on both sides of each, looked at and edited by
//! one client. The model is a list of levels.
use crate::plan::Op;
use crate::rng::Rng;
use crate::world::*;
use rowan::ast::SyntaxNodePtr;
use rowan::{GreenNode, GreenNodeBuilder, GreenNodeData, GreenToken, NodeCache, NodeOrToken, SyntaxKind, TextRange, TextSize, WalkEvent};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

type Word = (u16, String);

/// The nodes from the outermost to the innermost one: each has the next between its tokens.
#[derive(Clone, PartialEq, Debug)]
struct Level {
    kind: u16,
    pre: Vec<Word>,
    post: Vec<Word>,
}

#[derive(Clone, PartialEq)]
struct Chain(Vec<Level>);

fn len_of(v: &[Word]) -> u32 {
    v.iter().map(|x| x.1.len() as u32).sum()
}
fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

impl Chain {
    /// Ranges of all nodes, when the chain begins at zero.
    fn ranges(&self) -> Vec<TextRange> {
        let mut at = 0;
        let starts: Vec<u32> = self
            .0
            .iter()
            .map(|l| {
                let s = at;
                at += len_of(&l.pre);
                s
            })
            .collect();
        let mut out = vec![TextRange::default(); self.0.len()];
        for (k, l) in self.0.iter().enumerate().rev() {
            at += len_of(&l.post);
            out[k] = TextRange::new(starts[k].into(), at.into());
        }
        out
    }
    fn words(&self) -> Vec<&Word> {
        self.0.iter().flat_map(|l| &l.pre).chain(self.0.iter().rev().flat_map(|l| &l.post)).collect()
    }
    fn text(&self) -> String {
        self.words().iter().map(|x| x.1.as_str()).collect()
    }
    fn green(&self) -> GreenNode {
        let tok = |x: &Word| NodeOrToken::Token(GreenToken::new(SyntaxKind(x.0), &x.1));
        let mut inner: Option<GreenNode> = None;
        for l in self.0.iter().rev() {
            let mut v: Vec<_> = l.pre.iter().map(tok).collect();
            v.extend(inner.take().map(NodeOrToken::Node));
            v.extend(l.post.iter().map(tok));
            inner = Some(GreenNode::new(SyntaxKind(l.kind), v));
        }
        inner.unwrap()
    }
    fn build(&self, mut b: GreenNodeBuilder) -> GreenNode {
        for l in &self.0 {
            b.start_node(SyntaxKind(l.kind));
            l.pre.iter().for_each(|x| b.token(SyntaxKind(x.0), &x.1));
        }
        for l in self.0.iter().rev() {
            l.post.iter().for_each(|x| b.token(SyntaxKind(x.0), &x.1));
            b.finish_node();
        }
        b.finish()
    }
    /// The inner nodes first, and what is around them at checkpoints.
    fn wrap(&self, mut b: GreenNodeBuilder) -> GreenNode {
        let mut marks = vec![];
        for l in &self.0 {
            marks.push(b.checkpoint());
            l.pre.iter().for_each(|x| b.token(SyntaxKind(x.0), &x.1));
        }
        for l in self.0.iter().rev() {
            l.post.iter().for_each(|x| b.token(SyntaxKind(x.0), &x.1));
            b.start_node_at(marks.pop().unwrap(), SyntaxKind(l.kind));
            b.finish_node();
        }
        b.finish()
    }
    fn is(&self, g: &GreenNodeData) -> Result<(), String> {
        let ranges = self.ranges();
        let mut g = g;
        for (k, l) in self.0.iter().enumerate() {
            let last = k + 1 == self.0.len();
            let n = l.pre.len() + l.post.len() + !last as usize;
            if g.kind().0 != l.kind || g.children().len() != n || g.text_len() != ranges[k].len() {
                return Err(format!("level {k} is K{} with {} children and {:?} bytes, expected K{} with {n} and {:?}", g.kind().0, g.children().len(), g.text_len(), l.kind, ranges[k].len()));
            }
            let mut next = None;
            for (i, c) in g.children().enumerate() {
                let want = match i.checked_sub(l.pre.len()) {
                    None => &l.pre[i],
                    Some(0) if !last => {
                        next = c.into_node();
                        continue;
                    }
                    Some(j) => &l.post[j - !last as usize],
                };
                match c {
                    NodeOrToken::Token(x) if x.kind().0 == want.0 && x.text() == want.1 => (),
                    c => return Err(format!("child {i} of level {k} is {c:?}, expected {want:?}")),
                }
            }
            match next {
                Some(x) => g = x,
                None if last => (),
                None => return Err(format!("below level {k} is no node")),
            }
        }
        Ok(())
    }
}

fn word(r: &mut Rng) -> Word {
    (r.range(40, 44) as u16, ["a", "bc", "漢", "", "xyz", "_0"][r.below(6)].to_string())
}

fn make(r: &mut Rng, n: usize) -> Chain {
    // one kind for all, a few, or all different
    let kinds = *[1, 1, 3, 60_000].get(r.below(4)).unwrap();
    // how many levels have tokens of their own
    let (pre, post) = (*[0, 10, 60].get(r.below(3)).unwrap(), *[0, 10, 60].get(r.below(3)).unwrap());
    let mut some = |p: usize, r: &mut Rng| -> Vec<Word> {
        if !r.chance(p) {
            return vec![];
        }
        (0..r.range(1, 2)).map(|_| word(r)).collect()
    };
    let mut v: Vec<Level> = (0..n).map(|k| Level { kind: (100 + k % kinds) as u16, pre: some(pre, r), post: some(post, r) }).collect();
    v[n - 1].pre.push((40, "in".into()));
    Chain(v)
}

struct Deep<'a> {
    w: &'a World,
    ranges: Vec<TextRange>,
    chain: Chain,
}

impl Deep<'_> {
    fn check(&self, tags: u32, what: &str, f: impl FnOnce() -> Result<(), String>) {
        if let Some(Err(e)) = self.w.must(what, f) {
            if !crate::slow() {
                self.w.bad(tags, format!("deep: {what}: {e}"));
            }
        }
    }
    /// The node on level `k`, found in one of many ways
    fn get(&self, r: &mut Rng, root: &Node, k: usize) -> Option<Node> {
        match r.below(5) {
            0 => (0..k).try_fold(root.clone(), |x, _| x.first_child()),
            1 => root.descendants().nth(k),
            2 => {
                let n = self.chain.0.len();
                let inner = (0..n - 1).try_fold(root.clone(), |x, _| x.last_child())?;
                let x = inner.ancestors().nth(n - 1 - k);
                x
            }
            3 => {
                let mut x = root.clone();
                for _ in 0..k {
                    x = x.children().next()?;
                }
                Some(x)
            }
            _ => (0..k).try_fold(root.clone(), |x, _| x.children_with_tokens().find_map(|c| c.into_node())),
        }
    }
    fn is(&self, x: &Node, k: usize) -> Result<(), String> {
        let l = &self.chain.0[k];
        if x.kind().0 != l.kind || x.text_range() != self.ranges[k] {
            return Err(format!("it is {:?}@{:?}, expected K{}@{:?}", x.kind(), x.text_range(), l.kind, self.ranges[k]));
        }
        let up = x.ancestors().count();
        if up != k + 1 {
            return Err(format!("the node on level {k} has {up} ancestors"));
        }
        let index = if k == 0 { 0 } else { self.chain.0[k - 1].pre.len() };
        if x.index() != index {
            return Err(format!("the index is {}, expected {index}", x.index()));
        }
        let down = self.chain.0[k + 1..].iter().map(|l| l.kind);
        if !x.descendants().skip(1).map(|x| x.kind().0).eq(down) {
            return Err(format!("below level {k} is something else"));
        }
        Ok(())
    }
}

pub fn play(w: &World, op: &Op) {
    let mut r = Rng::from3(op.a[0], op.a[1]);
    let n = match r.below(6) {
        0 => r.range(20, 80),
        1 => r.range(120, 140),
        2 => r.range(250, 265),
        3 => r.range(500, 530),
        _ => r.range(600, 1300),
    };
    w.stat(if n > 500 { "scale.over_500_levels" } else { "scale.deep" });
    let chain = make(&mut r, n);
    let how = r.below(4);
    let Some(green) = w.must("build", || match how {
        0 => chain.green(),
        1 => chain.build(GreenNodeBuilder::new()),
        2 => chain.wrap(GreenNodeBuilder::new()),
        _ => chain.build(GreenNodeBuilder::with_cache(&mut NodeCache::default())),
    }) else {
        return;
    };
    let Some(root) = w.must("root", || Node::new_root(green.clone())) else { return };
    let me = Deep { w, ranges: chain.ranges(), chain };
    me.check(t(14) | t(4), "the tree that was built", || me.chain.is(&green));
    let mut held: Vec<(Node, usize)> = vec![];
    let mut mine: Option<(Node, Chain)> = None;
    for _ in 0..r.range(4, 14) {
        if w.stopped() || crate::slow() {
            break;
        }
        let k = if r.chance(50) { n - 1 - r.below(6) } else { r.below(n) };
        let code = r.below(15);
        w.say(|| format!("  deep {code} at {k} of {n}"));
        let Some(Some(x)) = w.must("lookup", || me.get(&mut r, &root, k)) else {
            if !crate::slow() {
                w.bad(t(4), format!("deep: no node is found on level {k} of {n}"));
            }
            break;
        };
        match code {
            0 => {
                me.check(t(4), "looked up", || me.is(&x, k));
                if held.len() < 8 {
                    held.push((x.clone(), k));
                }
            }
            1 | 2 => {
                // a copy, at the same place
                let Some(y) = w.must("clone_for_update", || x.clone_for_update()) else { break };
                me.check(t(3) | t(2), "the copy", || me.is(&y, k));
                let Some(Some(top)) = w.must("root of the copy", || y.ancestors().last()) else { break };
                me.check(t(3), "the tree of the copy", || me.chain.is(&top.green()));
                if k > 0 {
                    let rest = {
                        let mut c = me.chain.clone();
                        c.0.truncate(k);
                        c
                    };
                    let cut = Chain(me.chain.0[k..].to_vec());
                    let index = y.index();
                    w.must("detach", || y.detach());
                    me.check(t(1), "what is left", || rest.is(&top.green()));
                    me.check(t(1) | t(2), "what was detached", || {
                        if y.parent().is_some() || y.text_range() != TextRange::up_to(me.ranges[k].len()) {
                            return Err(format!("it is at {:?} below {:?}", y.text_range(), y.parent()));
                        }
                        cut.is(&y.green())
                    });
                    let back = r.chance(50);
                    if back {
                        me.check(t(1) | t(2), "put back", || {
                            let p = (0..k - 1).try_fold(top.clone(), |x, _| x.first_child()).ok_or("no place to put it")?;
                            p.splice_children(index..index, vec![y.clone().into()]);
                            me.is(&y, k)?;
                            me.chain.is(&top.green())
                        });
                    }
                    me.check(t(3), "the source", || me.chain.is(&root.green()));
                }
            }
            3 => {
                let tags = t(17);
                me.check(tags, "pointer", || {
                    let p = SyntaxNodePtr::new(&x);
                    if p.text_range() != me.ranges[k] || p.kind() != x.kind() {
                        return Err(format!("it is {p:?}, expected {:?}", me.ranges[k]));
                    }
                    let again = Node::new_root(me.chain.green());
                    let y = p.try_to_node(&again).ok_or(format!("on level {k} does not resolve"))?;
                    let at = y.ancestors().count() - 1;
                    me.is(&y, at)?;
                    if y.kind() != x.kind() || y.text_range() != x.text_range() {
                        return Err(format!("resolves to {:?}@{:?}", y.kind(), y.text_range()));
                    }
                    Ok(())
                });
            }
            4 => {
                // the same with one node substituted
                let mut want = me.chain.clone();
                want.0.truncate(k + 1);
                want.0[k].pre.push(word(&mut r));
                want.0[k].post.insert(0, word(&mut r));
                let new = Chain(vec![want.0[k].clone()]);
                let got = w.must("replace", || x.replace_with(new.green()));
                if let Some(g) = got {
                    me.check(t(3), "with a node substituted", || want.is(&g));
                }
                if let Some(Some(tok)) = w.must("token", || x.children_with_tokens().find_map(|c| c.into_token())) {
                    let mut want = me.chain.clone();
                    let l = &mut want.0[k];
                    let of = if l.pre.is_empty() { &mut l.post[0] } else { &mut l.pre[0] };
                    of.1 = "substitute".into();
                    let kind = of.0;
                    if let Some(g) = w.must("replace", || tok.replace_with(GreenToken::new(SyntaxKind(kind), "substitute"))) {
                        me.check(t(3), "with a token substituted", || want.is(&g));
                    }
                }
                me.check(t(3), "the source", || me.chain.is(&root.green()));
            }
            5 | 6 => {
                // a little different, on one level
                let mut other = me.chain.clone();
                let j = if r.chance(50) { n - 1 - r.below(4) } else { r.below(n) };
                let l = &mut other.0[j];
                match r.below(5) {
                    0 => l.kind ^= 1,
                    1 => l.pre.push((40, String::new())),
                    2 => l.post.push((40, "!".into())),
                    3 => match l.pre.first_mut().or(l.post.first_mut()) {
                        Some(x) if !x.1.is_empty() => x.1 = x.1.chars().map(|c| if c == 'a' { 'b' } else { 'a' }).collect(),
                        Some(x) => x.0 ^= 1,
                        None => l.kind ^= 1,
                    },
                    _ => {
                        // one level more, around the same
                        let l = Level { kind: l.kind, pre: vec![], post: vec![] };
                        other.0.insert(j, l);
                    }
                }
                me.check(t(16), "equality", || {
                    let (a, b) = (other.green(), me.chain.build(GreenNodeBuilder::new()));
                    let (x, y, z): (&GreenNodeData, &GreenNodeData, &GreenNodeData) = (&green, &a, &b);
                    if green == a || a == green || x == y || y == x {
                        return Err(format!("values that differ on level {j} of {n} are equal"));
                    }
                    if green != b || x != z || z != x {
                        return Err("equal values are not equal".into());
                    }
                    if hash(&green) != hash(&b) {
                        return Err("equal values hash differently".into());
                    }
                    Ok(())
                });
                let (a, b) = (me.chain.text(), other.text());
                me.check(t(12), "equality of texts", || {
                    let o = Node::new_root(other.green());
                    if (root.text() == o.text()) != (a == b) || (o.text() == root.text()) != (a == b) {
                        return Err(format!("of a text that differs on level {j} is {}", root.text() == o.text()));
                    }
                    Ok(())
                });
            }
            7 => {
                let text = me.chain.text();
                let rg = me.ranges[k];
                let sub = &text[usize::from(rg.start())..usize::from(rg.end())];
                me.check(t(12), "text", || {
                    let v = x.text();
                    if v.len() != rg.len() || v != sub || v.to_string() != sub {
                        return Err(format!("of level {k} is {v:?}, expected {sub:?}"));
                    }
                    for c in ['i', '漢', '?'] {
                        let want = sub.find(c).map(|x| TextSize::from(x as u32));
                        if v.find_char(c) != want || v.contains_char(c) != want.is_some() {
                            return Err(format!("{c:?} is found at {:?}, expected {want:?}", v.find_char(c)));
                        }
                    }
                    let (i, c) = sub.char_indices().nth(sub.chars().count() / 2).unwrap();
                    if v.char_at((i as u32).into()) != Some(c) {
                        return Err(format!("at {i} is {:?}, expected {c:?}", v.char_at((i as u32).into())));
                    }
                    Ok(())
                });
                me.check(t(11), "rendering", || {
                    let whole = root.to_string();
                    if whole != text || green.to_string() != text {
                        return Err(format!("is {whole:?}, expected {text:?}"));
                    }
                    if n < 300 && w.cfg.prop == 11 {
                        let mut want = String::new();
                        use std::fmt::Write;
                        let mut at = 0;
                        let mut tok = |depth: usize, x: &Word, want: &mut String| {
                            let end = at + x.1.len();
                            writeln!(want, "{}K{}@{at}..{end} {:?}", "  ".repeat(depth), x.0, x.1).unwrap();
                            at = end;
                        };
                        for (k, l) in me.chain.0.iter().enumerate() {
                            let rg = me.ranges[k];
                            writeln!(want, "{}K{}@{}..{}", "  ".repeat(k), l.kind, u32::from(rg.start()), u32::from(rg.end())).unwrap();
                            l.pre.iter().for_each(|x| tok(k + 1, x, &mut want));
                        }
                        for (k, l) in me.chain.0.iter().enumerate().rev() {
                            l.post.iter().for_each(|x| tok(k + 1, x, &mut want));
                        }
                        if format!("{root:#?}") != want {
                            return Err(format!("the dump is {root:#?}, expected {want}"));
                        }
                    }
                    Ok(())
                });
            }
            8 => {
                me.check(t(4), "tokens", || {
                    let all = me.chain.words();
                    let mut it = root.first_token();
                    for (i, x) in all.iter().enumerate() {
                        let tok = it.ok_or(format!("they end at {i}"))?;
                        if tok.kind().0 != x.0 || tok.text() != x.1 {
                            return Err(format!("number {i} is {tok:?}, expected {x:?}"));
                        }
                        it = tok.next_token();
                    }
                    if it.is_some() {
                        return Err("one too many".into());
                    }
                    let mut it = root.last_token();
                    for (i, x) in all.iter().enumerate().rev() {
                        let tok = it.ok_or(format!("they begin at {i}"))?;
                        if tok.kind().0 != x.0 || tok.text() != x.1 {
                            return Err(format!("number {i} is {tok:?}, expected {x:?} (backwards)"));
                        }
                        it = tok.prev_token();
                    }
                    Ok(())
                });
            }
            9 => {
                // a lookup by place
                let words = me.chain.words();
                let mut at = 0u32;
                let mut inner: Vec<(TextRange, &Word)> = words
                    .iter()
                    .map(|x| {
                        let rg = TextRange::at(at.into(), TextSize::of(x.1.as_str()));
                        at += x.1.len() as u32;
                        (rg, *x)
                    })
                    .collect();
                inner.retain(|x| !x.0.is_empty());
                let (rg, x) = inner[r.below(inner.len())];
                me.check(t(4), "lookup by place", || {
                    let a = root.token_at_offset(rg.start()).right_biased();
                    let b = root.token_at_offset(rg.end()).left_biased();
                    let c = root.covering_element(rg);
                    for got in [a.map(El::from), b.map(El::from), Some(c)] {
                        match got {
                            Some(NodeOrToken::Token(y)) if y.text_range() == rg && y.kind().0 == x.0 && y.text() == x.1 => (),
                            // it might be the only thing in there
                            Some(NodeOrToken::Node(y)) if y.text_range() == rg => (),
                            y => return Err(format!("at {rg:?} is {y:?}, expected {x:?}")),
                        }
                    }
                    Ok(())
                });
            }
            10 => {
                // a walk, with something skipped
                me.check(t(4) | t(5), "a walk", || {
                    let mut it = root.preorder();
                    let mut level = 0;
                    let mut down = true;
                    while let Some(e) = it.next() {
                        match e {
                            WalkEvent::Enter(y) => {
                                if !down || y.kind().0 != me.chain.0[level].kind || y.text_range() != me.ranges[level] {
                                    return Err(format!("enters {y:?} on level {level}"));
                                }
                                if level == k {
                                    it.skip_subtree();
                                    down = false;
                                }
                                level += 1;
                            }
                            WalkEvent::Leave(y) => {
                                down = false;
                                level = level.checked_sub(1).ok_or("leaves too many")?;
                                if y.kind().0 != me.chain.0[level].kind || y.text_range() != me.ranges[level] {
                                    return Err(format!("leaves {y:?} on level {level}"));
                                }
                            }
                        }
                    }
                    if level != 0 { Err(format!("ends on level {level}")) } else { Ok(()) }
                });
                me.check(t(4), "a walk with tokens", || {
                    let mut all = me.chain.words().into_iter();
                    for e in root.preorder_with_tokens() {
                        if let WalkEvent::Enter(NodeOrToken::Token(y)) = e {
                            match all.next() {
                                Some(x) if y.kind().0 == x.0 && y.text() == x.1 => (),
                                x => return Err(format!("enters {y:?}, expected {x:?}")),
                            }
                        }
                    }
                    if all.next().is_some() { Err("ends too early".into()) } else { Ok(()) }
                });
            }
            11 | 12 => {
                // edits far down, by one who holds others
                let (top, mut now) = match mine.take() {
                    Some(x) => x,
                    None => {
                        let Some(top) = w.must("copy", || Node::new_root_mut(green.clone())) else { break };
                        (top, me.chain.clone())
                    }
                };
                let Some(Some(y)) = w.must("lookup", || me.get(&mut r, &top, k)) else {
                    if !crate::slow() {
                        w.bad(t(4) | t(1), format!("deep: no node is found on level {k} of {n} after edits"));
                    }
                    break;
                };
                let inner = w.must("lookup", || y.descendants().last()).flatten();
                let x = word(&mut r);
                let made = w.must("new", || {
                    let p = Node::new_root_mut(GreenNode::new(SyntaxKind(3), [NodeOrToken::Token(GreenToken::new(SyntaxKind(x.0), &x.1))]));
                    p.first_child_or_token().unwrap()
                });
                let Some(el) = made else { break };
                let l = &mut now.0[k];
                let total = l.pre.len() + l.post.len() + (k + 1 < n) as usize;
                if r.chance(70) || total < 3 {
                    let front = r.chance(50);
                    let at = if front { 0 } else { total };
                    w.must("insert", || y.splice_children(at..at, vec![el.clone()]));
                    if front {
                        l.pre.insert(0, x);
                    } else if k + 1 < n || !l.post.is_empty() {
                        l.post.push(x);
                    } else {
                        l.pre.push(x);
                    }
                } else if let Some(x) = (!l.pre.is_empty()).then(|| l.pre.remove(0)) {
                    me.check(t(1), "remove", || {
                        let e = y.first_child_or_token().ok_or("nothing to remove")?;
                        e.detach();
                        if e.kind().0 != x.0 || e.parent().is_some() { Err(format!("it is {e:?}, expected {x:?}")) } else { Ok(()) }
                    });
                }
                let ranges = now.ranges();
                me.check(t(1) | t(2), "after an edit", || {
                    now.is(&top.green())?;
                    for (e, j) in [(Some(y.clone()), k), (inner.clone(), n - 1), (Some(top.clone()), 0)] {
                        let e = e.ok_or("lost")?;
                        if e.text_range() != ranges[j] || e.kind().0 != now.0[j].kind || e.ancestors().count() != j + 1 {
                            return Err(format!("{e:?} on level {j}, expected {:?}", ranges[j]));
                        }
                    }
                    Ok(())
                });
                me.check(t(3), "the source", || me.chain.is(&root.green()));
                mine = Some((top, now));
            }
            13 => {
                // on the way up, each is taken out once the walk is past it
                let Some(Some(inner)) = w.must("copy", || root.clone_for_update().descendants().last()) else { break };
                me.check(t(5), "a walk up", || {
                    let mut level = n;
                    for y in inner.ancestors() {
                        level = level.checked_sub(1).ok_or("goes on too far")?;
                        if y.kind().0 != me.chain.0[level].kind || y.text_range() != TextRange::at(me.ranges[level].start(), y.text_range().len()) {
                            return Err(format!("{y:?} is not the one on level {level}"));
                        }
                        if level % 3 == 1 {
                            y.detach();
                        }
                    }
                    if level != 0 { Err(format!("ends on level {level}")) } else { Ok(()) }
                });
            }
            _ => {
                // through a cache
                let small = me.chain.0.iter().rev().all(|l| l.pre.len() + l.post.len() < 3);
                me.check(t(14) | t(15), "through a cache", || {
                    let mut cache = NodeCache::default();
                    let a = me.chain.build(GreenNodeBuilder::with_cache(&mut cache));
                    let b = me.chain.wrap(GreenNodeBuilder::with_cache(&mut cache));
                    me.chain.is(&a)?;
                    me.chain.is(&b)?;
                    if small && !std::ptr::eq::<GreenNodeData>(&*a, &*b) {
                        return Err("the same is there twice".into());
                    }
                    drop(cache);
                    me.chain.is(&b)
                });
            }
        }
        w.hit();
        w.must("drop", || drop(x));
        for (x, k) in &held {
            me.check(t(2) | t(3), "a handle held", || me.is(x, *k));
        }
    }
    w.trace(op, n as u64);
    if let Some((top, now)) = &mine {
        me.check(t(1), "at the end", || now.is(&top.green()));
    }
    me.check(t(3), "the value", || me.chain.is(&green));
    // what is left holds the rest
    let order = r.below(4);
    w.must("drop", || {
        if order == 0 {
            drop(held);
            drop(root);
        } else if order == 1 {
            drop(root);
            drop(held);
        } else {
            drop(held);
            let inner = root.descendants().last();
            drop(root);
            drop(green);
            drop(inner);
        }
        drop(mine);
    });
}
