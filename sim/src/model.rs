//! The reference model: plain ordered trees in an arena, and plain values.
use crate::rng::{hash_bytes, mix};
use std::rc::Rc;

pub type Id = usize;

/// A green value.
#[derive(Debug)]
pub struct G {
    pub kind: u16,
    pub body: GBody,
    pub len: u32,
    pub hash: u64,
    /// number of elements
    pub size: usize,
}
#[derive(Debug)]
pub enum GBody {
    Node(Vec<Rc<G>>),
    Token(Rc<str>),
}

impl G {
    pub fn node(kind: u16, ch: Vec<Rc<G>>) -> Rc<G> {
        let mut len = 0;
        let mut hash = mix(1, kind as u64);
        let mut size = 1;
        for c in &ch {
            len += c.len;
            hash = mix(hash, c.hash);
            size += c.size;
        }
        hash = mix(hash, ch.len() as u64);
        Rc::new(G { kind, body: GBody::Node(ch), len, hash, size })
    }
    pub fn token(kind: u16, text: &str) -> Rc<G> {
        let hash = mix(mix(2, kind as u64), hash_bytes(text.as_bytes()));
        Rc::new(G { kind, len: text.len() as u32, body: GBody::Token(text.into()), hash, size: 1 })
    }
    pub fn is_node(&self) -> bool {
        matches!(self.body, GBody::Node(_))
    }
    pub fn children(&self) -> &[Rc<G>] {
        match &self.body {
            GBody::Node(c) => c,
            GBody::Token(_) => &[],
        }
    }
    pub fn text_to(&self, out: &mut String) {
        match &self.body {
            GBody::Node(c) => c.iter().for_each(|c| c.text_to(out)),
            GBody::Token(t) => out.push_str(t),
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.text_to(&mut s);
        s
    }
    /// At most three children, all of them equally small.
    pub fn small(&self) -> bool {
        match &self.body {
            GBody::Node(c) => c.len() <= 3 && c.iter().all(|c| c.small()),
            GBody::Token(_) => true,
        }
    }
    pub fn same(a: &G, b: &G) -> bool {
        a.hash == b.hash
            && a.kind == b.kind
            && a.len == b.len
            && match (&a.body, &b.body) {
                (GBody::Node(x), GBody::Node(y)) => {
                    x.len() == y.len() && x.iter().zip(y).all(|(x, y)| G::same(x, y))
                }
                (GBody::Token(x), GBody::Token(y)) => x == y,
                _ => false,
            }
    }
    /// The same value with the element at `path` substituted.
    pub fn subst(&self, path: &[usize], new: Rc<G>) -> Rc<G> {
        match path.split_first() {
            None => new,
            Some((&i, rest)) => {
                let mut ch = self.children().to_vec();
                ch[i] = ch[i].subst(rest, new);
                G::node(self.kind, ch)
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum Body {
    Node(Vec<Id>),
    Token(Rc<str>),
}

#[derive(Clone, Debug)]
pub struct Elem {
    pub kind: u16,
    pub body: Body,
    pub parent: Option<Id>,
    pub mutable: bool,
}

#[derive(Default)]
pub struct Model {
    pub e: Vec<Elem>,
}

impl Model {
    pub fn is_node(&self, id: Id) -> bool {
        matches!(self.e[id].body, Body::Node(_))
    }
    pub fn kind(&self, id: Id) -> u16 {
        self.e[id].kind
    }
    pub fn mutable(&self, id: Id) -> bool {
        self.e[id].mutable
    }
    pub fn parent(&self, id: Id) -> Option<Id> {
        self.e[id].parent
    }
    pub fn children(&self, id: Id) -> &[Id] {
        match &self.e[id].body {
            Body::Node(c) => c,
            Body::Token(_) => &[],
        }
    }
    pub fn node_children(&self, id: Id) -> Vec<Id> {
        self.children(id).iter().copied().filter(|&c| self.is_node(c)).collect()
    }
    pub fn token_text(&self, id: Id) -> Rc<str> {
        match &self.e[id].body {
            Body::Token(t) => t.clone(),
            Body::Node(_) => "".into(),
        }
    }
    pub fn root(&self, mut id: Id) -> Id {
        while let Some(p) = self.e[id].parent {
            id = p;
        }
        id
    }
    pub fn index(&self, id: Id) -> usize {
        match self.e[id].parent {
            None => 0,
            Some(p) => self.children(p).iter().position(|&c| c == id).unwrap(),
        }
    }
    pub fn len(&self, id: Id) -> u32 {
        match &self.e[id].body {
            Body::Node(c) => c.iter().map(|&c| self.len(c)).sum(),
            Body::Token(t) => t.len() as u32,
        }
    }
    pub fn offset(&self, id: Id) -> u32 {
        match self.e[id].parent {
            None => 0,
            Some(p) => {
                let mut o = self.offset(p);
                for &c in self.children(p) {
                    if c == id {
                        break;
                    }
                    o += self.len(c);
                }
                o
            }
        }
    }
    pub fn range(&self, id: Id) -> (u32, u32) {
        let o = self.offset(id);
        (o, o + self.len(id))
    }
    pub fn path(&self, id: Id) -> Vec<usize> {
        let mut p = vec![];
        let mut id = id;
        while let Some(q) = self.e[id].parent {
            p.push(self.index(id));
            id = q;
        }
        p.reverse();
        p
    }
    pub fn at_path(&self, root: Id, path: &[usize]) -> Option<Id> {
        let mut id = root;
        for &i in path {
            id = *self.children(id).get(i)?;
        }
        Some(id)
    }
    pub fn ancestors(&self, id: Id) -> Vec<Id> {
        let mut v = vec![id];
        let mut id = id;
        while let Some(p) = self.e[id].parent {
            v.push(p);
            id = p;
        }
        v
    }
    /// Elements of the subtree in document order.
    pub fn subtree(&self, id: Id) -> Vec<Id> {
        let mut v = vec![];
        self.subtree_to(id, &mut v);
        v
    }
    fn subtree_to(&self, id: Id, out: &mut Vec<Id>) {
        out.push(id);
        for &c in self.children(id) {
            self.subtree_to(c, out);
        }
    }
    pub fn tokens(&self, id: Id) -> Vec<Id> {
        self.subtree(id).into_iter().filter(|&c| !self.is_node(c)).collect()
    }
    pub fn events(&self, id: Id, tokens: bool) -> Vec<(Id, bool)> {
        let mut v = vec![];
        self.events_to(id, tokens, &mut v);
        v
    }
    fn events_to(&self, id: Id, tokens: bool, out: &mut Vec<(Id, bool)>) {
        if !tokens && !self.is_node(id) {
            return;
        }
        out.push((id, true));
        for &c in self.children(id) {
            self.events_to(c, tokens, out);
        }
        out.push((id, false));
    }
    pub fn green(&self, id: Id) -> Rc<G> {
        match &self.e[id].body {
            Body::Node(c) => G::node(self.kind(id), c.iter().map(|&c| self.green(c)).collect()),
            Body::Token(t) => G::token(self.kind(id), t),
        }
    }
    pub fn text(&self, id: Id) -> String {
        let mut s = String::new();
        self.text_to(id, &mut s);
        s
    }
    fn text_to(&self, id: Id, out: &mut String) {
        match &self.e[id].body {
            Body::Node(c) => c.iter().for_each(|&c| self.text_to(c, out)),
            Body::Token(t) => out.push_str(t),
        }
    }
    /// Make a new tree of elements.
    pub fn plant(&mut self, g: &G, mutable: bool) -> Id {
        self.plant_in(g, mutable, None)
    }
    fn plant_in(&mut self, g: &G, mutable: bool, parent: Option<Id>) -> Id {
        let id = self.e.len();
        let body = match &g.body {
            GBody::Node(_) => Body::Node(vec![]),
            GBody::Token(t) => Body::Token(t.clone()),
        };
        self.e.push(Elem { kind: g.kind, body, parent, mutable });
        for c in g.children() {
            let c = self.plant_in(c, mutable, Some(id));
            match &mut self.e[id].body {
                Body::Node(v) => v.push(c),
                Body::Token(_) => unreachable!(),
            }
        }
        id
    }
    pub fn detach(&mut self, id: Id) {
        if let Some(p) = self.e[id].parent.take() {
            match &mut self.e[p].body {
                Body::Node(v) => v.retain(|&c| c != id),
                Body::Token(_) => unreachable!(),
            }
        }
    }
    pub fn insert(&mut self, parent: Id, index: usize, id: Id) {
        assert!(self.e[id].parent.is_none());
        match &mut self.e[parent].body {
            Body::Node(v) => v.insert(index, id),
            Body::Token(_) => unreachable!(),
        }
        self.e[id].parent = Some(parent);
    }
    pub fn roots(&self) -> Vec<Id> {
        (0..self.e.len()).filter(|&i| self.e[i].parent.is_none()).collect()
    }
}

/// Compare a real green value with a model value.
pub fn green_is(real: &rowan::GreenNodeData, g: &G) -> bool {
    let ch = g.children();
    g.is_node()
        && real.kind().0 == g.kind
        && u32::from(real.text_len()) == g.len
        && real.children().len() == ch.len()
        && real.children().zip(ch).all(|(r, g)| green_elem_is(r, g))
}

pub fn green_elem_is(
    real: rowan::NodeOrToken<&rowan::GreenNodeData, &rowan::GreenTokenData>,
    g: &G,
) -> bool {
    match real {
        rowan::NodeOrToken::Node(n) => green_is(n, g),
        rowan::NodeOrToken::Token(t) => green_token_is(t, g),
    }
}

pub fn green_token_is(real: &rowan::GreenTokenData, g: &G) -> bool {
    match &g.body {
        GBody::Token(s) => {
            real.kind().0 == g.kind
                && real.text() == &**s
                && u32::from(real.text_len()) == g.len
        }
        GBody::Node(_) => false,
    }
}

/// Compare a real green value with the present content of a model element.
pub fn green_is_elem(real: &rowan::GreenNodeData, m: &Model, id: Id) -> bool {
    if !m.is_node(id) || real.kind().0 != m.kind(id) {
        return false;
    }
    let ch = m.children(id);
    let mut len = 0;
    if real.children().len() != ch.len() {
        return false;
    }
    for (r, &c) in real.children().zip(ch) {
        match r {
            rowan::NodeOrToken::Node(n) => {
                if !green_is_elem(n, m, c) {
                    return false;
                }
                len += u32::from(n.text_len());
            }
            rowan::NodeOrToken::Token(t) => match &m.e[c].body {
                Body::Token(s) if t.kind().0 == m.kind(c) && t.text() == &**s => {
                    len += s.len() as u32;
                }
                _ => return false,
            },
        }
    }
    u32::from(real.text_len()) == len
}
