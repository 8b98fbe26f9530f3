//! Stored pointers to nodes.
use crate::alloc::lib;
use crate::model::*;
use crate::nav::Even;
use crate::plan::Op;
use crate::rng::Rng;
use crate::values;
use crate::world::*;
use rowan::ast::{AstNode, AstPtr, SyntaxNodePtr};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

pub struct Ptr {
    raw: SyntaxNodePtr<L>,
    typed: Option<AstPtr<Even>>,
    /// The tree it was taken from, as it was.
    source: Rc<G>,
    kind: u16,
    range: (u32, u32),
}

fn kr(m: &Model, id: Id) -> (u16, (u32, u32)) {
    (m.kind(id), m.range(id))
}

pub fn take(w: &World, op: &Op) {
    let Some((c, i, id)) = w.pick_el(op.client, op.a[0], |m, id| m.is_node(id) && !m.mutable(id)) else { return };
    let (kind, range) = kr(&w.m.borrow(), id);
    let p = w.with_el(c, i, |el, _| {
        let n = el.as_node().unwrap();
        w.must("pointer", || {
            let raw = SyntaxNodePtr::new(n);
            let typed = if kind % 2 == 0 {
                Some(if op.a[1] % 2 == 0 { AstPtr::new(&Even(n.clone())) } else { raw.cast::<Even>().unwrap() })
            } else {
                None
            };
            (raw, typed)
        })
    });
    let Some((raw, typed)) = p else { return };
    if raw.kind().0 != kind || raw.text_range() != rowan::TextRange::new(range.0.into(), range.1.into()) {
        w.bad(t(17), format!("pointer says {:?} {:?}", raw.kind(), raw.text_range()));
    }
    if kind % 2 != 0 && raw.cast::<Even>().is_some() {
        w.bad(t(17), "pointer casts to a type that cannot be");
    }
    if let Some(t2) = &typed {
        if t2.syntax_node_ptr() != raw || SyntaxNodePtr::from(t2.clone()) != raw || *t2 != raw.cast::<Even>().unwrap() || t2.clone().cast::<crate::nav::Odd>().is_some() {
            w.bad(t(17) | t(16), format!("typed pointer is to {:?}, expected {raw:?}", t2.syntax_node_ptr()));
        }
        let same = t2.clone().cast::<Even>().is_some_and(|x| x == *t2);
        if !same {
            w.bad(t(17), "typed pointer casts to something else");
        }
    }
    // others nearby
    let others = w.with_el(c, i, |el, _| {
        let n = el.as_node().unwrap();
        w.must("pointers", || {
            let mut v: Vec<Node> = n.ancestors().skip(1).take(2).collect();
            v.extend(n.descendants().skip(1).take(3));
            v.extend(n.siblings(rowan::Direction::Next).take(3));
            v.extend(n.siblings(rowan::Direction::Prev).skip(1).take(2));
            v.iter().map(SyntaxNodePtr::new).collect::<Vec<_>>()
        })
    });
    for x in others.into_iter().flatten() {
        compare(w, &raw, &x);
    }
    let source = {
        let m = w.m.borrow();
        m.green(m.root(id))
    };
    w.say(|| format!("client {} takes a pointer to K{kind}@{range:?}", op.client));
    w.trace(op, 1);
    w.push(op.client, Slot::Ptr(Box::new(Ptr { raw, typed, source, kind, range })));
}

fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Pointers are equal exactly when they say the same.
fn compare(w: &World, a: &SyntaxNodePtr<L>, b: &SyntaxNodePtr<L>) {
    let want = a.kind() == b.kind() && a.text_range() == b.text_range();
    if (a == b) != want || (b == a) != want || want && hash(a) != hash(b) {
        w.bad(t(17) | t(16), format!("pointers {a:?} and {b:?}: equality is {}", a == b));
    }
    if let (Some(x), Some(y)) = (a.cast::<Even>(), b.cast::<Even>()) {
        if (x == y) != want || want && hash(&x) != hash(&y) {
            w.bad(t(17) | t(16), format!("typed pointers {x:?} and {y:?}: equality is {}", x == y));
        }
    }
}

pub fn deref(w: &World, op: &Op) {
    let a = op.a;
    if a[4] % 4 == 0 {
        // two that are held
        let pick = |x: u8, y: u32| {
            w.pick(op.client.wrapping_add(x), y, |s| matches!(s, Slot::Ptr(_))).map(|(c, i)| match &w.clients.borrow()[c].slots[i] {
                Slot::Ptr(p) => p.raw,
                _ => unreachable!(),
            })
        };
        if let (Some(x), Some(y)) = (pick(0, a[0]), pick((a[3] >> 8) as u8, a[1])) {
            compare(w, &x, &y);
        }
    }
    let Some((c, i)) = w.pick(op.client.wrapping_add((a[3] % 2) as u8), a[0], |s| matches!(s, Slot::Ptr(_))) else { return };
    let Slot::Ptr(p) = w.take(c, i) else { unreachable!() };
    let mut r = Rng::from3(a[1], a[2]);
    let what = r.below(8);
    w.trace(op, what as u64);
    match what {
        // a tree of somebody: it may be the same, another one, or not a root at all
        0 | 1 | 2 => {
            if let Some((oc, oi, oid)) = w.pick_el(op.client, r.u32(), |m, id| m.is_node(id) && (what == 2 || m.parent(id).is_none())) {
                w.with_el(oc, oi, |el, _| resolve(w, &p, el.as_node().unwrap(), oid));
            }
        }
        3 => {
            // the root of what somebody holds
            if let Some((oc, oi, oid)) = w.pick_el(op.client, r.u32(), |m, id| !m.mutable(id)) {
                let root = w.with_el(oc, oi, |el, _| {
                    lib(|| World::parents_of(el).ok().and_then(|x| x.1.into_node()))
                });
                if let Some(n) = root {
                    let rid = w.m.borrow().root(oid);
                    resolve(w, &p, &n, rid);
                    w.release(Slot::El(n.into(), rid));
                }
            }
        }
        _ => {
            // the same source, built again from nothing, at another time and in another way
            let g = if r.chance(80) { p.source.clone() } else { change(&p.source, &mut r) };
            let how = r.u32();
            if let Some(green) = w.must("build again", || values::real(w, &g, how)) {
                if w.m.borrow().e.len() < 6000 {
                    let id = w.m.borrow_mut().plant(&g, false);
                    if let Some(n) = w.must("new_root", || Node::new_root(green)) {
                        resolve(w, &p, &n, id);
                        if r.chance(20) {
                            w.push(op.client, Slot::El(n.into(), id));
                        } else {
                            w.release(Slot::El(n.into(), id));
                        }
                    }
                }
            }
        }
    }
    w.put(c, i, Slot::Ptr(p));
}

/// A tree like it, but not the same.
fn change(g: &Rc<G>, r: &mut Rng) -> Rc<G> {
    let mut ch = g.children().to_vec();
    if ch.is_empty() {
        return G::node(g.kind, vec![G::token(3, "zz")]);
    }
    let k = r.below(ch.len());
    match r.below(4) {
        0 => {
            ch.remove(k);
        }
        1 => ch.insert(k, G::token(3, "zz")),
        2 => ch.insert(k, G::node(g.kind ^ 1, vec![])),
        _ if ch[k].is_node() => ch[k] = change(&ch[k], r),
        _ => ch.swap(0, k),
    }
    G::node(g.kind, ch)
}

fn resolve(w: &World, p: &Ptr, root: &Node, id: Id) {
    let (mutable, is_root, targets, same) = {
        let m = w.m.borrow();
        let targets: Vec<Id> = m.subtree(id).into_iter().filter(|&x| m.is_node(x) && kr(&m, x) == (p.kind, p.range)).collect();
        let same = m.parent(id).is_none() && G::same(&m.green(id), &p.source);
        (m.mutable(id), m.parent(id).is_none(), targets, same)
    };
    w.hit();
    if mutable {
        match w.call(|| p.raw.try_to_node(root).is_some()) {
            Err(_) => w.stat("fault.resolve_in_mutable"),
            Ok(_) => w.bad(t(17), "pointer resolves in a mutable tree"),
        }
        return;
    }
    let Some(got) = w.must("resolve", || {
        let typed = p.typed.as_ref().map(|t| t.try_to_node(root));
        (p.raw.try_to_node(root), typed)
    }) else {
        return;
    };
    w.say(|| format!("pointer to K{}@{:?} resolves: {}", p.kind, p.range, got.0.is_some()));
    let nothing = || format!("pointer to K{}@{:?}", p.kind, p.range);
    let one = |n: Option<Node>, what: &str| match n {
        None => {
            if is_root && !targets.is_empty() && same {
                w.bad(t(17), format!("{}{what} finds nothing in the tree it comes from", nothing()));
            }
        }
        Some(n) => {
            if !is_root {
                w.bad(t(17), format!("{}{what} resolves from below a root", nothing()));
            }
            let el: El = n.into();
            let fits = targets.iter().any(|&x| w.same(&el, x).and_then(|_| w.content(&el, x)).is_ok());
            if !fits {
                w.bad(t(17), format!("{}{what} resolves to K{}@{:?}", nothing(), el.kind().0, el.text_range()));
            }
            w.release(Slot::El(el, 0));
        }
    };
    one(got.0, "");
    if let Some(x) = got.1 {
        one(x.map(|e| e.syntax().clone()), " (typed)");
    }
    if same && is_root {
        // must be there
        let t0 = w.must("resolve", || {
            let n = p.raw.to_node(root);
            let ok = p.typed.as_ref().map_or(true, |t| *t.to_node(root).syntax() == n);
            ok && n.kind().0 == p.kind
        });
        if t0 != Some(true) {
            w.bad(t(17), format!("{}: to_node disagrees with try_to_node", nothing()));
        }
    }
}
