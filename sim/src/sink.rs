//! Rendering and serialising into sinks that may fail.
use crate::alloc::{lib, ours};
use crate::model::*;
use crate::plan::Op;
use crate::rng::Rng;
use crate::world::*;
use rowan::{NodeOrToken, TextRange};
use serde::ser;
use std::fmt::{self, Write};

// ---- text ---------------------------------------------------------------------

struct Sink {
    got: String,
    /// Fail at this call, or when this many bytes have come.
    at_call: usize,
    at_byte: usize,
    calls: usize,
    failed: bool,
    late: usize,
}
impl Sink {
    fn healthy() -> Sink {
        Sink { got: String::new(), at_call: usize::MAX, at_byte: usize::MAX, calls: 0, failed: false, late: 0 }
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        ours(|| {
            if self.failed {
                self.late += 1;
                return Err(fmt::Error);
            }
            self.calls += 1;
            if self.calls > 5_000_000 {
                crate::die("output does not end");
            }
            callback(Cb::Sink);
            if self.calls > self.at_call {
                self.failed = true;
                return Err(fmt::Error);
            }
            if self.got.len() + s.len() > self.at_byte {
                let mut k = self.at_byte - self.got.len();
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                self.got.push_str(&s[..k]);
                self.failed = true;
                return Err(fmt::Error);
            }
            self.got.push_str(s);
            Ok(())
        })
    }
}

fn token_line(kind: u16, range: (u32, u32), text: &str) -> String {
    let mut s = format!("K{kind}@{}..{} ", range.0, range.1);
    if text.len() < 25 {
        s.push_str(&format!("{text:?}"));
    } else {
        let k = (21..25).find(|&i| text.is_char_boundary(i)).unwrap();
        s.push_str(&format!("{:?}", format!("{} ...", &text[..k])));
    }
    s
}

fn dump(m: &Model, id: Id, level: usize, out: &mut String) {
    for _ in 0..level {
        out.push_str("  ");
    }
    let (s, e) = m.range(id);
    if m.is_node(id) {
        out.push_str(&format!("K{}@{s}..{e}\n", m.kind(id)));
        for &c in m.children(id) {
            dump(m, c, level + 1, out);
        }
    } else {
        out.push_str(&token_line(m.kind(id), (s, e), &m.token_text(id)));
        out.push('\n');
    }
}

fn write_to(s: &Slot, form: usize, out: &mut Sink) -> fmt::Result {
    match s {
        Slot::El(NodeOrToken::Node(n), _) => {
            let raw: rowan::cursor::SyntaxNode = n.clone().into();
            match form {
                0 => write!(out, "{n}"),
                1 => write!(out, "{n:#?}"),
                2 => write!(out, "{n:?}"),
                3 => write!(out, "{raw}"),
                4 => write!(out, "{raw:?}"),
                5 => write!(out, "{}", NodeOrToken::<&Node, &Tok>::Node(n)),
                6 => write!(out, "{:#?}", El::from(n.clone())),
                _ => write!(out, "{}", n.text()),
            }
        }
        Slot::El(NodeOrToken::Token(n), _) => {
            let raw: rowan::cursor::SyntaxToken = n.clone().into();
            match form {
                0 | 5 => write!(out, "{n}"),
                1 => write!(out, "{n:#?}"),
                2 | 4 | 6 => write!(out, "{n:?}"),
                _ => write!(out, "{raw}"),
            }
        }
        Slot::Green(x, _) => match form {
            0 | 3 | 5 | 7 => write!(out, "{x}"),
            1 => write!(out, "{x:#?}"),
            _ => write!(out, "{x:?}"),
        },
        Slot::GTok(x, _) => match form {
            0 | 3 | 5 | 7 => write!(out, "{x}"),
            1 => write!(out, "{x:#?}"),
            _ => write!(out, "{x:?}"),
        },
        _ => Ok(()),
    }
}

/// The whole output, where it is known.
fn wanted(m: &Model, s: &Slot, form: usize) -> Option<String> {
    match s {
        Slot::El(NodeOrToken::Node(_), id) => match form {
            0 | 3 | 5 | 7 => Some(m.text(*id)),
            1 => {
                let mut o = String::new();
                dump(m, *id, 0, &mut o);
                Some(o)
            }
            2 => {
                let (s, e) = m.range(*id);
                Some(format!("K{}@{s}..{e}", m.kind(*id)))
            }
            _ => None,
        },
        Slot::El(NodeOrToken::Token(_), id) => match form {
            1 | 2 | 4 | 6 => Some(token_line(m.kind(*id), m.range(*id), &m.token_text(*id))),
            _ => Some(m.token_text(*id).to_string()),
        },
        Slot::Green(_, g) | Slot::GTok(_, g) => match form {
            0 | 3 | 5 | 7 => Some(g.text()),
            _ => None,
        },
        _ => None,
    }
}

pub fn render(w: &World, op: &Op) {
    let a = op.a;
    let Some((c, i)) = w.pick(op.client, a[0], |s| matches!(s, Slot::El(..) | Slot::Green(..) | Slot::GTok(..))) else { return };
    let mut r = Rng::from3(a[1], a[2]);
    let form = r.below(8);
    let s = w.take(c, i);
    let copy = w.must("clone", || match &s {
        Slot::El(el, id) => Slot::El(el.clone(), *id),
        Slot::Green(x, g) => Slot::Green(x.clone(), g.clone()),
        Slot::GTok(x, g) => Slot::GTok(x.clone(), g.clone()),
        _ => unreachable!(),
    });
    w.put(c, i, s);
    let Some(s) = copy else { return };
    let want = wanted(&w.m.borrow(), &s, form);
    let edits0 = w.edits.get();
    w.say(|| format!("client {} renders (form {form})", op.client));

    // with a fault in the code called back
    let about = match &s {
        Slot::El(el, id) => Some((el, *id)),
        _ => None,
    };
    if w.arm_on(1 << Cb::Sink as u32 | 1 << Cb::Language as u32, a[3], about) {
        let mut out = Sink::healthy();
        let res = w.call(|| write_to(&s, form, &mut out));
        let fired = w.disarm();
        if let Err(Panic::Msg(m)) = res {
            // user code has changed the tree under it: it may give up
            if w.edits.get() == edits0 {
                w.bad(ALL, format!("rendering: unexpected panic: {m}"));
            }
        }
        if fired {
            w.hit();
            w.audit(2);
        }
    }
    if w.edits.get() == edits0 && !w.stopped() {
        // a healthy sink
        let mut full = Sink::healthy();
        let res = w.must("rendering", || write_to(&s, form, &mut full));
        if res.is_some_and(|r| r.is_err()) {
            w.bad(t(11), "rendering into a healthy sink fails");
        }
        if let Some(x) = &want {
            if *x != full.got {
                w.bad(t(11), format!("rendering (form {form}) gives {:?}, expected {x:?}", full.got));
            }
        }
        if w.cfg.sinks > 0 && !w.stopped() {
            for _ in 0..3 {
                let mut out = Sink::healthy();
                if r.chance(60) {
                    out.at_call = r.below(full.calls + 1);
                } else {
                    out.at_byte = r.below(full.got.len() + 1);
                }
                let must_fail = out.at_call < full.calls || out.at_byte < full.got.len();
                let Some(res) = w.must("rendering", || write_to(&s, form, &mut out)) else { break };
                if !full.got.starts_with(&out.got) {
                    w.bad(t(11), format!("failing sink got {:?}, not a prefix of {:?}", out.got, full.got));
                }
                if out.late > 0 {
                    w.bad(t(11), format!("sink is written to after it failed ({} times)", out.late));
                }
                if out.failed && res.is_ok() {
                    w.bad(t(11), "error of the sink is lost");
                }
                if !out.failed && (res.is_err() || out.got != full.got) {
                    w.bad(t(11), "rendering stops although the sink does not fail");
                }
                if must_fail && !out.failed {
                    // it took fewer or larger calls this time: fine
                }
                if out.failed {
                    w.stat("fault.sink_write");
                    w.hit();
                }
                if w.stopped() {
                    break;
                }
            }
            // and once more, all of it
            let mut again = Sink::healthy();
            let res = w.must("rendering", || write_to(&s, form, &mut again));
            if again.got != full.got || res.is_some_and(|r| r.is_err()) {
                w.bad(t(11), format!("rendering again gives {:?}, expected {:?}", again.got, full.got));
            }
        }
        if let Some(x) = &want {
            w.log(crate::rng::hash_bytes(x.as_bytes()));
        }
        w.trace(op, full.calls as u64);
    }
    if w.stopped() {
        std::mem::forget(s);
    } else {
        w.release(s);
        if w.cfg.sinks > 0 {
            w.audit(1);
        }
    }
}

// ---- serialisation ------------------------------------------------------------------

#[derive(Clone, PartialEq, Debug)]
enum Ev {
    Str(String),
    Num(u64),
    Other(&'static str),
    Map(Option<usize>),
    Seq(Option<usize>),
    Tuple(usize),
    End,
}

#[derive(Clone, PartialEq, Debug)]
enum V {
    Str(String),
    Num(u64),
    Other(&'static str),
    Seq(Vec<V>),
    Map(Vec<(V, V)>),
}

struct Rec {
    log: Vec<Ev>,
    fail_at: usize,
    failed: bool,
    late: usize,
}
impl Rec {
    fn new(fail_at: usize) -> Rec {
        Rec { log: vec![], fail_at, failed: false, late: 0 }
    }
    fn ev(&mut self, e: impl FnOnce() -> Ev) -> Result<(), Failed> {
        ours(|| {
            if self.failed {
                self.late += 1;
                return Err(Failed(0));
            }
            if self.log.len() > 200_000 {
                crate::die("output does not end");
            }
            callback(Cb::Sink);
            if self.log.len() == self.fail_at {
                self.failed = true;
                return Err(Failed(77));
            }
            self.log.push(e());
            Ok(())
        })
    }
}
#[derive(Debug, PartialEq)]
struct Failed(u32);
impl fmt::Display for Failed {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "failed")
    }
}
impl std::error::Error for Failed {}
impl ser::Error for Failed {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Failed(1)
    }
}

macro_rules! nums {
    ($($f:ident $t:ty),*) => {$(
        fn $f(self, v: $t) -> Result<(), Failed> { self.ev(|| Ev::Num(v as u64)) }
    )*};
}
impl<'a> ser::Serializer for &'a mut Rec {
    type Ok = ();
    type Error = Failed;
    type SerializeSeq = &'a mut Rec;
    type SerializeTuple = &'a mut Rec;
    type SerializeTupleStruct = &'a mut Rec;
    type SerializeTupleVariant = &'a mut Rec;
    type SerializeMap = &'a mut Rec;
    type SerializeStruct = &'a mut Rec;
    type SerializeStructVariant = &'a mut Rec;
    nums!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_bool bool);
    fn serialize_f32(self, _: f32) -> Result<(), Failed> {
        self.ev(|| Ev::Other("float"))
    }
    fn serialize_f64(self, _: f64) -> Result<(), Failed> {
        self.ev(|| Ev::Other("float"))
    }
    fn serialize_char(self, v: char) -> Result<(), Failed> {
        self.ev(|| Ev::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<(), Failed> {
        self.ev(|| Ev::Str(v.to_string()))
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<(), Failed> {
        self.ev(|| Ev::Other("bytes"))
    }
    fn serialize_none(self) -> Result<(), Failed> {
        self.ev(|| Ev::Other("none"))
    }
    fn serialize_some<T: ?Sized + ser::Serialize>(self, v: &T) -> Result<(), Failed> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Failed> {
        self.ev(|| Ev::Other("unit"))
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Failed> {
        self.ev(|| Ev::Other("unit"))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<(), Failed> {
        self.ev(|| Ev::Str(v.to_string()))
    }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, v: &T) -> Result<(), Failed> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> Result<(), Failed> {
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Failed> {
        self.ev(|| Ev::Seq(n))?;
        Ok(self)
    }
    fn serialize_tuple(self, n: usize) -> Result<Self, Failed> {
        self.ev(|| Ev::Tuple(n))?;
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Self, Failed> {
        self.ev(|| Ev::Tuple(n))?;
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, n: usize) -> Result<Self, Failed> {
        self.ev(|| Ev::Tuple(n))?;
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, Failed> {
        self.ev(|| Ev::Map(n))?;
        Ok(self)
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Self, Failed> {
        self.ev(|| Ev::Map(Some(n)))?;
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, n: usize) -> Result<Self, Failed> {
        self.ev(|| Ev::Map(Some(n)))?;
        Ok(self)
    }
}
macro_rules! seqs {
    ($($tr:ident $f:ident),*) => {$(
        impl ser::$tr for &mut Rec {
            type Ok = ();
            type Error = Failed;
            fn $f<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), Failed> { v.serialize(&mut **self) }
            fn end(self) -> Result<(), Failed> { self.ev(|| Ev::End) }
        }
    )*};
}
seqs!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl ser::SerializeMap for &mut Rec {
    type Ok = ();
    type Error = Failed;
    fn serialize_key<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), Failed> {
        v.serialize(&mut **self)
    }
    fn serialize_value<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), Failed> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Failed> {
        self.ev(|| Ev::End)
    }
}
macro_rules! structs {
    ($($tr:ident),*) => {$(
        impl ser::$tr for &mut Rec {
            type Ok = ();
            type Error = Failed;
            fn serialize_field<T: ?Sized + ser::Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Failed> {
                self.ev(|| Ev::Str(k.to_string()))?;
                v.serialize(&mut **self)
            }
            fn end(self) -> Result<(), Failed> { self.ev(|| Ev::End) }
        }
    )*};
}
structs!(SerializeStruct, SerializeStructVariant);

fn parse(ev: &[Ev], at: &mut usize) -> Result<V, String> {
    let e = ev.get(*at).ok_or("output ends too early")?;
    *at += 1;
    let mut list = |n: Option<usize>| -> Result<Vec<V>, String> {
        let mut v = vec![];
        loop {
            match ev.get(*at) {
                None => return Err("output ends too early".into()),
                Some(Ev::End) => {
                    *at += 1;
                    break;
                }
                Some(_) => v.push(parse(ev, at)?),
            }
        }
        match n {
            Some(n) if n != v.len() => Err(format!("{n} entries announced, {} delivered", v.len())),
            _ => Ok(v),
        }
    };
    Ok(match e {
        Ev::Str(s) => V::Str(s.clone()),
        Ev::Num(n) => V::Num(*n),
        Ev::Other(s) => V::Other(s),
        Ev::Seq(n) => V::Seq(list(*n)?),
        Ev::Tuple(n) => V::Seq(list(Some(*n))?),
        Ev::Map(n) => {
            let v = list(n.map(|n| 2 * n))?;
            let mut m = vec![];
            for kv in v.chunks(2) {
                m.push((kv[0].clone(), kv.get(1).cloned().ok_or("key without a value")?));
            }
            V::Map(m)
        }
        Ev::End => return Err("unexpected end".into()),
    })
}

fn field<'a>(v: &'a V, name: &str) -> Result<&'a V, String> {
    match v {
        V::Map(m) => {
            if m.len() != 3 {
                return Err(format!("{} fields", m.len()));
            }
            m.iter().find(|(k, _)| *k == V::Str(name.into())).map(|x| &x.1).ok_or(format!("no field {name}"))
        }
        _ => Err("not a map".into()),
    }
}

fn check(v: &V, m: &Model, id: Id) -> Result<(), String> {
    let k = m.kind(id);
    if *field(v, "kind")? != V::Str(format!("K{k}")) {
        return Err(format!("kind is {:?}, expected K{k}", field(v, "kind")?));
    }
    let (s, e) = m.range(id);
    let mut rec = Rec::new(usize::MAX);
    ser::Serialize::serialize(&TextRange::new(s.into(), e.into()), &mut rec).unwrap();
    let want = parse(&rec.log, &mut 0)?;
    if *field(v, "text_range")? != want {
        return Err(format!("text_range of K{k} is {:?}, expected {want:?}", field(v, "text_range")?));
    }
    if m.is_node(id) {
        let V::Seq(c) = field(v, "children")? else { return Err("children are not a sequence".into()) };
        let want = m.children(id);
        if c.len() != want.len() {
            return Err(format!("{} children of K{k}, expected {}", c.len(), want.len()));
        }
        c.iter().zip(want).try_for_each(|(c, &id)| check(c, m, id))
    } else {
        let want = V::Str(m.token_text(id).to_string());
        if *field(v, "text")? != want {
            return Err(format!("text of K{k} is {:?}, expected {want:?}", field(v, "text")?));
        }
        Ok(())
    }
}

pub fn serialize(w: &World, op: &Op) {
    let a = op.a;
    let Some((c, i, id)) = w.pick_el(op.client, a[0], |_, _| true) else { return };
    let mut r = Rng::from3(a[1], a[2]);
    let el = w.with_el(c, i, |el, _| lib(|| el.clone()));
    let run = |rec: &mut Rec| match &el {
        NodeOrToken::Node(n) => ser::Serialize::serialize(n, rec),
        NodeOrToken::Token(n) => ser::Serialize::serialize(n, rec),
    };
    let edits0 = w.edits.get();
    w.say(|| format!("client {} serialises K{}", op.client, w.m.borrow().kind(id)));
    if w.arm_on(1 << Cb::Sink as u32 | 1 << Cb::Language as u32, a[3], Some((&el, id))) {
        let mut rec = Rec::new(usize::MAX);
        let res = w.call(|| run(&mut rec));
        let fired = w.disarm();
        if let Err(Panic::Msg(m)) = res {
            if w.edits.get() == edits0 {
                w.bad(ALL, format!("serialising: unexpected panic: {m}"));
            }
        }
        if fired {
            w.hit();
            w.audit(2);
        }
    }
    if w.edits.get() == edits0 && !w.stopped() {
        let mut full = Rec::new(usize::MAX);
        let res = w.must("serialising", || run(&mut full));
        if res.is_some_and(|r| r.is_err()) {
            w.bad(t(11), "serialising into a healthy sink fails");
        }
        let mut at = 0;
        let v = parse(&full.log, &mut at).and_then(|v| if at == full.log.len() { Ok(v) } else { Err("trailing output".into()) });
        w.check(t(11), "serialised form", v.and_then(|v| check(&v, &w.m.borrow(), id)));
        if w.cfg.sinks > 0 && !w.stopped() {
            for _ in 0..4 {
                let n = r.below(full.log.len() + 1);
                let mut rec = Rec::new(n);
                let Some(res) = w.must("serialising", || run(&mut rec)) else { break };
                if full.log[..rec.log.len().min(full.log.len())] != rec.log[..] {
                    w.bad(t(11), "what a failing serialiser got is not a prefix of the whole output");
                }
                if rec.late > 0 {
                    w.bad(t(11), format!("serialiser is called after it failed ({} times)", rec.late));
                }
                if rec.failed {
                    w.stat("fault.serialiser");
                    w.hit();
                    if res != Err(Failed(77)) {
                        w.bad(t(11), format!("error of the serialiser is lost: {res:?}"));
                    }
                } else if res.is_err() || rec.log != full.log {
                    w.bad(t(11), "serialising stops although the sink does not fail");
                }
                if w.stopped() {
                    break;
                }
            }
            let mut again = Rec::new(usize::MAX);
            let res = w.must("serialising", || run(&mut again));
            if again.log != full.log || res.is_some_and(|r| r.is_err()) {
                w.bad(t(11), "serialising again gives something else");
            }
        }
        w.trace(op, full.log.len() as u64);
    }
    if w.stopped() {
        std::mem::forget(el);
    } else {
        w.release(Slot::El(el, id));
        if w.cfg.sinks > 0 {
            w.audit(1);
        }
    }
}
