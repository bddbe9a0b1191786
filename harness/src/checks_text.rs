//! How documents are laid out and carried does not matter.

use std::{
    io::{self, Write},
    sync::Arc,
};

use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::Value;
use wot_td::{hlist::Nil, thing::Thing};

use crate::{
    alpha::*,
    checks_build::*,
    checks_json::{ext_corpus, g_odd_strings, g_rich, ASSUME},
    drive::guard,
    dump,
    engine::{digest, Check, Res, Seen, Space},
    ext::AB,
    gen::*,
    json::{text, write, Style},
    judge::*,
    model::{interpret, with_ext, MThing},
    prog::*,
};

/// A document and what it says.
struct Doc {
    json: Value,
    says: MThing,
    ext: bool,
}

fn doc(p: &Prog, style: Style) -> Option<Doc> {
    let o = interpret(p);
    o.viols.is_empty().then(|| Doc { json: write(&o.thing, style), says: o.thing, ext: false })
}

fn doc_ext(p: &Prog, style: Style) -> Option<Doc> {
    with_ext(true, || doc(p, style)).map(|d| Doc { ext: true, ..d })
}

fn styles() -> Vec<Style> {
    Style::all().collect()
}

/// Documents with every member, in two styles, with and without extensions.
fn docs() -> Vec<Doc> {
    let mut v = vec![];
    let st = styles();
    for (i, o) in rich_ops().into_iter().enumerate() {
        let mut ops = rich_base();
        ops.push(o);
        v.extend(doc(&post(ops), st[i % st.len()]));
    }
    let g = g_rich(1);
    for i in 0..g.len {
        let p = extify(&g.get(i), &mut Payload::new(i as u8, [1, 3, 5, 7][i as usize % 4], i as usize));
        v.extend(doc_ext(&p, st[(i as usize + 1) % st.len()]));
    }
    v.extend(doc(&rich_all(), st[0]));
    v.extend(doc(&rich_all(), *st.last().unwrap()));
    v
}

// ---------------------------------------------------------------------------------------------
// Layout

/// Layout of a text.
#[derive(Clone, Copy)]
struct Layout {
    escape_values: bool,
    escape_names: bool,
    /// 0 none, otherwise around every token
    space: u8,
}

fn string(s: &str, escape: bool, out: &mut String) {
    if !escape {
        out.push_str(&Value::from(s).to_string());
        return;
    }
    out.push('"');
    for (i, u) in s.encode_utf16().enumerate() {
        out.push_str(&if i % 2 == 0 { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") });
    }
    out.push('"');
}

/// `order` applies to the object at `path`, all others being sorted.
fn lay(v: &Value, l: Layout, path: Option<&[usize]>, order: &[usize], out: &mut String) {
    let blank = |out: &mut String| out.push_str(["", " ", "\n\t", " \r\n"][l.space as usize]);
    let inner = |i: usize| match path {
        Some([first, rest @ ..]) if *first == i => Some(rest),
        _ => None,
    };
    blank(out);
    match v {
        Value::Array(a) => {
            out.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                lay(v, l, inner(i), order, out);
            }
            blank(out);
            out.push(']');
        }
        Value::Object(o) => {
            let keys: Vec<&String> = o.keys().collect();
            out.push('{');
            for n in 0..keys.len() {
                let i = if path == Some(&[]) { order[n] } else { n };
                if n > 0 {
                    out.push(',');
                }
                blank(out);
                string(keys[i], l.escape_names, out);
                blank(out);
                out.push(':');
                lay(&o[keys[i]], l, inner(i), order, out);
            }
            blank(out);
            out.push('}');
        }
        Value::String(s) => string(s, l.escape_values, out),
        v => out.push_str(&v.to_string()),
    }
    blank(out);
}

/// The objects of at least two members in `v`, and how many they have.
fn objects(v: &Value, at: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, usize)>) {
    let each: Vec<&Value> = match v {
        Value::Array(a) => a.iter().collect(),
        Value::Object(o) => {
            if o.len() > 1 {
                out.push((at.clone(), o.len()));
            }
            o.values().collect()
        }
        _ => vec![],
    };
    for (i, v) in each.into_iter().enumerate() {
        at.push(i);
        objects(v, at, out);
        at.pop();
    }
}

/// All permutations if there are few; otherwise all rotations, all of their reversals, and every
/// member moved to every place.
fn orders(n: usize, all: usize) -> Vec<Vec<usize>> {
    if n <= all {
        let g = perms((0..n).collect::<Vec<_>>());
        return (0..g.len).map(|i| g.get(i)).collect();
    }
    let mut v = vec![];
    for i in 0..n {
        let mut o: Vec<usize> = (0..n).collect();
        o.rotate_left(i);
        v.push(o.clone());
        o.reverse();
        v.push(o);
        for j in 0..n {
            let mut o: Vec<usize> = (0..n).collect();
            let x = o.remove(i);
            o.insert(j, x);
            v.push(o);
        }
    }
    v
}

#[derive(Serialize)]
struct Order {
    doc: usize,
    path: Vec<usize>,
    order: Vec<usize>,
}

fn g_orders(docs: &Arc<Vec<Doc>>, all: usize, keep: impl Fn(&Value) -> bool) -> Gen<Order> {
    let mut v = vec![];
    for (i, d) in docs.iter().enumerate() {
        let mut o = vec![];
        objects(&d.json, &mut vec![], &mut o);
        for (path, n) in o {
            let mut at = &d.json;
            for i in &path {
                at = match at {
                    Value::Array(a) => &a[*i],
                    Value::Object(o) => o.values().nth(*i).unwrap(),
                    _ => unreachable!(),
                };
            }
            if keep(at) {
                v.push((i, path, n));
            }
        }
    }
    let mut sizes: Vec<(usize, Arc<Vec<Vec<usize>>>)> = vec![];
    for (_, _, n) in &v {
        if !sizes.iter().any(|s| s.0 == *n) {
            sizes.push((*n, Arc::new(orders(*n, all))));
        }
    }
    of(v).sum(move |(doc, path, n)| {
        let o = sizes.iter().find(|s| s.0 == n).unwrap().1.clone();
        Gen::new(o.len() as u64, move |i| Order { doc, path: path.clone(), order: o[i as usize].clone() })
    })
}

const PLAIN: Layout = Layout { escape_values: false, escape_names: false, space: 0 };

fn order(docs: &[Doc], o: &Order) -> Res {
    let d = &docs[o.doc];
    let mut s = String::new();
    lay(&d.json, PLAIN, Some(&o.path), &o.order, &mut s);
    let go = || {
        let r = if d.ext { from_text::<Thing<AB>>(&s).map(|t| dump::thing(&t)) } else { from_text::<Thing<Nil>>(&s).map(|t| dump::thing(&t)) };
        match r {
            Ok(t) => same("the order of the members matters", &t, &d.says),
            Err(e) => bad(format!("rejected with its members in another order: {e}: {s}")),
        }
    };
    if d.ext {
        with_ext(true, go)?
    } else {
        go()?
    }
    Ok(Seen { state: digest(&d.says), steps: 1 })
}

// ---------------------------------------------------------------------------------------------
// Carriers

/// Delivers pieces of at most `piece` bytes, interrupted now and then; fails at `end`, if any.
struct Source<'a> {
    left: &'a [u8],
    piece: usize,
    end: Option<usize>,
    reads: usize,
}

impl io::Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.reads % 5 == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = self.piece.min(self.left.len()).min(buf.len());
        let n = match self.end {
            Some(0) => return Err(io::Error::new(io::ErrorKind::Other, "broken")),
            Some(e) => n.min(e),
            None => n,
        };
        self.end = self.end.map(|e| e - n);
        buf[..n].copy_from_slice(&self.left[..n]);
        self.left = &self.left[n..];
        Ok(n)
    }
}

/// Takes at most `piece` bytes at a time; fails once it has `room` bytes, if limited.
struct Sink {
    got: Vec<u8>,
    piece: usize,
    room: Option<usize>,
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut n = buf.len().min(self.piece);
        if let Some(r) = self.room {
            if self.got.len() >= r {
                return Err(io::Error::new(io::ErrorKind::Other, "full"));
            }
            n = n.min(r - self.got.len());
        }
        self.got.extend(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

type Reading<T> = (&'static str, Result<T, String>);

/// What is read from the carriers chosen.
fn readings<T: DeserializeOwned>(text: &str, v: Option<&Value>, chosen: impl Fn(usize) -> bool) -> Vec<Reading<T>> {
    let mut out = vec![];
    let stream = |piece| Source { left: text.as_bytes(), piece, end: None, reads: 0 };
    for n in 0..if v.is_some() { 9 } else { 7 } {
        if !chosen(n) {
            continue;
        }
        let r = guard(|| match n {
            0 => serde_json::from_str(text),
            1 => serde_json::from_reader(stream(1)),
            2 => serde_json::from_slice(text.as_bytes()),
            3 => serde_json::from_reader(text.as_bytes()),
            4 => {
                let twice = format!("{text}\n{text}");
                let mut i = serde_json::Deserializer::from_str(&twice).into_iter::<T>();
                i.next().unwrap()?;
                let r = i.next().unwrap()?;
                assert!(i.next().is_none());
                Ok(r)
            }
            5 => serde_json::from_reader(stream(3)),
            6 => serde_json::from_reader(stream(64)),
            7 => T::deserialize(v.unwrap()),
            _ => serde_json::from_value(v.unwrap().clone()),
        });
        let how = ["a string", "a stream", "bytes", "a stream", "one of several texts", "a stream", "a stream", "a borrowed value", "a value"][n];
        out.push((how, match r {
            Ok(r) => r.map_err(|e| e.to_string()),
            Err(m) => Err(format!("PANIC {m}")),
        }));
    }
    out
}

fn carried_in<O: Mode>(d: &Doc, every: bool) -> Res
where
    Thing<O>: Serialize + DeserializeOwned + PartialEq,
{
    let mut steps = 0;
    for i in [0, 3, 1, 2, 4, 5, 6, 7u8] {
        if i > if every { 7 } else { 3 } {
            break;
        }
        let l = Layout { escape_values: i & 1 != 0, escape_names: i & 2 != 0, space: i % 4 };
        let mut s = String::new();
        lay(&d.json, l, None, &[], &mut s);
        // All carriers for the plain text, some for the others.
        let chosen = |n| every || i == 0 || n == i as usize % 3;
        for (how, r) in readings::<Thing<O>>(&s, (i == 0).then_some(&d.json), chosen) {
            steps += 1;
            match r {
                Ok(t) => same(&format!("read from {how}, it is another Thing"), &dump::thing(&t), &d.says)?,
                Err(e) => return bad(format!("rejected when read from {how}: {e}: {s}")),
            }
        }
    }
    Ok(Seen { state: digest(&d.says), steps })
}

fn carried_out<O: Mode>(p: &Prog) -> Res
where
    Thing<O>: Serialize + DeserializeOwned + PartialEq,
{
    let Some(t) = built::<O>(p) else { return skipped() };
    let v = to_value(&t)?;
    let text = match guard(|| serde_json::to_string(&t)) {
        Ok(Ok(s)) => s,
        r => return bad(format!("cannot be written as text: {r:?}")),
    };
    let reread = |how: &str, s: &[u8]| -> Result<(), crate::engine::Bad> {
        match serde_json::from_slice::<Value>(s) {
            Ok(x) if x == v => Ok(()),
            Ok(x) => bad(format!("{how} and the value differ: {}", diff(&x, &v))),
            Err(e) => bad(format!("{how} is not JSON: {e}")),
        }
    };
    reread("the text", text.as_bytes())?;
    match guard(|| serde_json::to_string_pretty(&t)) {
        Ok(Ok(s)) => reread("the indented text", s.as_bytes())?,
        r => return bad(format!("cannot be written as indented text: {r:?}")),
    }
    match guard(|| serde_json::to_vec(&t)) {
        Ok(Ok(s)) => reread("the bytes", &s)?,
        r => return bad(format!("cannot be written as bytes: {r:?}")),
    }
    for piece in [1, 2, 100] {
        let mut k = Sink { got: vec![], piece, room: None };
        match guard(|| serde_json::to_writer(&mut k, &t)) {
            Ok(Ok(())) => reread("the stream", &k.got)?,
            r => return bad(format!("cannot be written to a stream: {r:?}")),
        }
    }
    Ok(Seen { state: digest(&v), steps: p.calls() + 7 })
}

/// A document cut off, or from / to a stream that breaks, after `at` bytes.
#[derive(Serialize)]
struct Cut {
    doc: usize,
    at: usize,
}

fn texts(docs: &[Doc]) -> Vec<String> {
    docs.iter().enumerate().map(|(i, d)| text(&d.json, i as u32 % 3)).collect()
}

fn cut_in<O: Mode>(d: &Doc, text: &str, at: usize) -> Res
where
    Thing<O>: Serialize + DeserializeOwned + PartialEq,
{
    let b = &text.as_bytes()[..at];
    let s = |r: Result<Result<Thing<O>, serde_json::Error>, S>, what: &str| match r {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(_)) => bad(format!("{what} is taken for a whole one: {}", String::from_utf8_lossy(b))),
        Err(m) => bad(format!("{what} makes the crate panic: {m}: {}", String::from_utf8_lossy(b))),
    };
    s(guard(|| serde_json::from_slice(b)), "a document cut off")?;
    s(
        guard(|| serde_json::from_reader(Source { left: text.as_bytes(), piece: 7, end: Some(at), reads: 0 })),
        "a document of which the reading fails",
    )?;
    let mut junk = b.to_vec();
    junk.extend(b"\xff");
    s(guard(|| serde_json::from_slice(&junk)), "a document cut off with something following")?;
    Ok(Seen { state: digest(&d.says), steps: 3 })
}

fn cut_out<O: Mode>(p: &Prog) -> Res
where
    Thing<O>: Serialize + DeserializeOwned + PartialEq,
{
    let Some(t) = built::<O>(p) else { return skipped() };
    let text = serde_json::to_string(&t).map_err(|e| crate::engine::Bad::new(e.to_string()))?;
    for room in 0..text.len() {
        let mut k = Sink { got: vec![], piece: 1 + room % 9, room: Some(room) };
        match guard(|| serde_json::to_writer(&mut k, &t)) {
            Ok(Err(_)) => {}
            Ok(Ok(())) => return bad(format!("a document is said to be written that broke off after {room} bytes")),
            Err(m) => return bad(format!("a failing stream makes the crate panic: {m}")),
        }
        if k.got != text.as_bytes()[..room] {
            return bad(format!("not the start of the text comes before the failure at {room}"));
        }
    }
    Ok(Seen { state: digest(&text), steps: text.len() as u64 })
}

pub fn j06(th: bool) -> Check {
    let d = Arc::new(docs());
    let all = if th { 8 } else { 6 };
    let mut spaces = vec![];
    {
        let d = d.clone();
        let g = g_orders(&d, all, |_| true);
        spaces.push(Space::new("orders of members", g, move |o: &Order| order(&d, o)));
    }
    {
        let d = d.clone();
        spaces.push(Space::new("carried in, documents with everything", range(d.len() as u64), move |i: &u64| {
            let d = &d[*i as usize];
            if d.ext { with_ext(true, || carried_in::<AB>(d, true)) } else { carried_in::<Nil>(d, true) }
        }));
    }
    let read = move |p: &Prog| match doc(p, styles()[p.calls() as usize % 2]) {
        Some(d) => carried_in::<Nil>(&d, th),
        None => skipped(),
    };
    let corpus = |x: u32| {
        g_rich(x)
            .or(&g_form_setters(x))
            .or(&g_affordance_setters(x))
            .or(&g_sec_setters(false))
            .or(&at_sites(&g_schema_setters(0, x, 1), &[0, 3]))
            .or(&at_sites(&g_schema_nesting(x), &OPEN_SITES))
            .or(&g_link_setters(x + 1))
            .or(&g_meta(x))
    };
    let x = if th { 2 } else { 1 };
    spaces.push(Space::new("carried in", corpus(x), read));
    spaces.push(Space::new("carried in, odd strings", g_odd_strings(), read));
    spaces.push(Space::new("carried out", corpus(x), carried_out::<Nil>));
    spaces.push(Space::new("carried out, odd strings", g_odd_strings(), carried_out::<Nil>));
    spaces.push(Space::new("carried in and out, extended things", ext_corpus(false), move |p: &Prog| {
        with_ext(true, || {
            let a = carried_out::<AB>(p)?;
            match doc_ext(p, styles()[p.calls() as usize % 2]) {
                Some(d) => carried_in::<AB>(&d, th).map(|b| Seen { state: b.state, steps: a.steps + b.steps }),
                None => Ok(a),
            }
        })
    }));
    {
        let d = d.clone();
        let t = texts(&d);
        let lens: Vec<(usize, usize)> = t.iter().map(String::len).enumerate().collect();
        let g = of(lens).sum(|(doc, n)| range(n as u64).map(move |at| Cut { doc, at: at as usize }));
        spaces.push(Space::new("cut off at every byte", g, move |c: &Cut| {
            let d = &d[c.doc];
            if d.ext { with_ext(true, || cut_in::<AB>(d, &t[c.doc], c.at)) } else { cut_in::<Nil>(d, &t[c.doc], c.at) }
        }));
    }
    spaces.push(Space::new("writing fails at every byte", g_rich(1).or(&one_with(rich_all)), cut_out::<Nil>));
    spaces.push(Space::new(
        "writing fails at every byte, extended things",
        g_rich(1).map(|p| extify(&p, &mut Payload::new(3, 5, 1))),
        |p: &Prog| with_ext(true, || cut_out::<AB>(p)),
    ));
    Check {
        id: "J06",
        spaces,
        assumptions: ASSUME.to_vec(),
        bounds: "documents with every member, plain and extended: all permutations of the members of every object of up to 6 (thorough 8) members, all rotations, reversals and single moves of larger ones; 4 kinds of white space, escapes in names and values, 9 carriers; every truncation; a failure after every byte read or written",
    }
}
