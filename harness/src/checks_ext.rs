//! Checks of the extension system and of heterogeneous lists.

use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use wot_td::{
    extend::{Extend, Extendable, ExtendableThing},
    hlist::{Cons, HListMut, HListRef, Nil, NonEmptyHList},
    thing::Thing,
};

use crate::{
    alpha::*,
    atoms::g_member_pairs_once,
    checks_build::{action_alphabet, base_ops, event_alphabet, form_alphabet, meta_alphabet, property_alphabet},
    checks_json::{corpus, ext_corpus},
    drive::guard,
    dump::{self, Dumpable},
    engine::{digest, Bad, Check, Res, Seen, Space},
    ext::*,
    gen::*,
    json::{read, text, write, Read, Style},
    judge::*,
    model::{interpret, with_ext, MThing},
    prog::*,
};

// ---------------------------------------------------------------------------------------------
// E01

fn model(p: &Prog) -> Option<MThing> {
    let o = with_ext(true, || interpret(p));
    o.viols.is_empty().then_some(o.thing)
}

fn documents(p: &Prog) -> Res {
    let Some(t) = model(p) else { return skipped() };
    let mut steps = 0;
    for (i, st) in Style::all().enumerate() {
        let doc = write(&t, st);
        let texts: Vec<String> = [0, 1, 2 + i as u32].iter().map(|o| text(&doc, *o)).collect();
        steps += preserves::<AB>(&doc, &texts, &t)?.steps;
    }
    Ok(Seen { state: digest(&t), steps })
}

/// `v` without the members whose name starts with one of `prefixes`.
fn strip(v: &Value, prefixes: &[&str]) -> Value {
    match v {
        Value::Object(o) => Value::Object(
            o.iter()
                .filter(|(k, _)| !prefixes.iter().any(|p| k.starts_with(p)))
                .map(|(k, v)| (k.clone(), strip(v, prefixes)))
                .collect(),
        ),
        Value::Array(a) => a.iter().map(|v| strip(v, prefixes)).collect(),
        v => v.clone(),
    }
}

fn through<O: Dumpable>(v: &Value) -> Result<Value, Bad>
where
    Thing<O>: Serialize + for<'a> Deserialize<'a>,
{
    let t = match from_value::<Thing<O>>(v.clone()) {
        Ok(t) => t,
        Err(e) => return bad(format!("a document with other extensions is rejected: {e}: {v}")),
    };
    let u = match from_text::<Thing<O>>(&v.to_string()) {
        Ok(t) => t,
        Err(e) => return bad(format!("a document text with other extensions is rejected: {e}: {v}")),
    };
    same("the text and the value are parsed differently", &dump::thing(&u), &dump::thing(&t))?;
    to_value(&t)
}

/// A document with both extensions, read through other stacks of extensions.
fn other_stacks(p: &Prog) -> Res {
    let Some(t) = model(p) else { return skipped() };
    let style = Style { scalar: false, defaults: false, ints: false, extra: false };
    let doc = write(&t, style);
    let v = through::<AB>(&doc)?;
    let check = |what: &str, got: Value, without: &[&str]| {
        let want = strip(&v, without);
        if got == want {
            Ok(())
        } else {
            bad(format!("{what}: {}", diff(&got, &want)))
        }
    };
    check("the order of the extensions matters", through::<Cons<At, Cons<Bt, Nil>>>(&v)?, &[])?;
    check("the nesting of the extensions matters", through::<Cons<Cons<At, Nil>, Cons<Bt, Nil>>>(&v)?, &[])?;
    check("two extensions without a list", through::<Cons<At, Bt>>(&v)?, &[])?;
    check("a stack of one extension", through::<Cons<At, Nil>>(&v)?, &["B:"])?;
    check("a single extension", through::<At>(&v)?, &["B:"])?;
    check("the other extension", through::<Bt>(&v)?, &["A:"])?;
    check("no extension", through::<Nil>(&v)?, &["A:", "B:"])?;
    // Without extensions, the information of the vocabulary is all there.
    let nil = match from_value::<Thing<Nil>>(doc.clone()) {
        Ok(t) => t,
        Err(e) => return bad(format!("a document with extensions is rejected: {e}")),
    };
    match read(&doc, Read { ext: false, unknown: true }) {
        Ok(r) => same("extension members change what is parsed", &dump::thing(&nil), &r)?,
        Err(e) => return bad(format!("reader: {e}")),
    }
    Ok(Seen { state: digest(&v), steps: 18 })
}

/// A document without extension members, read with extensions.
fn base_documents(p: &Prog) -> Res {
    let o = interpret(p);
    if !o.viols.is_empty() {
        return skipped();
    }
    let doc = write(&o.thing, Style { scalar: true, defaults: false, ints: true, extra: false });
    let want = match read(&doc, Read { ext: true, unknown: false }) {
        Ok(t) => t,
        Err(e) => return bad(format!("reader: {e}")),
    };
    preserves::<AB>(&doc, &[text(&doc, 1)], &want)
}

macro_rules! mandatory {
    ($($name:ident $n:literal),*) => {$(
        #[derive(Serialize, Deserialize, Default)]
        pub struct $name {
            #[serde(rename = $n)]
            pub n: u8,
        }
        impl ExtDump for $name {
            fn dump(&self) -> crate::model::Ext {
                vec![json!(self.n)]
            }
        }
    )*};
}

mandatory!(
    Mt "A:tn", Mi "A:in", Mp "A:pn", Ma "A:an", Me "A:en", Mf "A:fn", Mr "A:rn", Md "A:dn", Mo "A:on", My "A:yn"
);

impl ExtendableThing for Mt {
    type InteractionAffordance = Mi;
    type PropertyAffordance = Mp;
    type ActionAffordance = Ma;
    type EventAffordance = Me;
    type Form = Mf;
    type ExpectedResponse = Mr;
    type DataSchema = Md;
    type ObjectSchema = Mo;
    type ArraySchema = My;
}

fn members(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    let each = |k: String, v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>| {
        at.push(k.clone());
        if k.starts_with("A:") {
            out.push(at.clone());
        }
        members(v, at, out);
        at.pop();
    };
    match v {
        Value::Object(o) => o.iter().for_each(|(k, v)| each(k.clone(), v, at, out)),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, v)| each(i.to_string(), v, at, out)),
        _ => {}
    }
}

fn change(v: &mut Value, path: &[String], to: Option<Value>) {
    let (last, parent) = path.split_last().unwrap();
    let o = parent.iter().fold(v, |v, k| match v {
        Value::Object(o) => o.get_mut(k).unwrap(),
        Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
        _ => unreachable!(),
    });
    let o = o.as_object_mut().unwrap();
    match to {
        None => {
            o.remove(last);
        }
        Some(x) => {
            o.insert(last.clone(), x);
        }
    }
}

/// Extension members that are missing though mandatory, or of the wrong type.
fn faulty(p: &Prog) -> Res {
    let Some(t) = model(p) else { return skipped() };
    if format!("{p:?}").contains("ResponseDefault") {
        // Its extensions have no members at all.
        return skipped();
    }
    let doc = write(&t, Style { scalar: false, defaults: false, ints: false, extra: false });
    let reject = |r: Result<(), String>, path: &[String], what: &str| match r {
        Err(e) if e.starts_with("PANIC") => bad(format!("parsing panicked: {e}")),
        Err(_) => Ok(()),
        Ok(()) => bad(format!("a document is accepted though the extension member {path:?} is {what}")),
    };
    let whole = from_value::<Thing<Mt>>(doc.clone());
    if let Err(e) = &whole {
        return bad(format!("a document with all mandatory extension members is rejected: {e}: {doc}"));
    }
    let nil = dump::thing(&from_value::<Thing<Nil>>(doc.clone()).map_err(Bad::new)?);
    let mut all = vec![];
    members(&doc, &mut vec![], &mut all);
    let mut steps = 1;
    for path in all {
        let key = path.last().unwrap().clone();
        // Ill-formed array and object schemas are ignored instead.
        if key.starts_with("A:o") || key.starts_with("A:y") {
            continue;
        }
        if path.iter().any(|k| ["items", "properties"].contains(&k.as_str()) && path.len() > 4) {
            // Also those nested in array and object schemas.
            continue;
        }
        if key.ends_with('n') {
            let mut d = doc.clone();
            change(&mut d, &path, None);
            reject(from_value::<Thing<Mt>>(d.clone()).map(|_| ()), &path, "missing")?;
            reject(from_text::<Thing<Mt>>(&d.to_string()).map(|_| ()), &path, "missing")?;
            steps += 2;
        }
        for wrong in [json!({}), json!([["x"]]), json!(-300)] {
            let mut d = doc.clone();
            change(&mut d, &path, Some(wrong.clone()));
            reject(from_value::<Thing<AB>>(d.clone()).map(|_| ()), &path, "of the wrong type")?;
            let n = dump::thing(&from_value::<Thing<Nil>>(d).map_err(Bad::new)?);
            same("a member of no extension in use matters", &n, &nil)?;
            steps += 2;
        }
    }
    Ok(Seen { state: digest(&doc), steps })
}

/// Payloads that have every member of every extension.
fn full_corpus(th: bool) -> Gen<Prog> {
    crate::checks_json::g_rich(if th { 2 } else { 1 })
        .or(&one_with(rich_all))
        .or(&crate::checks_build::g_affordance_setters(1))
        .or(&crate::checks_build::g_form_setters(1))
        .map(|p| extify(&p, &mut Payload::new(7, 8, p.calls() as usize)))
}

/// All sequences of `n` setters of a declaration made by `f`, extended in the order number `order`,
/// with its extension steps (`is_mark`, `marks` of them) at all positions between the setters.
fn spots<T: Clone + Send + Sync + 'static>(
    alphabet: Vec<T>,
    n: u32,
    marks: usize,
    orders: u64,
    make: impl Fn(Vec<T>) -> Prog + Send + Sync + 'static,
    remake: impl Fn(TOp, &[bool]) -> TOp + Send + Sync + 'static,
) -> Gen<Prog> {
    let (make, remake) = (std::sync::Arc::new(make), std::sync::Arc::new(remake));
    let mut g: Option<Gen<Prog>> = None;
    for len in 0..=n {
        let ways = merges(marks, len as usize);
        let (make, remake) = (make.clone(), remake.clone());
        let h = of(alphabet.clone()).exact(len).x(&range(orders)).x(&range(ways.len() as u64)).map(move |((v, o), w)| {
            let p = extify(&make(v), &mut Payload::new((o * 7 + w) as u8 % 16, [1, 3, 5, 7][(w % 4) as usize], o as usize));
            Prog {
                title: p.title,
                ops: p.ops.into_iter().map(|t| remake(t, &ways[w as usize])).collect(),
            }
        });
        g = Some(match g {
            None => h,
            Some(g) => g.or(&h),
        });
    }
    g.unwrap()
}

/// The extension steps of every kind of declaration at every position among its other steps.
fn g_spots(n: u32) -> Gen<Prog> {
    let action = spots(action_alphabet(), n, 4, 3, |v| post(vec![TOp::Action(st("x"), v)]), |t, w| match t {
        TOp::Action(n, v) => TOp::Action(n, merge(v, |o| matches!(o, AOp::ExtI(_) | AOp::Ext(_)), w)),
        t => t,
    });
    let event = spots(event_alphabet(), n, 4, 3, |v| post(vec![TOp::Event(st("x"), v)]), |t, w| match t {
        TOp::Event(n, v) => TOp::Event(n, merge(v, |o| matches!(o, EOp::ExtI(_) | EOp::Ext(_)), w)),
        t => t,
    });
    let kind = |v: &mut Vec<SOp>| v.extend([SOp::Finish, SOp::Kind(Kind::Integer)]);
    // The schema's own members need the end of its extension.
    let legal = |v: Vec<SOp>| {
        let cut = v.iter().position(|o| *o == SOp::Finish).unwrap();
        let own = |o: &SOp| matches!(o, SOp::Unit(_) | SOp::Format(_) | SOp::Default(_));
        let mut out: Vec<SOp> = v[..=cut].iter().filter(|o| !own(o)).cloned().collect();
        out.extend(v[..cut].iter().filter(|o| own(o)).cloned());
        out.extend(v[cut + 1..].iter().cloned());
        out
    };
    let is_p = |o: &SOp| matches!(o, SOp::ExtI(_) | SOp::ExtP(_) | SOp::Ext(_) | SOp::Finish | SOp::Kind(_));
    let property = spots(
        property_alphabet(),
        n,
        8,
        5,
        move |mut v| {
            kind(&mut v);
            post(vec![TOp::Property(st("x"), v)])
        },
        move |t, w| match t {
            TOp::Property(n, v) => TOp::Property(n, legal(merge(v, is_p, w))),
            t => t,
        },
    );
    let schema = spots(
        base_ops(),
        n,
        4,
        1,
        move |mut v| {
            kind(&mut v);
            post(vec![TOp::SchemaDef(st("x"), v)])
        },
        move |t, w| match t {
            TOp::SchemaDef(n, v) => TOp::SchemaDef(n, merge(v, is_p, w)),
            t => t,
        },
    );
    let is_f = |o: &FOp| matches!(o, FOp::Href(_) | FOp::Ext(_));
    let mut g = action.or(&event).or(&property).or(&schema);
    for site in 0..4 {
        let form = spots(
            form_alphabet(),
            n,
            3,
            3,
            move |mut v| {
                v.push(FOp::Href(st("h")));
                post(vec![
                    basic("a"),
                    TOp::SchemaDef(st("d"), k(Kind::Bool)),
                    basic("b"),
                    form1(site, v),
                ])
            },
            move |t, w| {
                let op = FOp::Op(legal_op(site));
                let f = |f: Vec<FOp>| {
                    let mut f = merge(f, is_f, w);
                    f.push(op.clone());
                    f
                };
                match t {
                    TOp::Form(v) => TOp::Form(f(v)),
                    TOp::Property(n, v) => {
                        TOp::Property(n, v.into_iter().map(|o| if let SOp::Form(v) = o { SOp::Form(f(v)) } else { o }).collect())
                    }
                    TOp::Action(n, v) => {
                        TOp::Action(n, v.into_iter().map(|o| if let AOp::Form(v) = o { AOp::Form(f(v)) } else { o }).collect())
                    }
                    TOp::Event(n, v) => {
                        TOp::Event(n, v.into_iter().map(|o| if let EOp::Form(v) = o { EOp::Form(f(v)) } else { o }).collect())
                    }
                    t => t,
                }
            },
        );
        g = g.or(&form);
    }
    // The Thing itself
    let mut early = meta_alphabet();
    early.extend([
        TOp::Link(st("l")),
        TOp::LinkWith(vec![LOp::Href(st("h")), LOp::Rel(st("icon")), LOp::Sizes(st("1x1"))]),
        basic("a"),
        TOp::Security(vec![SecOp::Scheme(Scheme::NoSec), SecOp::Required]),
    ]);
    let is_t = |o: &TOp| matches!(o, TOp::Ext(_) | TOp::Finish);
    for len in 0..=n {
        let ways = merges(3, len as usize);
        g = g.or(&of(early.clone()).exact(len).x(&range(ways.len() as u64)).map(move |(mut v, w)| {
            v.push(TOp::Finish);
            let p = extify(&prog(v), &mut Payload::new(w as u8 % 16, 5, 0));
            Prog {
                title: p.title,
                ops: merge(p.ops, is_t, &ways[w as usize]),
            }
        }));
    }
    g
}

pub fn e01(th: bool) -> Check {
    let g = ext_corpus(th);
    let mut spaces = vec![
        Space::new("building", g.clone(), build_ext),
        Space::new("extension steps at all positions", g_spots(if th { 3 } else { 2 }), build_ext),
        Space::new("writing and reading", g.clone(), |p: &Prog| with_ext(true, || round_trip::<AB>(p))),
        Space::new("vocabulary", g.clone(), |p: &Prog| match with_ext(true, || vocabulary::<AB>(p)) {
            // A finding about another property (J02).
            Err(b) if b.finding == Some("event-data-response-name") => skipped(),
            r => r,
        }),
        Space::new("documents", g.clone(), documents),
        Space::new("other stacks", g.clone(), other_stacks),
        Space::new("mandatory and typed members", full_corpus(th), faulty),
    ];
    let pairs = g_member_pairs_once().x(&range(if th { 8 } else { 1 })).map(|(p, o)| {
        let order = o as usize + p.calls() as usize + p.ops.len();
        extify(&p, &mut Payload::new(3, 5, order))
    });
    spaces.push(Space::new("two members anywhere, building", pairs.clone(), build_ext));
    spaces.push(Space::new("two members anywhere, writing and reading", pairs.clone(), |p: &Prog| {
        with_ext(true, || round_trip::<AB>(p))
    }));
    spaces.push(Space::new("two members anywhere, documents", pairs, documents));
    for (n, g) in corpus(false) {
        if ["security schemes", "mixed declarations", "everything", "affordances", "schema nesting", "links"].contains(&n)
        {
            spaces.push(Space::new(&format!("without extension members: {n}"), g, base_documents));
        }
    }
    Check {
        id: "E01",
        spaces,
        assumptions: vec![
            "serde_json and serde themselves are trusted",
            "the extensions examined have a number, a string and a list at each of the ten extension points",
            "array and object schemas with ill-formed extension members are ignored as a whole",
        ],
        bounds: "two extensions at all ten extension points, 16 payloads, every order the builders allow, over setter sequences <= 1 (2), nesting <= 1 (2), combinations of <= 1 (2) rich declarations; 8 stacks of extensions; every extension member deleted and replaced",
    }
}

// ---------------------------------------------------------------------------------------------
// E02

macro_rules! elems {
    ($($E:ident $n:literal $i:literal),*) => {$(
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
        pub struct $E {
            #[serde(rename = $n)]
            v: u8,
        }
        impl Elem for $E {
            fn look(&self) -> (u8, u8, usize) {
                ($i, self.v, self as *const _ as usize)
            }
            fn bump(&mut self) {
                self.v = self.v.wrapping_mul(7).wrapping_add($i + 1);
            }
        }
    )*};
}

trait Elem {
    /// Which element it is, its value, where it is.
    fn look(&self) -> (u8, u8, usize);
    fn bump(&mut self);
}

elems!(E0 "e0" 0, E1 "e1" 1, E2 "e2" 2, E3 "e3" 3, E4 "e4" 4, E5 "e5" 5, E6 "e6" 6);

impl<T: Elem> Elem for &T {
    fn look(&self) -> (u8, u8, usize) {
        (**self).look()
    }
    fn bump(&mut self) {
        unreachable!()
    }
}

impl<T: Elem> Elem for &mut T {
    fn look(&self) -> (u8, u8, usize) {
        (**self).look()
    }
    fn bump(&mut self) {
        (**self).bump()
    }
}

trait List {
    fn each(&self, out: &mut Vec<(u8, u8, usize)>);
    fn bump_all(&mut self);

    fn all(&self) -> Vec<(u8, u8)> {
        let mut v = vec![];
        self.each(&mut v);
        v.into_iter().map(|(i, x, _)| (i, x)).collect()
    }

    fn places(&self) -> Vec<usize> {
        let mut v = vec![];
        self.each(&mut v);
        v.into_iter().map(|e| e.2).collect()
    }
}

impl List for Nil {
    fn each(&self, _: &mut Vec<(u8, u8, usize)>) {}
    fn bump_all(&mut self) {}
}

impl<T: Elem, U: List> List for Cons<T, U> {
    fn each(&self, out: &mut Vec<(u8, u8, usize)>) {
        out.push(self.head.look());
        self.tail.each(out);
    }
    fn bump_all(&mut self) {
        self.head.bump();
        self.tail.bump_all();
    }
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), Bad> {
    if got == want {
        Ok(())
    } else {
        bad(format!("{what}: got {got:?}, expected {want:?}"))
    }
}

fn rev<T: Clone>(v: &[T]) -> Vec<T> {
    v.iter().rev().cloned().collect()
}

fn bumped(v: &[(u8, u8)]) -> Vec<(u8, u8)> {
    v.iter().map(|(i, x)| (*i, x.wrapping_mul(7).wrapping_add(i + 1))).collect()
}

fn default_like<T: Default>(_: &T) -> T {
    T::default()
}

fn value_like<T: for<'a> Deserialize<'a>>(_: &T, v: Value) -> Result<T, String> {
    from_value(v)
}

fn text_like<T: for<'a> Deserialize<'a>>(_: &T, s: &str) -> Result<T, String> {
    from_text(s)
}

/// `list` made of `added` (in the order they were added) behaves like a list.
macro_rules! laws {
    ($list:ident $added:ident) => {
    let want = rev(&$added);
    eq("elements", $list.all(), want.clone())?;
    let (last, init) = $list.clone().split_last();
    eq("split_last: last", { let l = last.look(); (l.0, l.1) }, *want.last().unwrap())?;
    eq("split_last: rest", init.all(), want[..want.len() - 1].to_vec())?;
    eq("reverse", $list.clone().reverse().all(), $added.to_vec())?;
    let back = $list.clone().reverse().reverse();
    eq("reverse twice", back.all(), want.clone())?;
    if back != $list {
        return bad("a list is not equal to its reversal reversed");
    }
    // References
    eq("to_ref", $list.to_ref().all(), want.clone())?;
    eq("to_ref refers to something else", $list.to_ref().places(), $list.places())?;
    eq("to_ref, reverse", $list.to_ref().reverse().places(), rev(&$list.places()))?;
    let (last, init) = $list.to_ref().split_last();
    eq("to_ref, split_last: last", last.look().2, *$list.places().last().unwrap())?;
    eq("to_ref, split_last: rest", init.places(), $list.places()[..want.len() - 1].to_vec())?;
    let mut m = $list.clone();
    let places = m.places();
    eq("to_mut", m.to_mut().all(), want.clone())?;
    eq("to_mut refers to something else", m.to_mut().places(), places.clone())?;
    m.to_mut().bump_all();
    eq("writing through to_mut", m.all(), bumped(&want))?;
    if (m == $list) != (bumped(&want) == want) {
        return bad("equality does not look at the elements");
    }
    m.to_mut().reverse().bump_all();
    eq("writing through to_mut, reverse", m.all(), bumped(&bumped(&want)))?;
    eq("a copy was changed with the original", $list.all(), want.clone())?;
    // Growing
    let six = || E6 { v: 9 };
    let mut longer = vec![(6, 9)];
    longer.extend(&want);
    eq("ext", $list.clone().ext(six()).all(), longer.clone())?;
    eq("ext_with", $list.clone().ext_with(six).all(), longer.clone())?;
    eq("the default list", default_like(&$list).all(), want.iter().map(|(i, _)| (*i, 0)).collect())?;
    // JSON
    let v = to_value(&$list)?;
    let o: Map<String, Value> = want.iter().map(|(i, x)| (format!("e{i}"), json!(x))).collect();
    eq("JSON", v.clone(), Value::Object(o))?;
    let text = serde_json::to_string(&$list).map_err(|e| Bad::new(e.to_string()))?;
    eq("JSON text", serde_json::from_str::<Value>(&text).ok(), Some(v.clone()))?;
    match value_like(&$list, v.clone()) {
        Ok(l) if l == $list => {}
        r => return bad(format!("reading its JSON: {r:?}")),
    }
    match text_like(&$list, &text) {
        Ok(l) if l == $list => {}
        r => return bad(format!("reading its JSON text: {r:?}")),
    }
    let mut more = v.clone();
    more["unknown"] = json!([1]);
    match value_like(&$list, more) {
        Ok(l) if l == $list => {}
        r => return bad(format!("reading its JSON with another member: {r:?}")),
    }
    for (i, _) in &want {
        let mut less = v.clone();
        less.as_object_mut().unwrap().remove(&format!("e{i}"));
        if value_like(&$list, less).is_ok() {
            return bad(format!("e{i} is missing and it is not noticed"));
        }
        let mut wrong = v.clone();
        wrong[&format!("e{i}")] = json!("x");
        if value_like(&$list, wrong).is_ok() {
            return bad(format!("e{i} is of the wrong type and it is not noticed"));
        }
    }
    };
}

macro_rules! chain {
    ($list:ident = $v:ident $F:ident $f:literal $(, $E:ident $i:literal)*) => {
        let $list = Nil::cons($F { v: $v[$f] })$(.cons($E { v: $v[$i] }))*;
    };
}

macro_rules! laws_of {
    ($v:ident $($E:ident $i:literal),*) => {{
        let added: Vec<(u8, u8)> = vec![$(($i, $v[$i])),*];
        chain!(list = $v $($E $i),*);
        laws!(list added);
        let other = Nil$(.ext($E { v: $v[$i] }))*;
        if other != list {
            return bad("ext and cons differ");
        }
        let other = Nil$(.ext_with(|| $E { v: $v[$i] }))*;
        if other != list {
            return bad("ext_with and cons differ");
        }
        let (head, tail) = list.clone().split_head();
        let n = added.len() - 1;
        eq("split_head: head", (head.look().0, head.look().1), added[n])?;
        eq("split_head: rest", tail.all(), rev(&added[..n]))?;
        let again = Cons { head, tail };
        if again != list {
            return bad("cons does not undo split_head");
        }
        fn empty<T: Extendable<Empty = Nil>>(_: &T) -> Nil {
            T::empty()
        }
        eq("the empty list", empty(&list), Nil)?;
        // Equality looks at every element.
        $(
            let mut o = list.clone();
            let mut f = |e: &mut $E| e.v ^= 1;
            find(&mut o, $i, &mut |e: &mut dyn std::any::Any| f(e.downcast_mut::<$E>().unwrap()));
            if o == list {
                return bad(format!("lists that differ in e{} are equal", $i));
            }
        )*
    }};
}

trait Find {
    fn nth(&mut self, i: u8) -> &mut dyn std::any::Any;
}

impl Find for Nil {
    fn nth(&mut self, _: u8) -> &mut dyn std::any::Any {
        unreachable!()
    }
}

impl<T: Elem + 'static, U: Find> Find for Cons<T, U> {
    fn nth(&mut self, i: u8) -> &mut dyn std::any::Any {
        if self.head.look().0 == i {
            &mut self.head
        } else {
            self.tail.nth(i)
        }
    }
}

fn find(l: &mut impl Find, i: u8, f: &mut dyn FnMut(&mut dyn std::any::Any)) {
    f(l.nth(i))
}

fn list(v: &Vec<u8>) -> Res {
    let r = guard(|| -> Result<(), Bad> {
        match v.len() {
            0 => {
                let nil: Nil = ().into();
                eq("unit", nil, Nil)?;
                let () = nil.into();
                eq("to_ref", (&nil).to_ref(), Nil)?;
                eq("to_mut", (&mut Nil).to_mut(), Nil)?;
                eq("default", Nil::default(), Nil)?;
                eq("empty", Nil::empty(), Nil)?;
                eq("JSON", to_value(&Nil)?, json!({}))?;
                for x in [json!({}), json!({"x": 1})] {
                    eq("reading", from_value::<Nil>(x), Ok(Nil))?;
                }
                eq("reading text", from_text::<Nil>("{\"a\": null}"), Ok(Nil))?;
                for x in [json!(1), json!("x"), json!(true)] {
                    if from_value::<Nil>(x.clone()).is_ok() {
                        return bad(format!("the empty list is read from {x}"));
                    }
                }
            }
            1 => laws_of!(v E0 0),
            2 => laws_of!(v E0 0, E1 1),
            3 => laws_of!(v E0 0, E1 1, E2 2),
            4 => laws_of!(v E0 0, E1 1, E2 2, E3 3),
            5 => laws_of!(v E0 0, E1 1, E2 2, E3 3, E4 4),
            _ => laws_of!(v E0 0, E1 1, E2 2, E3 3, E4 4, E5 5),
        }
        Ok(())
    });
    match r {
        Ok(r) => r?,
        Err(m) => return bad(format!("panicked: {m}")),
    }
    Ok(Seen { state: digest(v), steps: 20 + 8 * v.len() as u64 })
}

/// Lists of elements of one type, and lists of lists.
fn uniform(v: &Vec<u8>) -> Res {
    let (a, b, c) = (v[0], v[1], v[2]);
    let l = Nil.cons_all(a, b, c);
    eq("chain", (l.head, l.tail.head, l.tail.tail.head), (c, b, a))?;
    eq("reverse", l.reverse(), Nil.cons_all(c, b, a))?;
    let (x, rest) = l.split_last();
    eq("split_last", (x, rest), (a, Nil::cons(b).cons(c)))?;
    let (x, rest) = l.split_head();
    eq("split_head", (x, rest), (c, Nil::cons(a).cons(b)))?;
    eq("equality", l == Nil.cons_all(c, b, a), a == c)?;
    // A list whose elements are lists
    let inner = Nil::cons(E0 { v: a }).cons(E1 { v: b });
    let outer = Nil::cons(E2 { v: c }).cons(inner);
    eq("nested JSON", to_value(&outer)?, json!({"e0": a, "e1": b, "e2": c}))?;
    eq("nested", from_value::<Cons<Cons<E1, Cons<E0>>, Cons<E2>>>(to_value(&outer)?).ok(), Some(outer))?;
    eq("nested reverse", outer.reverse(), Nil::cons(inner).cons(E2 { v: c }))?;
    eq("nested split_last", outer.split_last(), (E2 { v: c }, Nil::cons(inner)))?;
    #[derive(Serialize, Deserialize, PartialEq, Debug)]
    struct Host {
        own: u8,
        #[serde(flatten)]
        list: Cons<E1, Cons<E0>>,
        #[serde(flatten)]
        none: Nil,
    }
    let host = Host { own: c, list: inner, none: Nil };
    eq("host JSON", to_value(&host)?, json!({"own": c, "e0": a, "e1": b}))?;
    eq("host", from_value::<Host>(to_value(&host)?).ok(), Some(host))?;
    Ok(Seen { state: digest(v), steps: 12 })
}

trait Cons3 {
    fn cons_all(self, a: u8, b: u8, c: u8) -> Cons<u8, Cons<u8, Cons<u8>>>;
}

impl Cons3 for Nil {
    fn cons_all(self, a: u8, b: u8, c: u8) -> Cons<u8, Cons<u8, Cons<u8>>> {
        Nil::cons(a).cons(b).cons(c)
    }
}

pub fn e02(th: bool) -> Check {
    let vals = if th { vec![0u8, 1, 2, 7, 255] } else { vec![0u8, 1, 255] };
    Check {
        id: "E02",
        spaces: vec![
            Space::new("lists", of(vals).upto(if th { 6 } else { 5 }), list),
            Space::new("long lists", of(vec![3u8, 200]).exact(6), list),
            Space::new("one type, lists of lists", of(vec![0u8, 1, 2, 255]).exact(3), uniform),
        ],
        assumptions: vec!["the operations are generic: they cannot look at the elements, so that few values suffice"],
        bounds: "lists of up to 6 elements of different types with 3 (5) values each, every operation and their pairwise compositions",
    }
}
