//! A few members anywhere in a Thing.

use serde_json::{json, Value};

use crate::{alpha::*, gen::*, prog::Kind as Ki, prog::*};

/// What the members hold: every one something else, or all the same.
struct X {
    i: usize,
    same: bool,
    /// The text of every member.
    text: Option<S>,
}

impl X {
    fn s(&self) -> S {
        if let Some(t) = &self.text {
            t.clone()
        } else if self.same {
            st("same")
        } else {
            format!("t{}", self.i)
        }
    }

    fn map(&self) -> Map {
        let mut m = vec![(st("en"), self.s())];
        if self.text.is_some() {
            m.insert(0, (st("de"), st("t")));
        } else if self.i % 2 == 1 {
            m.push((st("de"), if self.same { self.s() } else { format!("u{}", self.i) }));
        }
        m
    }

    fn n(&self) -> u32 {
        if self.same {
            5
        } else {
            self.i as u32 % 7
        }
    }

    fn v(&self) -> Value {
        if let Some(t) = &self.text {
            json!(t)
        } else if self.same {
            json!("same")
        } else {
            [json!(null), json!(self.i), json!([self.i]), json!({ "m": self.s() }), json!(true)][self.i % 5].clone()
        }
    }

    fn date(&self) -> S {
        format!("2022-01-02T03:04:{:02}Z", if self.same { 5 } else { self.i % 60 })
    }
}

#[derive(Clone, Copy)]
enum Atom {
    Thing(fn(&X) -> TOp),
    Sec(fn(&X) -> SecOp),
    /// Of the own setters of the scheme.
    SecOwn(usize),
    Link(fn(&X) -> LOp),
    Form(u64, fn(&X) -> FOp),
    Prop(fn(&X) -> SOp),
    Act(fn(&X) -> AOp),
    Evt(fn(&X) -> EOp),
    /// Site, depth
    Schema(u64, usize, fn(&X) -> SOp),
    /// Of the own setters of the kind of the schema.
    Own(u64, usize, usize),
    /// Declarations on their own.
    Early(fn() -> Vec<TOp>),
    Late(fn(&X) -> Vec<TOp>),
    /// The schema has no value.
    Empty(u64, usize),
}

const DEPTH: usize = 3;

fn info() -> Vec<fn(&X) -> IOp> {
    vec![
        |x| IOp::AType(x.s()),
        |x| IOp::Title(x.s()),
        |x| IOp::Titles(x.map()),
        |x| IOp::Desc(x.s()),
        |x| IOp::Descs(x.map()),
    ]
}

fn atoms() -> Vec<Atom> {
    use Atom::*;
    let mut v: Vec<Atom> = vec![
        Thing(|x| TOp::Id(x.s())),
        Thing(|x| TOp::Desc(x.s())),
        Thing(|x| TOp::Version(x.s(), Some(x.s()))),
        Thing(|x| TOp::Created(x.date())),
        Thing(|x| TOp::Modified(x.date())),
        Thing(|x| TOp::Support(x.s())),
        Thing(|x| TOp::Base(x.s())),
        Thing(|x| TOp::Context(x.s())),
        Thing(|x| TOp::ContextMap(vec![(st("k"), x.s())])),
        Thing(|x| TOp::AType(x.s())),
        Thing(|x| TOp::Titles(x.map())),
        Thing(|x| TOp::Descs(x.map())),
        Thing(|x| TOp::Profile(x.s())),
        Thing(|x| TOp::Link(x.s())),
        Sec(|x| SecOp::AType(x.s())),
        Sec(|x| SecOp::Desc(x.s())),
        Sec(|x| SecOp::Descs(x.map())),
        Sec(|x| SecOp::Proxy(x.s())),
        Sec(|x| SecOp::Key(x.s())),
        Sec(|_| SecOp::Required),
        Link(|x| LOp::Ty(x.s())),
        Link(|x| LOp::Rel(x.s())),
        Link(|x| LOp::Anchor(x.s())),
        Link(|x| LOp::HrefLang(st(if x.same { "en" } else { "de-AT" }))),
        Link(|_| LOp::Rel(st("icon"))),
        Link(|x| LOp::Sizes(x.s())),
        Prop(|x| SOp::Observable(x.i % 2 == 0)),
        Prop(|x| SOp::UriVar(x.s(), k(Ki::Str))),
        Act(|_| AOp::Safe),
        Act(|_| AOp::Idem),
        Act(|x| AOp::Sync(x.i % 2 == 0)),
        Act(|x| AOp::UriVar(x.s(), k(Ki::Str))),
        Evt(|x| EOp::UriVar(x.s(), k(Ki::Str))),
    ];
    v.extend((0..6).map(SecOwn));
    let act: [fn(&X) -> AOp; 5] = [
        |x| AOp::I(info()[0](x)),
        |x| AOp::I(info()[1](x)),
        |x| AOp::I(info()[2](x)),
        |x| AOp::I(info()[3](x)),
        |x| AOp::I(info()[4](x)),
    ];
    let evt: [fn(&X) -> EOp; 5] = [
        |x| EOp::I(info()[0](x)),
        |x| EOp::I(info()[1](x)),
        |x| EOp::I(info()[2](x)),
        |x| EOp::I(info()[3](x)),
        |x| EOp::I(info()[4](x)),
    ];
    v.extend(act.map(Act));
    v.extend(evt.map(Evt));
    for site in 0..FORM_SITES {
        let f: [fn(&X) -> FOp; 10] = [
            |x| FOp::CType(x.s()),
            |x| FOp::CCoding(x.s()),
            |x| FOp::Subproto(x.s()),
            |x| FOp::Scope(x.s()),
            |x| FOp::Response(x.s(), 0, 0),
            |x| FOp::AddResp(vec![AR::CType(x.s())]),
            |x| FOp::AddResp(vec![AR::Success, AR::CType(x.s())]),
            |x| FOp::AddResp(vec![AR::Schema(x.s())]),
            |x| FOp::Security(x.s()),
            |x| FOp::Href(x.s()),
        ];
        v.extend(f.map(|f| Form(site, f)));
        let other: [fn(&X) -> FOp; 4] = [|_| FOp::Op(10), |_| FOp::Op(1), |_| FOp::Op(5), |_| FOp::Op(8)];
        v.push(Form(site, other[site as usize]));
    }
    for site in [0, 1, 2, 3, 4, 5, 6, 7, 11] {
        let base: [fn(&X) -> SOp; 10] = [
            |x| SOp::I(info()[0](x)),
            |x| SOp::I(info()[1](x)),
            |x| SOp::I(info()[2](x)),
            |x| SOp::I(info()[3](x)),
            |x| SOp::I(info()[4](x)),
            |x| SOp::Unit(x.s()),
            |x| SOp::Format(x.s()),
            |x| SOp::Default(x.v()),
            |_| SOp::ReadOnly,
            |_| SOp::WriteOnly,
        ];
        for depth in 0..if site < 2 || site == 11 { DEPTH } else if site == 7 { 1 } else { 2 } {
            for (i, b) in base.iter().enumerate() {
                if depth < 2 || [1, 2, 7].contains(&i) {
                    v.push(Schema(site, depth, *b));
                }
            }
            v.extend((0..[3, 2, 1][depth]).map(|i| Own(site, depth, i)));
        }
    }
    v
}

fn schemes() -> Vec<(Scheme, Vec<fn(&X) -> SecOp>)> {
    use SecOp::*;
    let name: fn(&X) -> SecOp = |x| Name(x.s());
    let at: fn(&X) -> SecOp = |x| Location((x.n() % 5) as u8);
    let auth: fn(&X) -> SecOp = |x| Authorization(x.s());
    vec![
        (self::Scheme::NoSec, vec![]),
        (self::Scheme::Auto, vec![]),
        (self::Scheme::Psk, vec![]),
        (self::Scheme::Basic, vec![name, at]),
        (self::Scheme::ApiKey, vec![name, at]),
        (self::Scheme::Digest, vec![name, at, |x| Qop((x.n() % 2) as u8)]),
        (self::Scheme::Bearer, vec![name, at, auth, |x| Alg(x.s()), |x| Format(x.s())]),
        (
            self::Scheme::OAuth2(st("code")),
            vec![auth, |x| Token(x.s()), |x| Refresh(x.s()), |x| Scope(x.s()), |x| Scope(format!("{} ", x.s()))],
        ),
        (self::Scheme::OAuth2(st("same")), vec![auth, |x| Token(x.s()), |x| Refresh(x.s()), |x| Scope(x.s())]),
        (self::Scheme::Custom(st("x:y")), vec![|x| Data(json!({ "a": x.v() }))]),
        (self::Scheme::Custom(st("same")), vec![|x| Data(json!({ format!("x-{}", x.s()): x.s() }))]),
    ]
}

type Own = (SOp, Vec<fn(&X) -> SOp>);

/// The kinds with their own setters.
fn kinds(v: Value) -> Vec<Own> {
    use SOp::*;
    vec![
        (Kind(Ki::Bool), vec![]),
        (Kind(Ki::Integer), vec![|x| IMin(x.n() as i64), |x| IMax(x.n() as i64), |x| IMul(x.n() as u64 + 1)]),
        (Kind(Ki::Const(v.clone())), vec![]),
        (Kind(Ki::Number), vec![|x| NMin(F(x.n() as f64)), |x| NMax(F(x.n() as f64)), |x| NMul(F(x.n() as f64 + 0.5))]),
        (Kind(Ki::Null), vec![]),
        (Kind(Ki::Str), vec![|x| MinLen(x.n()), |x| MaxLen(x.n()), |x| Pattern(x.s())]),
        (Kind(Ki::Str), vec![|x| CEnc(x.s()), |x| CMedia(x.s()), |x| Pattern(x.s())]),
        (Kind(Ki::Vec), vec![|x| MinItems(x.n()), |x| MaxItems(x.n()), |x| Item(k(Ki::Const(x.v())))]),
        (Kind(Ki::Tuple), vec![|x| Append(k(Ki::Const(x.v()))), |_| Append(k(Ki::Str)), |x| Append(k(Ki::Const(x.v())))]),
        (
            Kind(Ki::Object),
            vec![|x| Prop(x.s(), true, k(Ki::Bool)), |x| Prop(format!("{}!", x.s()), false, k(Ki::Bool)), |x| Prop(x.s(), false, k(Ki::Null))],
        ),
        (Enum(v), vec![|x| Enum(x.v()), |x| Enum(json!([x.v()])), |x| Enum(x.v())]),
    ]
}

pub const VARIANTS: u64 = 11;

/// The Thing that has these members, and what they need. The text is that of the first.
fn thing(chosen: &[usize], all: &[Atom], same: bool, variant: usize, text: Option<&S>) -> Prog {
    let x = |i: usize| X { i, same, text: text.filter(|_| i == chosen[0]).cloned() };
    let mut ops = vec![];
    for i in chosen {
        if let Atom::Thing(f) = all[*i] {
            ops.push(f(&x(*i)));
        } else if let Atom::Early(f) = all[*i] {
            ops.extend(f());
        }
    }
    // Security: the scheme is there if it has a member.
    let (scheme, own) = schemes().swap_remove(variant % schemes().len());
    let (mut before, mut after) = (vec![], vec![]);
    for i in chosen {
        match all[*i] {
            Atom::Sec(f) => before.push(f(&x(*i))),
            Atom::SecOwn(n) if n < own.len() => after.push(own[n](&x(*i))),
            _ => {}
        }
    }
    let sec = !before.is_empty() || !after.is_empty();
    if sec {
        before.push(SecOp::Scheme(scheme));
        before.extend(after);
        ops.push(TOp::Security(before.clone()));
    }
    let link: Vec<LOp> = chosen
        .iter()
        .filter_map(|i| match all[*i] {
            Atom::Link(f) => Some(f(&x(*i))),
            _ => None,
        })
        .collect();
    if !link.is_empty() {
        let mut l = vec![LOp::Href(st(if same { "same" } else { "h" }))];
        l.extend(link);
        ops.push(TOp::LinkWith(l));
    }
    let mut late = vec![];
    let mut keys = vec![];
    let mut defs = vec![];
    let mut forms: Vec<Option<Vec<FOp>>> = vec![None; FORM_SITES as usize];
    for i in chosen {
        if let Atom::Form(site, f) = all[*i] {
            let form = forms[site as usize].get_or_insert_with(|| vec![FOp::Op(legal_op(site)), FOp::Href(st(if same { "same" } else { "h" }))]);
            let o = f(&x(*i));
            match &o {
                FOp::Security(s) if !keys.contains(s) && s != UNKNOWN => keys.push(s.clone()),
                FOp::AddResp(r) => defs.extend(r.iter().filter_map(|r| match r {
                    AR::Schema(s) if s != UNKNOWN => Some(s.clone()),
                    _ => None,
                })),
                _ => {}
            }
            match o {
                FOp::Href(_) => form[1] = o,
                _ => form.push(o),
            }
        }
    }
    // What the forms refer to is defined, unless the scheme above has the name.
    for s in keys {
        if !before.contains(&SecOp::Key(s.clone())) {
            ops.push(basic(&s));
        }
    }
    defs.dedup();
    let schema = |site: u64| -> Option<Schema> {
        let mut levels: Vec<(Vec<SOp>, Vec<(usize, usize)>)> = vec![];
        for i in chosen {
            let (depth, base, own) = match all[*i] {
                Atom::Empty(s, d) if s == site => (d, None, None),
                Atom::Schema(s, d, f) if s == site => (d, Some(f(&x(*i))), None),
                Atom::Own(s, d, n) if s == site => (d, None, Some((n, *i))),
                _ => continue,
            };
            if levels.len() <= depth {
                levels.resize(depth + 1, Default::default());
            }
            levels[depth].0.extend(base);
            levels[depth].1.extend(own);
        }
        let mut inner: Option<Schema> = None;
        for (d, (base, own)) in levels.into_iter().enumerate().rev() {
            let (base, access): (Vec<SOp>, Vec<SOp>) = base.into_iter().partition(|o| !matches!(o, SOp::ReadOnly | SOp::WriteOnly));
            let mut s = match inner {
                Some(s) => wrap((variant + d) as u64 % CONTAINERS, s),
                None => {
                    let (kind, ops) = kinds(if same { json!("same") } else { json!(variant) }).swap_remove((variant + site as usize) % 11);
                    let mut s = sch(vec![kind]);
                    let empty = |a: &Atom| matches!(a, Atom::Empty(s, _) if *s == site);
                    if chosen.iter().any(|i| empty(&all[*i])) {
                        return Some(kw(Ki::Integer, &[SOp::IMin(2), SOp::IMax(1)])).map(|s| (0..d).rev().fold(s, |s, d| wrap((variant + d) as u64 % CONTAINERS, s)));
                    }
                    s.extend(own.into_iter().filter(|(n, _)| *n < ops.len()).map(|(n, i)| ops[n](&x(i))));
                    s
                }
            };
            let restrictable = !s.iter().any(|o| matches!(o, SOp::OneOf(_) | SOp::Kind(Ki::Const(_)) | SOp::ReadOnly | SOp::WriteOnly));
            if restrictable {
                s.extend(access.into_iter().take(1));
            }
            s.splice(1..1, base);
            inner = Some(s);
        }
        inner
    };
    let form = |site: usize| forms[site].clone();
    let prop: Vec<SOp> = chosen
        .iter()
        .filter_map(|i| match all[*i] {
            Atom::Prop(f) => Some(f(&x(*i))),
            _ => None,
        })
        .collect();
    let s = schema(0);
    if s.is_some() || !prop.is_empty() || form(1).is_some() {
        let mut s = as_property(&s.unwrap_or_else(|| k(Ki::Bool)));
        s.splice(1..1, prop.into_iter().chain(form(1).map(SOp::Form)));
        late.push(TOp::Property(st(if same { "same" } else { "p" }), s));
    }
    let mut act: Vec<AOp> = chosen
        .iter()
        .filter_map(|i| match all[*i] {
            Atom::Act(f) => Some(f(&x(*i))),
            _ => None,
        })
        .collect();
    act.extend(schema(1).map(AOp::Input));
    act.extend(schema(2).map(AOp::Output));
    act.extend(form(2).map(AOp::Form));
    if !act.is_empty() {
        late.push(TOp::Action(st(if same { "same" } else { "a" }), act));
    }
    let mut evt: Vec<EOp> = chosen
        .iter()
        .filter_map(|i| match all[*i] {
            Atom::Evt(f) => Some(f(&x(*i))),
            _ => None,
        })
        .collect();
    evt.extend(schema(3).map(EOp::Subscription));
    evt.extend(schema(4).map(EOp::Data));
    evt.extend(schema(5).map(EOp::Cancellation));
    evt.extend(schema(6).map(EOp::DataResponse));
    evt.extend(form(3).map(EOp::Form));
    if !evt.is_empty() {
        late.push(TOp::Event(st(if same { "same" } else { "e" }), evt));
    }
    late.extend(form(0).map(TOp::Form));
    late.extend(schema(7).map(|s| TOp::UriVar(st(if same { "same" } else { "v" }), s)));
    late.extend(schema(11).map(|s| TOp::SchemaDef(st(if same { "same" } else { "d" }), s)));
    for s in defs {
        if !late.iter().any(|o| matches!(o, TOp::SchemaDef(n, _) if *n == s)) {
            late.push(TOp::SchemaDef(s, k(Ki::Bool)));
        }
    }
    for i in chosen {
        if let Atom::Late(f) = all[*i] {
            late.extend(f(&x(*i)));
        }
    }
    ops.push(TOp::Finish);
    ops.extend(late);
    Prog { title: st(if same { "same" } else { "t" }), ops }
}

/// Things of two members (and what they need), each with every kind of schema and scheme if `every`.
pub fn g_member_pairs(every: bool) -> Gen<Prog> {
    let all = atoms();
    let n = all.len();
    let pairs: Vec<[usize; 2]> = (0..n).flat_map(|i| (i + 1..n).map(move |j| [i, j])).collect();
    of(pairs).x(&range(2)).x(&range(if every { VARIANTS } else { 2 })).map(move |((p, same), v)| {
        let v = if every { v as usize } else { (p[0] + 3 * p[1] + 5 * v as usize) % VARIANTS as usize };
        let mut p = p;
        if v % 2 == 1 {
            p.reverse();
        }
        thing(&p, &all, same == 1, v, None)
    })
}

/// Things of three members, of different and (or) the same text.
pub fn g_member_triples(both: bool) -> Gen<Prog> {
    let all = atoms();
    let n = all.len() as u64;
    let c2 = |k: u64| k * k.saturating_sub(1) / 2;
    let c3 = |k: u64| if k < 3 { 0 } else { k * (k - 1) * (k - 2) / 6 };
    let modes = if both { 2 } else { 1 };
    Gen::new(c3(n) * modes, move |i| {
        let mut r = i / modes;
        // Which of the two it is changes with the last member, not only the first.
        let same = if both { i & 1 == 1 } else { (r ^ r / 7) & 1 == 1 };
        let mut k = 2;
        while c3(k + 1) <= r {
            k += 1;
        }
        r -= c3(k);
        let mut j = 1;
        while c2(j + 1) <= r {
            j += 1;
        }
        let i = r - c2(j);
        let t = [i as usize, j as usize, k as usize];
        thing(&t, &all, same, (t[0] + 3 * t[1] + 7 * t[2]) % VARIANTS as usize, None)
    })
}

/// The members that hold text, with a kind of schema and scheme each.
fn text_members() -> Vec<(usize, usize)> {
    let all = atoms();
    let mut known = std::collections::HashSet::new();
    let mut v = vec![];
    for i in 0..all.len() {
        for variant in 0..VARIANTS as usize {
            let t = |s: &str| format!("{:?}", thing(&[i], &all, false, variant, Some(&st(s))));
            let a = t("\u{1}");
            if a != t("\u{2}") && known.insert(a) {
                v.push((i, variant));
            }
        }
    }
    v
}

/// The Thing with one text at one of the places.
pub type Placed = Box<dyn Fn(&S) -> Prog + Send + Sync>;

pub fn text_places() -> Vec<Placed> {
    let all = std::sync::Arc::new(atoms());
    text_members()
        .into_iter()
        .map(|(i, v)| {
            let all = all.clone();
            Box::new(move |s: &S| thing(&[i], &all, false, v, Some(s))) as Placed
        })
        .collect()
}

/// Every text at every place.
pub fn g_member_texts(texts: Vec<S>) -> Gen<Prog> {
    let p = text_places();
    range(p.len() as u64).x(&of(texts)).map(move |(i, s)| p[i as usize](&s))
}

pub fn odd_texts() -> Vec<S> {
    let mut v = odd_strings();
    v.extend(vocabulary_words());
    v.sort();
    v.dedup();
    v
}

/// Every set of the members of one part of a Thing.
pub fn g_part_subsets(every: bool) -> Gen<Prog> {
    let all = std::sync::Arc::new(atoms());
    let of_part = |f: &dyn Fn(&Atom) -> bool| -> Vec<usize> { (0..all.len()).filter(|i| f(&all[*i])).collect() };
    // With how many kinds of schemas and schemes
    let mut parts: Vec<(Vec<usize>, u64)> = vec![
        (of_part(&|a| matches!(a, Atom::Thing(_))), 1),
        (of_part(&|a| matches!(a, Atom::Sec(_) | Atom::SecOwn(_))), VARIANTS),
        (of_part(&|a| matches!(a, Atom::Link(_))), 1),
        (of_part(&|a| matches!(a, Atom::Act(_))), 1),
        (of_part(&|a| matches!(a, Atom::Evt(_))), 1),
    ];
    for site in 0..FORM_SITES {
        parts.push((of_part(&|a| matches!(a, Atom::Form(s, _) if *s == site)), 1));
    }
    for site in [0, 1, 2, 3, 4, 5, 6, 7, 11] {
        if every || [0, 4, 11].contains(&site) {
            let schema = |a: &Atom| matches!(a, Atom::Schema(s, 0, _) | Atom::Own(s, 0, _) if *s == site);
            parts.push((of_part(&|a| schema(a) || site == 0 && matches!(a, Atom::Prop(_))), if every { VARIANTS } else { 2 }));
        }
    }
    of(parts).sum(move |(members, variants)| {
        let all = all.clone();
        range(1 << members.len()).x(&range(2)).x(&range(variants)).map(move |((set, same), v)| {
            let chosen: Vec<usize> = members.iter().enumerate().filter(|(i, _)| set >> i & 1 != 0).map(|(_, m)| *m).collect();
            let v = if variants == 2 { (set.count_ones() as u64 * 5 + set % 11 + v * 3) % VARIANTS } else { v };
            thing(&chosen, &all, same == 1, v as usize, None)
        })
    })
}

/// A name that nothing has.
const UNKNOWN: &str = "?";

/// Members that are at fault, or are beside another.
fn faults() -> Vec<(&'static str, Atom)> {
    use Atom::*;
    fn bad(_: &X) -> Map {
        vec![(st("en"), st("x")), (st("e!"), st("y"))]
    }
    fn named(x: &X, n: &str) -> S {
        st(if x.same { "same" } else { n })
    }
    fn variable(ops: &[SOp], kind: Ki) -> crate::prog::Schema {
        let mut s = vec![SOp::Finish];
        s.extend(ops.iter().cloned());
        s.push(SOp::Kind(kind));
        s
    }
    fn tagged(x: &X) -> crate::prog::Schema {
        variable(&[SOp::I(IOp::Titles(bad(x)))], Ki::Str)
    }
    fn empty() -> crate::prog::Schema {
        kw(Ki::Str, &[SOp::MinLen(2), SOp::MaxLen(1)])
    }
    let mut v: Vec<(&'static str, Atom)> = vec![
        ("L01", Thing(|x| TOp::Titles(bad(x)))),
        ("L01", Thing(|x| TOp::Descs(bad(x)))),
        ("L01", Sec(|x| SecOp::Descs(bad(x)))),
        ("L01", Link(|_| LOp::HrefLang(st("e!")))),
        ("L02", Link(|_| LOp::Sizes(st("1x1")))),
        ("L01", Act(|x| AOp::I(IOp::Titles(bad(x))))),
        ("L01", Act(|x| AOp::I(IOp::Descs(bad(x))))),
        ("L01", Evt(|x| EOp::I(IOp::Titles(bad(x))))),
        ("L01", Evt(|x| EOp::I(IOp::Descs(bad(x))))),
        ("S02", Early(|| vec![basic("twice"), basic("twice")])),
        ("S01", Early(|| vec![TOp::Security(vec![SecOp::Scheme(self::Scheme::Combo), SecOp::AllOf(vec![st(UNKNOWN)])])])),
        ("A01", Late(|x| vec![TOp::Property(named(x, "p"), k(Ki::Null))])),
        ("A01", Late(|x| vec![TOp::Action(named(x, "a"), vec![])])),
        ("A01", Late(|x| vec![TOp::Event(named(x, "e"), vec![])])),
        ("F01", Late(|x| vec![TOp::Form(vec![FOp::Href(x.s())])])),
    ];
    // URI variables, with and without another
    macro_rules! with {
        ($i:literal) => {
            v.extend([
                (["U01", "U01", "U01", "L01", "D01"][$i], Late(|x| vec![TOp::UriVar(st("bad"), VARIABLES[$i](x))])),
                (["U01", "U01", "U01", "L01", "D01"][$i], Act(|x| AOp::UriVar(st("bad"), VARIABLES[$i](x)))),
                (["U01", "U01", "U01", "L01", "D01"][$i], Evt(|x| EOp::UriVar(st("bad"), VARIABLES[$i](x)))),
                (["U01", "U01", "U01", "L01", "D01"][$i], Prop(|x| SOp::UriVar(st("bad"), VARIABLES[$i](x)))),
                (if $i == 3 { "L01" } else { "D01" }, Late(|x| vec![TOp::SchemaDef(st("bad"), if $i < 3 { empty() } else { VARIABLES[$i](x) })])),
            ]);
        };
    }
    const VARIABLES: [fn(&X) -> crate::prog::Schema; 5] = [|_| k(Ki::Vec), |_| k(Ki::Object), |_| k(Ki::Tuple), tagged, |_| empty()];
    with!(0);
    with!(1);
    with!(2);
    with!(3);
    with!(4);
    for site in 0..FORM_SITES {
        v.extend([
            ("S01", Form(site, |_| FOp::Security(st(UNKNOWN)))),
            ("R01", Form(site, |_| FOp::AddResp(vec![AR::Schema(st(UNKNOWN))]))),
            ("F01", Form(site, |_| FOp::Op(17))),
            ("F01", Form(site, |_| FOp::Op(0))),
        ]);
    }
    for site in [0, 1, 2, 3, 4, 5, 6, 7, 11] {
        for depth in 0..2 {
            v.push(("L01", Schema(site, depth, |x| SOp::I(IOp::Titles(bad(x))))));
            v.push(("L01", Schema(site, depth, |x| SOp::I(IOp::Descs(bad(x))))));
            v.push(("D01", Empty(site, depth)));
        }
    }
    v
}

/// A fault against the property beside any one or two other members.
pub fn g_fault_beside(property: &str, two: bool) -> Gen<Prog> {
    let mut all = atoms();
    let n = all.len();
    all.extend(faults().into_iter().filter(|(p, _)| *p == property).map(|(_, a)| a));
    let bad: Vec<usize> = (n..all.len()).collect();
    let sets: Vec<Vec<usize>> = if two {
        (0..n).flat_map(|i| (i + 1..n).map(move |j| vec![i, j])).collect()
    } else {
        (0..all.len()).map(|i| vec![i]).collect()
    };
    of(bad).x(&of(sets)).x(&range(2)).x(&range(if two { 1 } else { 3 })).map(move |(((f, mut set), same), v)| {
        let sum: usize = set.iter().sum::<usize>() * 3 + f;
        if !set.contains(&f) {
            set.push(f);
        }
        thing(&set, &all, same == 1, (sum + 4 * v as usize) % VARIANTS as usize, None)
    })
}

/// Two Things of which one has a member more, or another text in it, beside any other member.
pub fn g_differences() -> Gen<(Prog, Prog)> {
    let all = atoms();
    let n = all.len() as u64;
    range(n).x(&range(n)).x(&range(2)).x(&range(3)).map(move |(((i, j), same), how)| {
        let (i, j) = (i as usize, j as usize);
        let v = (i * 3 + j * 5 + how as usize) % VARIANTS as usize;
        let both = if i == j { vec![i] } else { vec![i, j] };
        let t = |text: &str| thing(&both, &all, same == 1, v, Some(&st(text)));
        match how {
            0 => (thing(&both, &all, same == 1, v, None), thing(&both[1..], &all, same == 1, v, None)),
            1 => (t("same"), t("other")),
            _ => (t("Same"), t("same")),
        }
    })
}

/// The schemas of all pairs of members and of all sets of members of a schema.
pub fn g_member_schemas() -> Gen<crate::prog::Schema> {
    let all = atoms();
    let of_schema: Vec<usize> =
        (0..all.len()).filter(|i| matches!(all[*i], Atom::Schema(11, ..) | Atom::Own(11, ..))).collect();
    let outer: Vec<usize> = of_schema.iter().copied().filter(|i| matches!(all[*i], Atom::Schema(_, 0, _) | Atom::Own(_, 0, _))).collect();
    let mut sets: Vec<Vec<usize>> = of_schema.iter().flat_map(|i| of_schema.iter().map(move |j| if i == j { vec![*i] } else { vec![*i, *j] })).collect();
    sets.extend((0..1usize << outer.len()).map(|m| outer.iter().enumerate().filter(|(i, _)| m >> i & 1 != 0).map(|(_, o)| *o).collect()));
    of(sets).x(&range(2)).x(&range(VARIANTS)).map(move |((set, same), v)| {
        let p = thing(&set, &all, same == 1, v as usize, None);
        let schema = p.ops.into_iter().find_map(|o| match o {
            TOp::SchemaDef(_, s) => Some(s),
            _ => None,
        });
        schema.unwrap_or_else(|| k(Ki::Str))
    })
}

/// Pairs of members in either of the two modes, for what takes long.
pub fn g_member_pairs_once() -> Gen<Prog> {
    let all = atoms();
    let n = all.len();
    let pairs: Vec<[usize; 2]> = (0..n).flat_map(|i| (i + 1..n).map(move |j| [i, j])).collect();
    of(pairs).map(move |p| {
        let sum = p[0] * 3 + p[1] * 5;
        thing(&p, &all, sum % 7 < 3, sum % VARIANTS as usize, None)
    })
}
