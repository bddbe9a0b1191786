//! Checks of the JSON form: writing, reading, and both.

use serde_json::{json, Map, Value};
use wot_td::{hlist::Nil, thing::Thing};

use crate::{
    alpha::*,
    atoms::*,
    checks_build::*,
    dump,
    engine::{digest, Bad, Check, Res, Seen, Space},
    ext::AB,
    gen::*,
    json::{self, read, text, write, Read, Style},
    judge::*,
    model::{interpret, with_ext, Items, MSchema, MSub, MThing},
    prog::{Kind as Ki, *},
};

pub const ASSUME: &[&str] = &[
    "numbers are finite (JSON has no other)",
    "serde_json and serde themselves are trusted",
    "the reader and writer of the W3C vocabulary are the harness's own (json.rs)",
];

/// The descriptions whose JSON form is examined.
pub fn corpus(th: bool) -> Vec<(&'static str, Gen<Prog>)> {
    let d = |q: u32, t: u32| if th { t } else { q };
    vec![
        ("security references", g_security_refs(th)),
        ("security schemes", g_sec_setters(th)),
        ("form operations", g_form_ops(d(2, 3))),
        ("form setters", g_form_setters(d(3, 4))),
        ("affordances", g_affordance_setters(d(3, 4))),
        ("stages of properties", g_property_setters(0, 1, 1).or(&g_property_setters(1, 0, 1))),
        ("bounds", at_sites(&bound_leaves().map(finite), &[0, 1, 5])),
        ("schema setters", at_sites(&g_schema_setters(0, d(2, 3), 1), &[0, 3])),
        ("early schema setters", at_sites(&g_schema_setters(1, 1, 0), &OPEN_SITES)),
        ("schema nesting", at_sites(&g_schema_nesting(d(2, 3)), &OPEN_SITES)),
        ("schema children", at_sites(&g_schema_children(d(2, 3)), &[0, 4, 11])),
        ("links", g_link_setters(d(3, 4)).or(&g_link_lists(d(3, 4)))),
        ("metadata", g_meta(d(3, 4))),
        ("date-times", g_times()),
        ("translations", g_lang_maps()),
        ("odd strings", g_odd_strings()),
        ("odd values", places(schema_values(), odd_values())),
        ("long lists and deep nesting", g_wide(th)),
        ("mixed declarations", g_rich(d(2, 3))),
        ("everything", one_with(rich_all)),
    ]
}

/// Every position of two strings.
pub fn pair_places() -> Vec<Place<Pair>> {
    let mut p = meta_pairs();
    p.extend(link_pairs());
    p.extend(sec_pairs());
    p.extend(form_pairs());
    p.extend(schema_pairs());
    p.extend(name_pairs());
    p.extend(variable_pairs());
    p
}

/// Every string position.
pub fn string_places() -> Vec<Place<S>> {
    let mut p = meta_strings();
    p.extend(link_strings());
    p.extend(sec_strings());
    p.extend(form_strings());
    p.extend(schema_strings());
    p.extend(name_strings());
    p
}

/// Every string position with every odd string.
pub fn g_odd_strings() -> Gen<Prog> {
    let mut v = odd_strings();
    v.extend(vocabulary_words().into_iter().filter(|w| !odd_strings().contains(w)));
    places(string_places(), v)
}

pub fn g_wide(th: bool) -> Gen<Prog> {
    let mut p = meta_wide();
    p.extend(link_wide());
    p.extend(sec_wide());
    p.extend(form_wide());
    p.extend(schema_wide());
    p.extend(name_wide());
    wide(p, th)
}

/// Combinations of rich declarations.
pub fn g_rich(n: u32) -> Gen<Prog> {
    of(rich_ops()).upto(n).map(|v| {
        let mut ops = rich_base();
        for (i, o) in v.into_iter().enumerate() {
            // The same declaration may come twice.
            ops.push(match o {
                TOp::Property(n, s) => TOp::Property(format!("{n}{i}"), s),
                TOp::Action(n, s) => TOp::Action(format!("{n}{i}"), s),
                TOp::Event(n, s) => TOp::Event(format!("{n}{i}"), s),
                TOp::Security(mut s) => {
                    s.insert(0, SecOp::Key(format!("key {i}")));
                    if let [_, SecOp::Key(_), ..] = s[..] {
                        s.remove(1);
                    }
                    if s.iter().any(|o| matches!(o, SecOp::Scheme(Scheme::Combo))) {
                        s.retain(|o| !matches!(o, SecOp::Name(_)));
                    }
                    TOp::Security(s)
                }
                o => o,
            });
        }
        post(ops)
    })
}

/// Translations at every place.
pub fn g_lang_maps() -> Gen<Prog> {
    of(vec![
        vec![],
        mp(&[("en", "x")]),
        mp(&[("en", "x"), ("it-IT", "y")]),
        mp(&[("zh-Hant-TW", "x"), ("de-DE-1996", "y"), ("x-private", "z")]),
        mp(&[("EN", "x"), ("en-us", "y")]),
        mp(&[("sr-Latn", ""), ("i-klingon", " "), ("en-a-bbb-x-a", "z"), ("sl-rozaj-biske-1994", "\u{0}")]),
    ])
    .x(&range(LANG_SITES))
    .map(|(m, site)| lang_at(site, m))
}

/// JSON cannot hold infinities.
pub fn finite(s: Schema) -> Schema {
    let f = |x: F| F(if x.0.is_infinite() { 1e300f64.copysign(x.0) } else { x.0 });
    s.into_iter()
        .map(|o| match o {
            SOp::NMin(x) => SOp::NMin(f(x)),
            SOp::NMax(x) => SOp::NMax(f(x)),
            SOp::NXMin(x) => SOp::NXMin(f(x)),
            SOp::NXMax(x) => SOp::NXMax(f(x)),
            SOp::NMul(x) => SOp::NMul(f(x)),
            o => o,
        })
        .collect()
}

pub fn j01(th: bool) -> Check {
    let mut spaces: Vec<Space> = corpus(th)
        .into_iter()
        .map(|(n, g)| Space::new(n, g, round_trip::<Nil>))
        .collect();
    spaces.push(Space::new("extended things", ext_corpus(false), |p: &Prog| {
        with_ext(true, || round_trip::<AB>(p))
    }));
    spaces.push(Space::new("custom security schemes", g_custom_security(), custom_security));
    spaces.push(Space::new("words close to the vocabulary", places(string_places(), near_vocabulary()), round_trip::<Nil>));
    spaces.push(Space::new("similar strings", places(pair_places(), similar_pairs(true)), round_trip::<Nil>));
    spaces.push(Space::new("two members anywhere", g_member_pairs(th), round_trip::<Nil>));
    spaces.push(Space::new("texts of any member", g_member_texts(odd_texts()), round_trip::<Nil>));
    spaces.push(Space::new("any members of a part", g_part_subsets(th), round_trip::<Nil>));
    if th {
        spaces.push(Space::new("three members anywhere", g_member_triples(false), round_trip::<Nil>));
    }
    Check {
        id: "J01",
        spaces,
        assumptions: ASSUME.to_vec(),
        bounds: BOUNDS,
    }
}

pub const BOUNDS: &str = "descriptions of the builder checks: setter sequences <= 3 (thorough 4) of every builder, every string position x 230 strings (J01, J02: x 3700), every JSON value position x 230 values, containers nested <= 2 (3) deep x 19 leaves, combinations of <= 2 (3) of 55 rich declarations, lists up to 1025";

pub fn j02(th: bool) -> Check {
    let mut spaces: Vec<Space> = corpus(th)
        .into_iter()
        .map(|(n, g)| Space::new(n, g, vocabulary::<Nil>))
        .collect();
    spaces.push(Space::new("extended things", ext_corpus(false), |p: &Prog| {
        with_ext(true, || vocabulary::<AB>(p))
    }));
    spaces.push(Space::new("words close to the vocabulary", places(string_places(), near_vocabulary()), vocabulary::<Nil>));
    spaces.push(Space::new("similar strings", places(pair_places(), similar_pairs(true)), vocabulary::<Nil>));
    spaces.push(Space::new("two members anywhere", g_member_pairs(th), vocabulary::<Nil>));
    spaces.push(Space::new("texts of any member", g_member_texts(odd_texts()), vocabulary::<Nil>));
    spaces.push(Space::new("any members of a part", g_part_subsets(th), vocabulary::<Nil>));
    if th {
        spaces.push(Space::new("three members anywhere", g_member_triples(false), vocabulary::<Nil>));
    }
    Check {
        id: "J02",
        spaces,
        assumptions: ASSUME.to_vec(),
        bounds: BOUNDS,
    }
}

// ---------------------------------------------------------------------------------------------
// Extensions

/// Descriptions with both extensions everywhere.
pub fn ext_corpus(th: bool) -> Gen<Prog> {
    let d = |q: u32, t: u32| if th { t } else { q };
    let g = g_rich(d(1, 2))
        .or(&one_with(rich_all))
        .or(&g_form_setters(d(1, 2)))
        .or(&g_affordance_setters(d(1, 2)))
        .or(&at_sites(&g_schema_setters(1, 1, 0), &[0, 1, 3]))
        .or(&at_sites(&g_schema_nesting(d(1, 2)), &OPEN_SITES))
        .or(&g_link_lists(1))
        .or(&g_meta(1));
    g.x(&range(4)).map(|(p, i)| {
        let n = p.calls();
        extify(&p, &mut Payload::new((i * 4 + n % 4) as u8, [1, 3, 5, 7][i as usize], (n + i) as usize))
    })
}

// ---------------------------------------------------------------------------------------------
// J03

/// `preserves` for every style and several member orders.
fn preserved(t: &MThing) -> Res {
    let mut steps = 0;
    for (i, st) in Style::all().enumerate() {
        let doc = write(t, st);
        let orders = [0, 1, 2 + i as u32];
        let texts: Vec<String> = orders.iter().map(|o| text(&doc, *o)).collect();
        steps += preserves::<Nil>(&doc, &texts, t)?.steps;
    }
    Ok(Seen { state: digest(t), steps })
}

/// In the first and the last style only.
fn preserved_lightly(p: &Prog) -> Res {
    let o = interpret(p);
    if !o.viols.is_empty() {
        return skipped();
    }
    let mut steps = 0;
    let n = Style::all().count();
    for st in Style::all().step_by(n - 1) {
        let doc = write(&o.thing, st);
        let texts = [text(&doc, 1)];
        steps += preserves::<Nil>(&doc, &texts, &o.thing)?.steps;
    }
    Ok(Seen { state: digest(&o.thing), steps })
}

fn preserved_prog(p: &Prog) -> Res {
    let o = interpret(p);
    if !o.viols.is_empty() {
        return skipped();
    }
    preserved(&o.thing)
}

/// The same with members the vocabulary does not have.
fn preserved_extra(p: &Prog) -> Res {
    let o = interpret(p);
    if !o.viols.is_empty() {
        return skipped();
    }
    let mut steps = 0;
    for mut st in Style::all() {
        st.extra = true;
        let doc = write(&o.thing, st);
        let texts = [text(&doc, 0), text(&doc, 1)];
        steps += preserves::<Nil>(&doc, &texts, &o.thing)?.steps;
    }
    Ok(Seen { state: digest(&o.thing), steps })
}

/// A Thing model with `s` at `site`.
fn thing_with(site: u64, s: MSchema) -> MThing {
    use crate::model::*;
    let mut t = interpret(&prog(vec![TOp::Security(vec![SecOp::Scheme(Scheme::NoSec), SecOp::Required])])).thing;
    let one = |s| Some([(st("x"), s)].into_iter().collect());
    let inter = || MInter::default();
    match site {
        0 => {
            let mut i = inter();
            i.attype = s.attype.clone();
            i.title = s.title.clone();
            i.titles = s.titles.clone();
            i.description = s.description.clone();
            i.descriptions = s.descriptions.clone();
            t.properties = Some([(st("x"), MProp { inter: i, schema: s, ..Default::default() })].into_iter().collect())
        }
        1 | 2 => {
            let mut a = MAct::default();
            *(if site == 1 { &mut a.input } else { &mut a.output }) = Some(s);
            t.actions = Some([(st("x"), a)].into_iter().collect());
        }
        3..=6 => {
            let mut e = MEvt::default();
            *(match site {
                3 => &mut e.subscription,
                4 => &mut e.data,
                5 => &mut e.cancellation,
                _ => &mut e.data_response,
            }) = Some(s);
            t.events = Some([(st("x"), e)].into_iter().collect());
        }
        7 => t.urivars = one(s),
        8 => {
            let mut i = inter();
            i.urivars = one(s);
            t.properties = Some([(st("x"), MProp { inter: i, ..Default::default() })].into_iter().collect())
        }
        9 => {
            let mut i = inter();
            i.urivars = one(s);
            t.actions = Some([(st("x"), MAct { inter: i, ..Default::default() })].into_iter().collect())
        }
        10 => {
            let mut i = inter();
            i.urivars = one(s);
            t.events = Some([(st("x"), MEvt { inter: i, ..Default::default() })].into_iter().collect())
        }
        _ => t.schemadefs = one(s),
    }
    t
}

/// Schemas of all combinations of the general members, most of which no builder makes.
fn g_free_schemas() -> Gen<MSchema> {
    let subs: Vec<Option<MSub>> = {
        let mut v = vec![None];
        for l in leaves().into_iter().chain(rich_leaves()) {
            let s = crate::model::schema(&l).sub;
            if s.is_some() && !v.contains(&s) {
                v.push(s);
            }
        }
        v.push(Some(MSub::Array { items: None, min: None, max: Some(0), ext: vec![] }));
        v.push(Some(MSub::Array { items: Some(Items::Many(vec![])), min: None, max: None, ext: vec![] }));
        v.push(Some(MSub::Array {
            items: Some(Items::Many(vec![MSchema::default(), MSchema { ro: true, wo: true, ..Default::default() }])),
            min: Some(1),
            max: None,
            ext: vec![],
        }));
        v.push(Some(MSub::Array { items: Some(Items::One(Box::default())), min: None, max: None, ext: vec![] }));
        v.push(Some(MSub::Object { props: Some(Default::default()), required: Some(vec![]), ext: vec![] }));
        v.push(Some(MSub::Object { props: None, required: Some(sv(&["b", "a"])), ext: vec![] }));
        v.push(Some(MSub::Object {
            props: Some([(st("a"), MSchema::default())].into_iter().collect()),
            required: None,
            ext: vec![],
        }));
        v
    };
    of(subs)
        .x(&of(vec![None, Some(json!(1)), Some(Value::Null)]))
        .x(&of(vec![None, Some(vec![]), Some(vec![json!(1), json!("x"), Value::Null])]))
        .x(&of(vec![None, Some(vec![]), Some(vec![MSchema::default(), crate::model::schema(&rich_leaves()[3])])]))
        .x(&range(4))
        .x(&of(vec![None, Some(Value::Null), Some(json!([{"type": "integer"}]))]))
        .x(&range(2))
        .map(|((((((sub, constant), enumeration), one_of), rw), default), text)| MSchema {
            sub,
            constant,
            enumeration,
            one_of,
            ro: rw & 1 != 0,
            wo: rw & 2 != 0,
            default,
            unit: (text == 1).then(|| st("u")),
            format: (text == 1).then(|| st("f")),
            title: (text == 1).then(|| st("ti")),
            attype: (text == 1).then(Vec::new),
            titles: (text == 1).then(Default::default),
            ..Default::default()
        })
}

/// Documents with empty lists and maps, and other members the builder never leaves like that.
fn g_free_things() -> Gen<MThing> {
    use crate::model::*;
    type Edit = fn(&mut MThing);
    fn p(t: &mut MThing) -> &mut MProp {
        t.properties.get_or_insert_with(Default::default).entry(st("x")).or_default()
    }
    fn a(t: &mut MThing) -> &mut MAct {
        t.actions.get_or_insert_with(Default::default).entry(st("x")).or_default()
    }
    fn e(t: &mut MThing) -> &mut MEvt {
        t.events.get_or_insert_with(Default::default).entry(st("x")).or_default()
    }
    fn f(t: &mut MThing) -> &mut MForm {
        let v = t.forms.get_or_insert_with(Default::default);
        if v.is_empty() {
            v.push(MForm { href: st("h"), ..Default::default() });
        }
        &mut v[0]
    }
    fn l(t: &mut MThing) -> &mut MLink {
        let v = t.links.get_or_insert_with(Default::default);
        if v.is_empty() {
            v.push(MLink { href: st("h"), ..Default::default() });
        }
        &mut v[0]
    }
    fn s(t: &mut MThing, kind: &str, params: Value) {
        let n = t.secdefs.len();
        t.secdefs.insert(format!("k{n}"), MSec { kind: st(kind), params, ..Default::default() });
    }
    let edits: Vec<Edit> = vec![
        |t| t.context = json!(["https://www.w3.org/2019/wot/td/v1", {"a": "b"}]),
        |t| t.context = json!("https://www.w3.org/2019/wot/td/v1"),
        |t| t.context = json!([]),
        |t| t.context = json!({"@language": "en"}),
        |t| t.attype = Some(vec![]),
        |t| t.titles = Some(Default::default()),
        |t| t.descriptions = Some(Default::default()),
        |t| t.properties = Some(Default::default()),
        |t| t.actions = Some(Default::default()),
        |t| t.events = Some(Default::default()),
        |t| t.links = Some(vec![]),
        |t| t.forms = Some(vec![]),
        |t| t.security = vec![],
        |t| t.security = sv(&["undefined", "undefined"]),
        |t| t.profile = Some(vec![]),
        |t| t.urivars = Some(Default::default()),
        |t| t.schemadefs = Some(Default::default()),
        |t| t.version = Some((st(""), Some(st("")))),
        |t| {
            p(t);
        },
        |t| p(t).inter.urivars = Some(Default::default()),
        |t| p(t).observable = Some(false),
        |t| {
            p(t).inter.attype = Some(vec![]);
            p(t).schema.attype = Some(vec![]);
        },
        |t| p(t).schema.sub = Some(MSub::Null),
        |t| p(t).inter.forms.push(MForm { href: st(""), op: Some(vec![]), ..Default::default() }),
        |t| {
            a(t);
        },
        |t| a(t).inter.urivars = Some(Default::default()),
        |t| a(t).input = Some(MSchema::default()),
        |t| a(t).synchronous = Some(false),
        |t| a(t).inter.descriptions = Some(Default::default()),
        |t| {
            e(t);
        },
        |t| e(t).data = Some(MSchema { enumeration: Some(vec![]), ..Default::default() }),
        |t| e(t).data_response = Some(MSchema { constant: Some(json!(null)), ..Default::default() }),
        |t| e(t).inter.title = Some(st("")),
        |t| f(t).op = Some(vec![]),
        |t| f(t).op = Some(sv(&["readproperty", "readproperty", "queryallactions"])),
        |t| f(t).security = Some(vec![]),
        |t| f(t).scopes = Some(vec![]),
        |t| f(t).addresp = Some(vec![]),
        |t| f(t).addresp = Some(vec![MAddResp::default(), MAddResp { success: true, ..Default::default() }]),
        |t| f(t).response = Some((st(""), vec![])),
        |t| l(t).hreflang = Some(vec![]),
        |t| l(t).hreflang = Some(sv(&["en", "en", "it-it"])),
        |t| l(t).sizes = Some(st("1x1")),
        |t| s(t, "combo", json!({"oneOf": []})),
        |t| s(t, "combo", json!({"allOf": ["a", "a", "b"]})),
        |t| s(t, "oauth2", json!({"flow": "f", "scopes": []})),
        |t| s(t, "oauth2", json!({"flow": "f", "scopes": ["a"], "token": "t"})),
        |t| s(t, "psk", json!({"identity": "i"})),
        |t| s(t, "psk", json!({})),
        |t| s(t, "bearer", json!({"in": "header", "alg": "x", "format": "y", "name": ""})),
        |t| s(t, "digest", json!({"in": "header", "qop": "auth-int"})),
        |t| s(t, "apikey", json!({"in": "uri"})),
        |t| s(t, "basic", json!({"in": "cookie", "name": "n"})),
        |t| s(t, "?", json!({})),
        |t| s(t, "?Basic", json!({"in": "header", "other": [1]})),
        |t| s(t, "?x:y", json!({"qop": "no", "oneOf": {}, "a": {"b": [null]}})),
        |t| {
            let mut x = MSec { kind: st("auto"), params: json!({}), ..Default::default() };
            x.attype = Some(vec![]);
            x.descriptions = Some(Default::default());
            t.secdefs.insert(st(""), x);
        },
    ];
    let base = interpret(&prog(vec![TOp::Security(vec![SecOp::Scheme(Scheme::NoSec), SecOp::Required])])).thing;
    of(edits).upto(2).map(move |v| {
        let mut t = base.clone();
        v.iter().for_each(|f| f(&mut t));
        t
    })
}

/// A number or integer schema with two bounds on the same side.
fn two_bounds(case: &(bool, bool, i64, i64)) -> Res {
    let (int, upper, incl, excl) = *case;
    let (k1, k2) = if upper { ("maximum", "exclusiveMaximum") } else { ("minimum", "exclusiveMinimum") };
    let ty = if int { "integer" } else { "number" };
    let mut doc = write(
        &interpret(&prog(vec![TOp::Security(vec![SecOp::Scheme(Scheme::NoSec), SecOp::Required])])).thing,
        Style { scalar: false, defaults: false, ints: false, extra: false },
    );
    doc["uriVariables"] = json!({"x": {"type": ty, k1: incl, k2: excl}});
    let t = match from_value::<Thing<Nil>>(doc.clone()) {
        // Refusing it would be fine.
        Err(e) if e.starts_with("PANIC") => return bad(e),
        Err(_) => return skipped(),
        Ok(t) => t,
    };
    let v = to_value(&t)?;
    let s = &v["uriVariables"]["x"];
    if s[k1].as_f64() != Some(incl as f64) || s[k2].as_f64() != Some(excl as f64) {
        return Err(Bad {
            what: format!("one of two bounds is lost: {} becomes {s}", doc["uriVariables"]["x"]),
            finding: Some("two-bounds-one-side"),
        });
    }
    Ok(Seen { state: digest(&v), steps: 2 })
}

pub fn j03(th: bool) -> Check {
    let mut spaces: Vec<Space> = corpus(th)
        .into_iter()
        .map(|(n, g)| Space::new(n, g, preserved_prog))
        .collect();
    spaces.push(Space::new("similar strings", places(pair_places(), similar_pairs(true)), preserved_lightly));
    spaces.push(Space::new("two members anywhere", g_member_pairs(th), preserved_lightly));
    spaces.push(Space::new("texts of any member", g_member_texts(odd_texts()), preserved_lightly));
    spaces.push(Space::new("any members of a part", g_part_subsets(th), preserved_lightly));
    if th {
        spaces.push(Space::new("three members anywhere", g_member_triples(false), preserved_lightly));
    }
    spaces.push(Space::new(
        "members outside the vocabulary",
        g_rich(if th { 2 } else { 1 })
            .or(&g_affordance_setters(1))
            .or(&g_form_setters(1))
            .or(&g_sec_setters(false))
            .or(&at_sites(&g_schema_nesting(1), &OPEN_SITES))
            .or(&one_with(rich_all)),
        preserved_extra,
    ));
    let sites: Vec<u64> = if th { (0..SCHEMA_SITES).collect() } else { vec![0, 1, 4, 11] };
    spaces.push(Space::new(
        "free schemas",
        g_free_schemas().x(&of(sites)).map(|(s, i)| thing_with(i, s)),
        preserved,
    ));
    spaces.push(Space::new("free documents", g_free_things(), preserved));
    spaces.push(Space::new(
        "two bounds on one side",
        of(vec![false, true]).x(&of(vec![false, true])).x(&of(vec![-1i64, 0, 5])).x(&of(vec![-1i64, 0, 5])).map(
            |(((a, b), c), d)| (a, b, c, d),
        ),
        two_bounds,
    ));
    Check {
        id: "J03",
        spaces,
        assumptions: ASSUME.to_vec(),
        bounds: BOUNDS,
    }
}

// ---------------------------------------------------------------------------------------------
// J01: what a custom security scheme may carry

fn g_custom_security() -> Gen<Prog> {
    let names = ["x:y", "basic", "combo", "nosec", "oauth2", "psk", "Basic", ""];
    of(sv(&names))
        .x(&of(vec![None, Some(json!({})), Some(json!({"in": "query", "flow": "f", "oneOf": ["a"]})), Some(json!(1)),
            Some(json!("x")), Some(json!([])), Some(json!(true)), Some(json!([["scheme", "x"]])), Some(Value::Null)]))
        .map(|(n, d)| {
            let mut ops = vec![SecOp::Scheme(Scheme::Custom(n))];
            ops.extend(d.map(SecOp::Data));
            prog(vec![TOp::Security(ops)])
        })
}

fn custom_security(p: &Prog) -> Res {
    let TOp::Security(ops) = &p.ops[0] else { unreachable!() };
    let known = ["nosec", "auto", "combo", "basic", "digest", "bearer", "psk", "oauth2", "apikey"];
    round_trip::<Nil>(p).map_err(|mut b| {
        for o in ops {
            match o {
                SecOp::Scheme(Scheme::Custom(n)) if known.contains(&n.as_str()) => {
                    b.finding = b.finding.or(Some("custom-scheme-with-known-name"))
                }
                SecOp::Data(d) if !d.is_object() => b.finding = Some("custom-security-data-not-object"),
                _ => {}
            }
        }
        b
    })
}

// ---------------------------------------------------------------------------------------------
// J04

pub type Path = Vec<String>;

pub fn paths(v: &Value) -> Vec<Path> {
    fn go(v: &Value, at: &mut Path, out: &mut Vec<Path>) {
        match v {
            Value::Object(o) => {
                for (k, v) in o {
                    at.push(k.clone());
                    out.push(at.clone());
                    go(v, at, out);
                    at.pop();
                }
            }
            Value::Array(a) => {
                for (i, v) in a.iter().enumerate() {
                    at.push(i.to_string());
                    out.push(at.clone());
                    go(v, at, out);
                    at.pop();
                }
            }
            _ => {}
        }
    }
    let mut out = vec![];
    go(v, &mut vec![], &mut out);
    out
}

fn at<'a>(v: &'a mut Value, path: &[String]) -> Option<&'a mut Value> {
    path.iter().try_fold(v, |v, k| match v {
        Value::Object(o) => o.get_mut(k),
        Value::Array(a) => k.parse::<usize>().ok().and_then(|i| a.get_mut(i)),
        _ => None,
    })
}

/// One change to a document.
#[derive(Clone, Debug, serde::Serialize)]
pub enum Change {
    Delete,
    Put(Value),
    /// Adds a member.
    Add(&'static str, Value),
    /// Gives a member a similar name.
    Rename(u8),
    /// Gives a member another name.
    Name(S),
    /// Replaces a value by a similar one.
    Twist(u8),
    /// Moves a member to the object around its own.
    Raise,
}

pub const RENAMES: u8 = 15;

pub fn similar_name(k: &str, how: u8) -> String {
    let words = |sep: &str| {
        k.chars().fold(String::new(), |mut s, c| {
            if c.is_uppercase() {
                s += sep;
            }
            s.extend(c.to_lowercase());
            s
        })
    };
    let mut c = k.chars();
    let first = c.next().map(String::from).unwrap_or_default();
    match how {
        0 => k.to_uppercase(),
        1 => k.to_lowercase(),
        2 => first.to_uppercase() + c.as_str(),
        3 => words("_"),
        4 => words("-"),
        5 => format!("{k} "),
        6 => format!(" {k}"),
        7 => format!("{k}s"),
        8 => k.strip_suffix('s').unwrap_or(k).to_string(),
        9 => format!("@{k}"),
        10 => k.trim_start_matches('@').to_string(),
        11 => format!("td:{k}"),
        12 => c.as_str().to_string(),
        13 => format!("_{k}"),
        _ => format!("{k}{k}"),
    }
}

const TWISTS: u8 = 16;

/// A value that is similar to another one.
fn similar(v: &Value, how: u8) -> Option<Value> {
    Some(match (v, how) {
        (_, 0) => json!([v]),
        (_, 1) => json!({ "value": v }),
        (_, 2) => json!([v, v]),
        (Value::String(s), _) => json!(match how {
            3..=15 => similar_name(s, how - 3),
            _ => return None,
        }),
        (_, 3) => json!(v.to_string()),
        (Value::Number(n), _) => {
            let f = n.as_f64().unwrap();
            match how {
                4 => json!(f + 0.5),
                5 => json!(-f),
                6 => json!(f),
                7 => json!(f * 1e10),
                8 if f.fract() == 0.0 && f.abs() < 1e15 => json!(f as i64),
                9 => json!([f, f]),
                10 => json!(f != 0.0),
                11 => json!(n.as_i64()?.checked_add(4294967296)?),
                _ => return None,
            }
        }
        (Value::Bool(b), _) => match how {
            4 => json!(!b),
            5 => json!(*b as u8),
            6 => json!(if *b { "yes" } else { "no" }),
            _ => return None,
        },
        (Value::Array(a), _) => match how {
            4 => a.first()?.clone(),
            5 => Value::Array(a.iter().rev().cloned().collect()),
            6 => Value::Array(a.iter().cloned().chain([Value::Null]).collect()),
            7 => Value::Array(a.iter().chain(a).cloned().collect()),
            8 => Value::Object(a.iter().enumerate().map(|(i, v)| (i.to_string(), v.clone())).collect()),
            9 => Value::Array(a.iter().map(|v| json!([v])).collect()),
            10 => json!(a.len()),
            _ => return None,
        },
        (Value::Object(o), _) => match how {
            4 => Value::Array(o.values().cloned().collect()),
            5 => o.values().next()?.clone(),
            6 => json!(o.keys().next()?),
            7 => Value::Array(o.keys().map(|k| json!(k)).collect()),
            8 => Value::Object(o.iter().map(|(k, v)| (k.clone(), json!([v]))).collect()),
            9 => Value::Array(o.iter().map(|(k, v)| json!([k, v])).collect()),
            10 => Value::Object(o.iter().map(|(k, _)| (k.clone(), Value::Null)).collect()),
            11 => Value::Object(o.iter().chain([(&"x".to_string(), &json!(1))]).map(|(k, v)| (k.clone(), v.clone())).collect()),
            _ => return None,
        },
        _ => return None,
    })
}

/// Changes that depend on what they change.
fn similarities() -> Vec<Change> {
    (0..RENAMES).map(Change::Rename).chain((0..TWISTS).map(Change::Twist)).chain([Change::Raise]).collect()
}

pub fn apply(doc: &mut Value, path: &[String], c: &Change) -> bool {
    match c {
        Change::Delete => {
            let Some((last, parent)) = path.split_last() else { return false };
            match at(doc, parent) {
                Some(Value::Object(o)) => o.remove(last).is_some(),
                Some(Value::Array(a)) => match last.parse::<usize>() {
                    Ok(i) if i < a.len() => {
                        a.remove(i);
                        true
                    }
                    _ => false,
                },
                _ => false,
            }
        }
        Change::Put(v) => match at(doc, path) {
            Some(x) if x != v => {
                *x = v.clone();
                true
            }
            _ => false,
        },
        Change::Rename(_) | Change::Name(_) => {
            let Some((last, parent)) = path.split_last() else { return false };
            let name = match c {
                Change::Rename(how) => similar_name(last, *how),
                Change::Name(n) => n.clone(),
                _ => unreachable!(),
            };
            match at(doc, parent) {
                Some(Value::Object(o)) if !o.contains_key(&name) => match o.remove(last) {
                    Some(v) => {
                        o.insert(name, v);
                        true
                    }
                    None => false,
                },
                _ => false,
            }
        }
        Change::Twist(how) => match at(doc, path) {
            Some(x) => match similar(x, *how) {
                Some(v) if v != *x => {
                    *x = v;
                    true
                }
                _ => false,
            },
            None => false,
        },
        Change::Raise => {
            let [around @ .., _, last] = path else { return false };
            let v = match at(doc, &path[..path.len() - 1]) {
                Some(Value::Object(o)) => o.remove(last),
                _ => None,
            };
            match (v, at(doc, around)) {
                (Some(v), Some(Value::Object(o))) if !o.contains_key(last) => {
                    o.insert(last.clone(), v);
                    true
                }
                _ => false,
            }
        }
        Change::Add(k, v) => match at(doc, path) {
            Some(Value::Object(o)) if !o.contains_key(*k) => {
                o.insert(k.to_string(), v.clone());
                true
            }
            _ => false,
        },
    }
}

pub fn changes() -> Vec<Change> {
    let mut v = vec![Change::Delete];
    for x in [
        json!(null), json!(true), json!(false), json!(0), json!(1), json!(-1), json!(2.5), json!(4294967296u64), json!(""),
        json!("x"), json!("en us"), json!("readproperty"), json!("2020-01-01T00:00:00Z"), json!("header"), json!("integer"),
        json!([]), json!(["x"]), json!([1]), json!([[]]), json!([null]), json!([{}]), json!({}), json!({"x": "y"}),
        json!({"x": {}}), json!({"en": "x"}), json!({"scheme": "basic"}), json!({"href": "h"}), json!({"type": "string"}),
    ] {
        v.push(Change::Put(x));
    }
    v
}

/// Members a document must not get, wherever an object is.
pub fn additions() -> Vec<Change> {
    vec![
        Change::Add("title", json!(1)),
        Change::Add("titles", json!({"not a tag": "x"})),
        Change::Add("titles", json!({"en": 1})),
        Change::Add("descriptions", json!([])),
        Change::Add("@type", json!(1)),
        Change::Add("@type", json!(["a", 1])),
        Change::Add("op", json!("Readproperty")),
        Change::Add("op", json!(["readproperty", "unknown"])),
        Change::Add("op", json!(1)),
        Change::Add("security", json!(1)),
        Change::Add("scopes", json!([1])),
        Change::Add("response", json!({})),
        Change::Add("additionalResponses", json!([1])),
        Change::Add("additionalResponses", json!({"success": "x"})),
        Change::Add("readOnly", json!("true")),
        Change::Add("oneOf", json!({})),
        Change::Add("enum", json!(1)),
        Change::Add("safe", json!(1)),
        Change::Add("observable", json!("x")),
        Change::Add("hreflang", json!("not a tag")),
        Change::Add("hreflang", json!(["en", ""])),
        Change::Add("created", json!("2020-01-01")),
        Change::Add("modified", json!(0)),
        Change::Add("version", json!("1")),
        Change::Add("version", json!({"model": "1"})),
        Change::Add("type", json!("strange")),
        Change::Add("minItems", json!(-1)),
        Change::Add("forms", json!({})),
        Change::Add("links", json!([{}])),
        Change::Add("uriVariables", json!([])),
        Change::Add("qop", json!("x")),
        Change::Add("in", json!("x")),
        Change::Add("oneOf", json!(["nosec"])),
        Change::Add("allOf", json!("nosec")),
    ]
}

#[derive(Clone, Debug, serde::Serialize)]
struct Mutant {
    doc: Value,
    changes: Vec<(Path, Change)>,
    /// Some change did nothing.
    void: bool,
}

fn mutants(docs: Vec<Value>, depth: u32, small: bool) -> Gen<Mutant> {
    let mut g: Option<Gen<Mutant>> = None;
    for doc in docs {
        let mut root = vec![vec![]];
        root.extend(paths(&doc));
        let mut c = changes();
        c.extend(similarities());
        let changed = of(paths(&doc)).x(&of(if small { c.into_iter().step_by(5).collect() } else { c }));
        let added = of(root).x(&of(if small { additions().into_iter().step_by(5).collect() } else { additions() }));
        let h = changed.or(&added).exact(depth).map(move |v| {
            let mut d = doc.clone();
            let mut void = false;
            for (p, c) in &v {
                void |= !apply(&mut d, p, c);
            }
            Mutant { doc: d, changes: v, void }
        });
        g = Some(match g {
            None => h,
            Some(g) => g.or(&h),
        });
    }
    g.unwrap()
}

/// Each member under every other name.
fn renamed(docs: Vec<Value>) -> Gen<Mutant> {
    of(docs).sum(|doc| {
        let all: Vec<(Path, S)> = paths(&doc)
            .into_iter()
            .filter(|p| p.last().is_some_and(|k| k.parse::<u32>().is_err()))
            .flat_map(|p| other_names(p.last().unwrap()).into_iter().map(move |n| (p.clone(), n)))
            .collect();
        of(all).map(move |(p, n)| {
            let mut d = doc.clone();
            let c = Change::Name(n);
            // A null counts as absent under one name and may be a value under another.
            let void = at(&mut d, &p).is_none_or(|v| v.is_null()) || !apply(&mut d, &p, &c);
            Mutant { doc: d, changes: vec![(p, c)], void }
        })
    })
}

/// Documents of the members with a few possible values each.
fn enumerated() -> Vec<Value> {
    let base = || {
        json!({
            "@context": "https://www.w3.org/2022/wot/td/v1.1", "title": "t", "security": "k",
            "securityDefinitions": { "k": { "scheme": "nosec" } },
        })
    };
    let mut v = vec![];
    let mut d = base();
    let form = |op: Value| json!([{ "href": "h", "op": op, "additionalResponses": [{ "success": true, "contentType": "c" }] }]);
    d["forms"] = form(json!(["readallproperties", "queryallactions"]));
    d["properties"] = json!({ "p": { "type": "string", "observable": true, "readOnly": true, "forms": form(json!(["readproperty"])) } });
    d["actions"] = json!({ "a": { "safe": true, "idempotent": false, "synchronous": true, "forms": form(json!("invokeaction")) } });
    d["events"] = json!({ "e": { "forms": form(json!(["subscribeevent", "unsubscribeevent"])) } });
    d["created"] = json!("2022-01-02T03:04:05Z");
    d["modified"] = json!("2022-01-02T03:04:05Z");
    v.push(d);
    for s in ["nosec", "auto", "basic", "digest", "apikey", "bearer", "psk", "oauth2", "x:y"] {
        let mut d = base();
        d["securityDefinitions"]["k"] = match s {
            "nosec" | "auto" | "psk" => json!({ "scheme": s }),
            "digest" => json!({ "scheme": s, "in": "cookie", "qop": "auth-int", "name": "n" }),
            "bearer" => json!({ "scheme": s, "in": "query", "alg": "a", "format": "f" }),
            "oauth2" => json!({ "scheme": s, "flow": "code", "scopes": "s" }),
            _ => json!({ "scheme": s, "in": "body", "name": "n" }),
        };
        v.push(d);
    }
    for t in ["string", "integer", "number", "boolean", "null", "array", "object"] {
        let schema = match t {
            "string" => json!({ "type": t, "minLength": 1 }),
            "integer" => json!({ "type": t, "minimum": 1 }),
            "number" => json!({ "type": t, "maximum": 1.5 }),
            "array" => json!({ "type": t, "items": { "type": "null" } }),
            "object" => json!({ "type": t, "properties": { "q": { "type": "boolean" } }, "required": ["q"] }),
            _ => json!({ "type": t, "writeOnly": true }),
        };
        let mut d = base();
        d["properties"] = json!({ "p": schema, "q": { "oneOf": [schema], "forms": [] } });
        d["properties"]["p"]["forms"] = json!([]);
        d["actions"] = json!({ "a": { "input": schema, "forms": [] } });
        d["schemaDefinitions"] = json!({ "s": schema });
        v.push(d);
    }
    v
}

/// Each scalar in place of another.
fn respelled(docs: Vec<Value>, every: bool) -> Gen<Mutant> {
    of(docs).sum(|doc| {
        let all: Vec<Path> = paths(&doc)
            .into_iter()
            .filter(|p| at(&mut doc.clone(), p).is_some_and(|v| !v.is_array() && !v.is_object()))
            .collect();
        of(all).x(&of(other_spellings(every))).map(move |(p, w)| {
            let mut d = doc.clone();
            let c = Change::Put(json!(w));
            let void = !apply(&mut d, &p, &c);
            Mutant { doc: d, changes: vec![(p, c)], void }
        })
    })
}

/// Members of the part of a data schema that is ignored when it is ill-formed.
const SUBTYPE: [&str; 18] = [
    "type", "items", "minItems", "maxItems", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf",
    "properties", "required", "minLength", "maxLength", "pattern", "contentEncoding", "contentMediaType", "true", "false",
];

/// Whether the crate may be lenient about a fault at the place named by the strict reader.
fn lenient(fault: &str) -> bool {
    let place = fault.split(": ").next().unwrap_or("");
    let seg: Vec<&str> = place.split('/').skip(1).collect();
    match seg[..] {
        ["securityDefinitions", _, ..] => true,
        ["links" | "forms", ..] => false,
        _ if seg.contains(&"forms") => false,
        // A data schema, or something in one
        _ => seg.len() > 2 && seg[2..].iter().any(|s| SUBTYPE.contains(s)),
    }
}

/// Whether the fault is a list of members in place of an object (listed finding), at the places where
/// the crate takes one for the other.
fn struct_as_list(fault: &str) -> bool {
    let Some((place, what)) = fault.split_once(": ") else { return false };
    let seg: Vec<&str> = place.split('/').skip(1).collect();
    let object = match seg[..] {
        ["version"] | ["links", _] => true,
        [.., "additionalResponses", _] => true,
        _ => false,
    };
    object && what.starts_with("expected an object, got [")
}

fn has_null(v: &Value) -> bool {
    match v {
        Value::Null => true,
        Value::Array(a) => a.iter().any(has_null),
        Value::Object(o) => o.values().any(has_null),
        _ => false,
    }
}

fn strict(m: &Mutant) -> Res {
    if m.void {
        return skipped();
    }
    // The crate reads back the name that it writes (listed finding of J02).
    let both = |e: &Value| e.get("dataResponse").is_some() && e.get("data_response").is_some();
    if m.doc.get("events").and_then(Value::as_object).is_some_and(|o| o.values().any(both)) {
        return skipped();
    }
    let mut doc = m.doc.clone();
    undo_snake(&mut doc);
    let want = read(&doc, Read { ext: false, unknown: true });
    let got = from_value::<Thing<Nil>>(m.doc.clone());
    match (&got, from_text::<Thing<Nil>>(&m.doc.to_string())) {
        (Err(e), _) if e.starts_with("PANIC") => return bad(format!("parsing panicked: {e}")),
        (_, Err(e)) if e.starts_with("PANIC") => return bad(format!("parsing panicked: {e}")),
        (Ok(a), Ok(b)) => same("the text and the value are parsed differently", &dump::thing(&b), &dump::thing(a))?,
        (Err(_), Err(_)) => {}
        (a, b) => {
            return bad(format!("the text and the value are not both accepted: {:?} {:?}", a.as_ref().err(), b.err()))
        }
    }
    match (want, got) {
        (Ok(w), Ok(t)) => {
            same("parsing loses or changes information", &dump::thing(&t), &w)?;
            Ok(Seen { state: digest(&w), steps: 3 })
        }
        (Ok(_), Err(e)) => bad(format!("a W3C document is rejected: {e}")),
        (Err(w), Err(_)) => Ok(Seen { state: digest(&w), steps: 3 }),
        (Err(w), Ok(t)) => {
            // A null member counts as an absent one.
            let null = m.changes.iter().any(|(_, c)| match c {
                Change::Put(v) | Change::Add(_, v) => has_null(v),
                Change::Twist(how) => [6, 10].contains(how),
                _ => false,
            });
            if !null && !lenient(&w) {
                if struct_as_list(&w) {
                    return Err(Bad {
                        what: format!("a list is accepted in place of an object: {w}"),
                        finding: Some("list-in-place-of-object"),
                    });
                }
                return bad(format!("an ill-formed document is accepted: {w}"));
            }
            // What was made of it is a document nevertheless.
            let d = dump::thing(&t);
            let v = match guard_value(&t)? {
                Some(v) => v,
                None => return Ok(Seen { state: digest(&d), steps: 3 }),
            };
            let again = match from_value::<Thing<Nil>>(v.clone()) {
                Ok(t) => t,
                Err(e) => return bad(format!("what was made of an ill-formed document cannot be read back: {e}")),
            };
            same("reading again changes what was made of an ill-formed document", &dump::thing(&again), &d)?;
            Ok(Seen { state: digest(&d), steps: 5 })
        }
    }
}

fn guard_value(t: &Thing<Nil>) -> Result<Option<Value>, Bad> {
    to_value(t).map(Some)
}

/// Documents of moderate size that together have every member.
pub fn small_docs() -> Vec<Value> {
    let st = Style { scalar: false, defaults: true, ints: false, extra: false };
    let mut v: Vec<Value> = rich_ops()
        .into_iter()
        .map(|o| {
            let mut ops = rich_base();
            ops.push(o);
            write(&interpret(&post(ops)).thing, st)
        })
        .collect();
    // The base members come in every document: keep them in the first only.
    for d in v.iter_mut().skip(1) {
        d.as_object_mut().unwrap().remove("schemaDefinitions");
    }
    v
}

pub fn j04(th: bool) -> Check {
    let mk = |s: bool| {
        write(
            &interpret(&rich_all()).thing,
            Style { scalar: s, defaults: !s, ints: s, extra: false },
        )
    };
    let mut spaces = vec![
        Space::new("one change", mutants(small_docs(), 1, false), strict),
        Space::new("two changes", mutants(small_docs(), 2, !th), strict),
        Space::new("members under other names", renamed(small_docs()), strict),
        Space::new("other enumerated values", respelled(enumerated(), th), strict),
    ];
    let everything = if th { vec![mk(false), mk(true)] } else { vec![mk(true)] };
    spaces.push(Space::new("one change to everything", mutants(everything, 1, false), strict));
    Check {
        id: "J04",
        spaces,
        assumptions: {
            let mut v = ASSUME.to_vec();
            v.push("a member whose value is null counts as absent");
            v.push("the members specific to a data schema type, and those of a security scheme, are ignored / kept as custom data when they are ill-formed");
            v
        },
        bounds: "documents with every member; every single change (delete a member or element, 28 replacements, 34 added members, 15 similar names, 16 similar values, moving a member up) at every place, and pairs of changes",
    }
}
