//! Checks of the ways to start a description, of default values, and of printing and hashing.

use std::{
    collections::hash_map::DefaultHasher,
    fmt::Debug,
    hash::{Hash, Hasher},
};

use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use wot_td::{
    extend::ExtendableThing,
    hlist::{Cons, Nil},
    protocol::{coap, http, mqtt},
    thing::{self, *},
};

use crate::{
    alpha::*,
    atoms::{g_differences, g_member_pairs_once},
    checks_build::*,
    checks_json::*,
    checks_misc::*,
    drive::{self, guard, Real},
    dump::{self, Dumpable},
    engine::{digest, Bad, Check, Res, Seen, Space},
    ext::*,
    gen::*,
    judge::*,
    model::{interpret, MThing},
    prog::*,
};

// ---------------------------------------------------------------------------------------------
// N01: every way to start

fn alike<O>(how: &str, p: &Prog, a: &Real<Thing<O>>, b: &Real<Thing<O>>) -> Result<u64, Bad>
where
    O: Dumpable,
    Thing<O>: PartialEq + Serialize,
{
    match (a, b) {
        (Real::Built(a), Real::Built(b)) => {
            let (x, y) = (dump::thing(a), dump::thing(b));
            same(how, &x, &y)?;
            // A number that is none is not even equal to itself.
            if (a == a) != (a == b) {
                return bad(format!("{how}: the Things are not equal"));
            }
            if let (Ok(x), Ok(y)) = (serde_json::to_value(a), serde_json::to_value(b)) {
                if x != y {
                    return bad(format!("{how}: the JSON differs: {}", diff(&x, &y)));
                }
            }
            Ok(digest(&x))
        }
        (Real::Rejected(a), Real::Rejected(b)) if a == b => Ok(digest(a)),
        // Which of several faults is reported is open.
        (Real::Rejected(a), Real::Rejected(_)) if interpret(p).viols.iter().any(|v| v.keys.contains(a)) => Ok(digest(a)),
        (a, b) => {
            let f = |r: &Real<Thing<O>>| match r {
                Real::Built(_) => "built".to_string(),
                Real::Rejected(e) => format!("rejected with {e}"),
                Real::Panicked(m) => format!("panicked: {m}"),
            };
            bad(format!("{how}: {} instead of {}", f(a), f(b)))
        }
    }
}

fn starts(p: &Prog) -> Res {
    let s = build(p)?;
    let want = drive::run(p);
    alike("started with ThingBuilder::new", p, &drive::run_started(p, false), &want)?;
    alike("started with Thing::builder", p, &drive::run_started(p, true), &want)?;
    Ok(Seen { state: s.state, steps: s.steps * 3 })
}

/// With extensions: `new` gives the default ones.
fn starts_ext(p: &Prog) -> Res {
    let mut q = extify(p, &mut Payload::new(1, 3, p.calls() as usize));
    for o in &mut q.ops {
        if let TOp::Ext(x) = o {
            *x = 0;
        }
    }
    let s = build_ext(&q)?;
    alike("started with ThingBuilder::new", &q, &drive::run_started_ext(&q), &drive::run_ext(&q))?;
    Ok(Seen { state: s.state, steps: s.steps * 2 })
}

fn default_is<T>(what: &str, v: T, json: Value) -> Result<(), Bad>
where
    T: DeserializeOwned + Serialize + PartialEq,
{
    let read: T = match guard(|| serde_json::from_value(json.clone())) {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => return bad(format!("{what}: {json} cannot be read: {e}")),
        Err(m) => return bad(format!("{what}: reading {json} panicked: {m}")),
    };
    if read != v {
        return bad(format!("{what} is not what {json} is read as"));
    }
    let (a, b) = (to_value(&v)?, to_value(&read)?);
    if a != b {
        return bad(format!("{what}: {}", diff(&a, &b)));
    }
    Ok(())
}

fn empty_thing<O>(what: &str) -> Result<(), Bad>
where
    O: ExtendableThing + Default + PartialEq + Dumpable,
{
    let t = Thing::<O>::default();
    let nothing = t.id.is_none()
        && t.attype.is_none()
        && t.title.is_empty()
        && t.titles.is_none()
        && t.description.is_none()
        && t.descriptions.is_none()
        && t.version.is_none()
        && t.created.is_none()
        && t.modified.is_none()
        && t.support.is_none()
        && t.base.is_none()
        && t.properties.is_none()
        && t.actions.is_none()
        && t.events.is_none()
        && t.links.is_none()
        && t.forms.is_none()
        && t.security.is_empty()
        && t.security_definitions.is_empty()
        && t.uri_variables.is_none()
        && t.profile.is_none()
        && t.schema_definitions.is_none()
        && t.other == O::default();
    if nothing {
        Ok(())
    } else {
        bad(format!("the default {what} holds something"))
    }
}

const DEFAULTS: u64 = 31;

fn defaults(i: &u64) -> Res {
    type D = DataSchema<Nil, Nil, Nil>;
    type X = <AB as ExtendableThing>::DataSchema;
    type Y = <AB as ExtendableThing>::ArraySchema;
    type O = <AB as ExtendableThing>::ObjectSchema;
    match i {
        0 => empty_thing::<Nil>("Thing")?,
        1 => empty_thing::<AB>("Thing with extensions")?,
        2 => default_is("InteractionAffordance", InteractionAffordance::<Nil>::default(), json!({"forms": []}))?,
        3 => default_is("InteractionAffordance", InteractionAffordance::<AB>::default(), json!({"forms": []}))?,
        4 => default_is("PropertyAffordance", PropertyAffordance::<Nil>::default(), json!({"forms": []}))?,
        5 => default_is("PropertyAffordance", PropertyAffordance::<AB>::default(), json!({"forms": []}))?,
        6 => default_is("ActionAffordance", ActionAffordance::<Nil>::default(), json!({"forms": []}))?,
        7 => default_is("ActionAffordance", ActionAffordance::<AB>::default(), json!({"forms": []}))?,
        8 => default_is("EventAffordance", EventAffordance::<Nil>::default(), json!({"forms": []}))?,
        9 => default_is("EventAffordance", EventAffordance::<AB>::default(), json!({"forms": []}))?,
        10 => default_is("DataSchema", D::default(), json!({}))?,
        11 => default_is("DataSchema", DataSchema::<X, Y, O>::default(), json!({}))?,
        12 => default_is("ArraySchema", ArraySchema::<Nil, Nil, Nil>::default(), json!({}))?,
        13 => default_is("ObjectSchema", ObjectSchema::<Nil, Nil, Nil>::default(), json!({}))?,
        14 => default_is("NumberSchema", NumberSchema::default(), json!({}))?,
        15 => default_is("IntegerSchema", IntegerSchema::default(), json!({}))?,
        16 => default_is("StringSchema", StringSchema::default(), json!({}))?,
        17 => default_is("SecurityScheme", SecurityScheme::default(), json!({"scheme": "nosec"}))?,
        18 => default_is("BasicSecurityScheme", BasicSecurityScheme::default(), json!({}))?,
        19 => default_is("DigestSecurityScheme", DigestSecurityScheme::default(), json!({}))?,
        20 => default_is("ApiKeySecurityScheme", ApiKeySecurityScheme::default(), json!({}))?,
        21 => default_is("BearerSecurityScheme", BearerSecurityScheme::default(), json!({}))?,
        22 => default_is("PskSecurityScheme", PskSecurityScheme::default(), json!({}))?,
        23 => default_is("OAuth2SecurityScheme", OAuth2SecurityScheme::default(), json!({"flow": ""}))?,
        24 => default_is("Link", Link::default(), json!({"href": ""}))?,
        25 => {
            default_is("Form", Form::<Nil>::default(), json!({"href": ""}))?;
            default_is("Form", Form::<AB>::default(), json!({"href": ""}))?
        }
        26 => default_is("ExpectedResponse", thing::ExpectedResponse::<Nil>::default(), json!({"contentType": ""}))?,
        27 => default_is("AdditionalExpectedResponse", AdditionalExpectedResponse::default(), json!({}))?,
        28 => default_is("VersionInfo", VersionInfo::default(), json!({"instance": ""}))?,
        29 => {
            default_is("coap::Form", coap::Form::default(), json!({}))?;
            default_is("http::Form", http::Form::default(), json!({}))?;
            default_is("mqtt::Form", mqtt::Form::default(), json!({}))?;
            default_is("coap::ExpectedResponse", coap::ExpectedResponse::default(), json!({}))?;
            default_is("http::Response", http::Response::default(), json!({}))?;
            default_is("http::MessageHeader", http::MessageHeader::default(), json!({}))?
        }
        _ => {
            let (d, c) = (DefaultedFormOperations::default(), DefaultedFormOperations::Custom(vec![]));
            if !d.is_default() || c.is_default() || d == c {
                return bad("the default operations are not");
            }
            if to_value(&d)? != Value::Null || from_value::<DefaultedFormOperations>(Value::Null).ok() != Some(d) {
                return bad("the default operations are not written as nothing");
            }
            if QualityOfProtection::default() != QualityOfProtection::Auth {
                return bad("the default protection is not auth");
            }
            if Nil != Nil::from(()) || Nil != Nil::default() {
                return bad("the empty list is not made from nothing");
            }
            <()>::from(Nil);
        }
    }
    Ok(Seen { state: *i, steps: 2 })
}

/// Values made from one string.
fn from_one(s: &String) -> Res {
    for v in [VersionInfo::from(s.as_str()), VersionInfo::from(s.clone()), s.clone().into()] {
        if v.instance != *s || v.model.is_some() {
            return bad(format!("the version made from {s:?} is {v:?}"));
        }
    }
    for o in [OAuth2SecurityScheme::new(s.as_str()), OAuth2SecurityScheme::new(s.clone())] {
        if o.flow != *s || o.authorization.is_some() || o.token.is_some() || o.refresh.is_some() || o.scopes.is_some() {
            return bad(format!("the scheme made from the flow {s:?} is {o:?}"));
        }
    }
    let mut p = prog(vec![]);
    p.title = s.clone();
    starts(&p)?;
    starts_ext(&p)?;
    Ok(Seen { state: digest(s), steps: 7 })
}

pub fn n01(th: bool) -> Check {
    let d = |q: u32, t: u32| if th { t } else { q };
    let all = one_with(rich_all);
    let mut v = vec![
        Space::new("default values", range(DEFAULTS), defaults),
        Space::new("values made from a string", of(odd_texts()), from_one),
    ];
    for (n, g) in [
        ("rich descriptions", g_rich(d(1, 2)).or(&all)),
        ("two members anywhere", g_member_pairs_once()),
        ("metadata", g_meta(d(2, 3))),
        ("affordances", g_affordance_setters(d(1, 2))),
        ("forms", g_form_setters(d(1, 2))),
        ("form operations", g_form_ops(1)),
        ("security", g_security_refs(false)),
        ("security schemes", few(g_sec_setters(false), if th { 1 } else { 5 })),
        ("links", g_link_setters(1).or(&g_link_lists(2))),
        ("schemas", at_sites(&g_schema_setters(0, d(1, 2), 0), &[0, 1])),
    ] {
        v.push(Space::new(n, g.clone(), starts));
        v.push(Space::new(&format!("{n}, extended"), g, starts_ext));
    }
    Check {
        id: "N01",
        spaces: v,
        assumptions: vec!["default values of parts are those read from JSON that has the mandatory members only, with empty text"],
        bounds: "all programs of 9 families from each of the 3 constructors, with no extension or both; the default value of each of 36 types",
    }
}

fn odd_texts() -> Vec<String> {
    let mut v: Vec<String> = ["", " ", "t", "a b ", "\u{0}", "é", "\"", "null", "\u{1F600}", "a\nb", "{}", "//"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    v.push("x".repeat(70_000));
    v.extend(vocabulary_words().iter().map(|s| s.to_string()));
    v
}

// ---------------------------------------------------------------------------------------------
// Q02: printing and hashing

/// The debug output without white space, trailing commas or the order of unordered members.
pub fn normal(text: &str) -> Option<String> {
    fn group(s: &[char], i: &mut usize, close: Option<char>) -> Option<Vec<String>> {
        let (mut items, mut cur) = (vec![], String::new());
        loop {
            let Some(&c) = s.get(*i) else {
                if close.is_some() {
                    return None;
                }
                items.push(cur);
                return Some(items);
            };
            *i += 1;
            match c {
                '"' => {
                    cur.push(c);
                    loop {
                        let c = *s.get(*i)?;
                        *i += 1;
                        cur.push(c);
                        if c == '\\' {
                            cur.push(*s.get(*i)?);
                            *i += 1;
                        } else if c == '"' {
                            break;
                        }
                    }
                }
                '{' | '[' | '(' => {
                    let end = match c {
                        '{' => '}',
                        '[' => ']',
                        _ => ')',
                    };
                    let mut inner = group(s, i, Some(end))?;
                    if c == '{' {
                        inner.sort();
                    }
                    cur.push(c);
                    cur.push_str(&inner.join(","));
                    cur.push(end);
                }
                '}' | ']' | ')' => {
                    if close != Some(c) {
                        return None;
                    }
                    if !cur.is_empty() {
                        items.push(cur);
                    }
                    return Some(items);
                }
                ',' => items.push(std::mem::take(&mut cur)),
                c if c.is_whitespace() => {}
                c => cur.push(c),
            }
        }
    }
    let s: Vec<char> = text.chars().collect();
    let mut i = 0;
    group(&s, &mut i, None).map(|v| v.join(","))
}

fn print<T: Debug>(t: &T) -> Result<String, Bad> {
    let a = guard(|| format!("{t:?}")).map_err(|m| Bad::new(format!("printing panicked: {m}")))?;
    let b = guard(|| format!("{t:#?}")).map_err(|m| Bad::new(format!("printing panicked: {m}")))?;
    match (normal(&a), normal(&b)) {
        (Some(x), Some(y)) if x == y => Ok(x),
        (Some(x), Some(y)) => bad(format!("the two layouts show different things: {x} / {y}")),
        _ => bad(format!("the printed text is not balanced: {a}")),
    }
}

fn prints<O>(v: &[(Thing<O>, MThing)]) -> Result<u64, Bad>
where
    O: Dumpable,
    Thing<O>: Debug,
{
    let mut seen: Vec<(String, &MThing)> = vec![];
    for (i, (t, d)) in v.iter().enumerate() {
        let text = if i == 0 {
            print(t)?
        } else {
            let s = guard(|| format!("{t:?}")).map_err(|m| Bad::new(format!("printing panicked: {m}")))?;
            match normal(&s) {
                Some(s) => s,
                None => return bad(format!("the printed text is not balanced: {s}")),
            }
        };
        seen.push((text, d));
    }
    seen.sort_by(|a, b| a.0.cmp(&b.0));
    for w in seen.windows(2) {
        if w[0].0 == w[1].0 && w[0].1 != w[1].1 {
            return bad(format!("different Things print alike: {}", diff(w[0].1, w[1].1)));
        }
    }
    Ok((v.len() * v.len().saturating_sub(1) / 2) as u64)
}

fn variants_print(case: &(Value, Path)) -> Res {
    if case.0["title"] == "extended" {
        variants_of::<AB>(case)
    } else {
        variants_of::<Nil>(case)
    }
}

fn variants_of<O>(case: &(Value, Path)) -> Res
where
    O: Dumpable,
    Thing<O>: Debug + DeserializeOwned,
{
    let (doc, path) = case;
    let mut v: Vec<(Thing<O>, MThing)> = vec![];
    let mut add = |d: Value| {
        if let Ok(t) = from_value::<Thing<O>>(d) {
            let d = dump::thing(&t);
            v.push((t, d));
        }
    };
    add(doc.clone());
    for c in changes().iter().chain(&additions()) {
        let mut d = doc.clone();
        if apply(&mut d, path, c) {
            add(d);
        }
    }
    let steps = prints(&v)?;
    Ok(Seen { state: digest(case), steps })
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// A copy and what is read back are equal to the original and hash alike.
fn hashes<T>(what: &str, t: &T, n: &mut u64) -> Result<(), Bad>
where
    T: Hash + PartialEq + Clone + Serialize + DeserializeOwned,
{
    *n += 2;
    let c = t.clone();
    if c != *t || hash(&c) != hash(t) {
        return bad(format!("a copy of a {what} is not equal or has another hash"));
    }
    if let Ok(r) = from_value::<T>(to_value(t)?) {
        if r == *t && hash(&r) != hash(t) {
            return bad(format!("a {what} read back is equal and has another hash"));
        }
    }
    Ok(())
}

fn schema_hashes<DS, AS, OS>(s: &DataSchema<DS, AS, OS>, n: &mut u64) -> Result<(), Bad> {
    match &s.subtype {
        Some(DataSchemaSubtype::Integer(i)) => hashes("integer schema", i, n)?,
        Some(DataSchemaSubtype::Array(a)) => match &a.items {
            Some(BoxedElemOrVec::Elem(e)) => schema_hashes(e, n)?,
            Some(BoxedElemOrVec::Vec(v)) => v.iter().try_for_each(|s| schema_hashes(s, n))?,
            None => {}
        },
        Some(DataSchemaSubtype::Object(o)) => {
            o.properties.iter().flatten().try_for_each(|(_, s)| schema_hashes(s, n))?
        }
        _ => {}
    }
    s.one_of.iter().flatten().try_for_each(|s| schema_hashes(s, n))
}

fn form_hashes(f: &Form<Nil>, n: &mut u64) -> Result<(), Bad> {
    hashes("set of operations", &f.op, n)?;
    if let DefaultedFormOperations::Custom(v) = &f.op {
        v.iter().try_for_each(|o| hashes("operation", o, n))?;
    }
    Ok(())
}

fn hashed(p: &Prog) -> Res {
    let Some(t) = built::<Nil>(p) else { return skipped() };
    let mut n = 0;
    t.version.iter().try_for_each(|v| hashes("version", v, &mut n))?;
    t.links.iter().flatten().try_for_each(|v| hashes("link", v, &mut n))?;
    for s in t.security_definitions.values() {
        if let SecuritySchemeSubtype::Known(k) = &s.subtype {
            hashes("security scheme", k, &mut n)?;
            match k {
                KnownSecuritySchemeSubtype::Basic(x) => hashes("basic scheme", x, &mut n)?,
                KnownSecuritySchemeSubtype::Digest(x) => hashes("digest scheme", x, &mut n)?,
                KnownSecuritySchemeSubtype::ApiKey(x) => hashes("API key scheme", x, &mut n)?,
                KnownSecuritySchemeSubtype::Bearer(x) => hashes("bearer scheme", x, &mut n)?,
                KnownSecuritySchemeSubtype::Psk(x) => hashes("PSK scheme", x, &mut n)?,
                KnownSecuritySchemeSubtype::OAuth2(x) => hashes("OAuth2 scheme", x, &mut n)?,
                KnownSecuritySchemeSubtype::Combo(x) => hashes("combo scheme", x, &mut n)?,
                _ => {}
            }
        }
    }
    t.forms.iter().flatten().try_for_each(|f| form_hashes(f, &mut n))?;
    for p in t.properties.iter().flatten() {
        p.1.interaction.forms.iter().try_for_each(|f| form_hashes(f, &mut n))?;
        schema_hashes(&p.1.data_schema, &mut n)?;
    }
    for a in t.actions.iter().flatten() {
        a.1.interaction.forms.iter().try_for_each(|f| form_hashes(f, &mut n))?;
        a.1.input.iter().chain(&a.1.output).try_for_each(|s| schema_hashes(s, &mut n))?;
    }
    for e in t.events.iter().flatten() {
        e.1.interaction.forms.iter().try_for_each(|f| form_hashes(f, &mut n))?;
        let e = &e.1;
        [&e.subscription, &e.data, &e.data_response, &e.cancellation]
            .into_iter()
            .flatten()
            .try_for_each(|s| schema_hashes(s, &mut n))?;
    }
    t.schema_definitions.iter().flatten().try_for_each(|s| schema_hashes(s.1, &mut n))?;
    t.uri_variables.iter().flatten().try_for_each(|s| schema_hashes(s.1, &mut n))?;
    Ok(Seen { state: digest(&dump::thing(&t)), steps: n })
}

/// What is printed for a Thing shows each text declared.
fn shown(p: &Prog) -> Res {
    let Some(t) = built::<Nil>(p) else { return skipped() };
    let d = dump::thing(&t);
    prints(&[(t, d.clone())])?;
    Ok(Seen { state: digest(&d), steps: 2 })
}

pub fn q02(th: bool) -> Check {
    let d = |q: u32, t: u32| if th { t } else { q };
    let docs = small_docs();
    let mut cases: Vec<(Value, Path)> = vec![];
    let mut extended = vec![];
    let g = one_with(rich_all);
    for i in 0..g.len {
        let p = extify(&g.get(i), &mut Payload::new(7, 8, 0));
        if let Some(t) = built::<AB>(&p) {
            let Ok(mut v) = to_value(&t) else { continue };
            v["title"] = json!("extended");
            extended.push(v);
        }
    }
    for doc in docs.iter().chain(&extended) {
        let mut ps = paths(doc);
        ps.push(vec![]);
        cases.extend(ps.into_iter().map(|p| (doc.clone(), p)));
    }
    let mut spaces = vec![Space::new("variants of documents", of(cases), variants_print)];
    let limit = if th { 2000 } else { 500 };
    for (n, g) in [
        ("rich descriptions", g_rich(1).or(&g)),
        ("metadata", g_meta(d(1, 2))),
        ("affordances", g_affordance_setters(1)),
        ("forms", g_form_setters(1)),
        ("security schemes", few(g_sec_setters(false), if th { 3 } else { 17 })),
        ("links", g_link_setters(d(1, 2))),
        ("schemas", at_sites(&g_schema_setters(0, 1, 0), &[0, 1]).or(&at_sites(&g_schema_nesting(1), &[4]))),
        ("bounds", few(at_sites(&bound_leaves(), &[0]), if th { 3 } else { 11 })),
    ] {
        let (known, _) = all_pairs(g.clone(), limit);
        let printed: Vec<Result<String, String>> = known.iter().map(|t| print(&t.0).map_err(|b| b.what)).collect();
        let n_known = known.len() as u64;
        spaces.push(Space::new(&format!("pairs of {n}"), range(n_known), move |i: &u64| {
            let me = printed[*i as usize].clone().map_err(Bad::new)?;
            for j in 0..*i as usize {
                if printed[j].as_ref() == Ok(&me) && known[j].1 != known[*i as usize].1 {
                    return bad(format!("different Things print alike: {}", diff(&known[j].1, &known[*i as usize].1)));
                }
            }
            Ok(Seen { state: digest(&me), steps: *i })
        }));
        spaces.push(Space::new(&format!("hashes of {n}"), g, hashed));
    }
    spaces.push(Space::new("differences beside any member", g_differences(), |(a, b): &(Prog, Prog)| {
        if let (Some(x), Some(y)) = (built::<Nil>(a), built::<Nil>(b)) {
            let (p, q) = (print(&x)?, print(&y)?);
            let (d, e) = (dump::thing(&x), dump::thing(&y));
            if p == q && d != e {
                return bad(format!("different Things print alike: {}", diff(&d, &e)));
            }
        }
        Ok(Seen { state: digest(&(a, b)), steps: 2 })
    }));
    Check {
        id: "Q02",
        spaces,
        assumptions: vec!["the printed text is compared without white space and without regard to the order of members of maps"],
        bounds: "all pairs of variants (<= 62) of 57 documents at every place; all pairs of <= 500 (2000) different Things of 8 families, in both layouts; copies and reread values of 14 hashable types in these families",
    }
}
