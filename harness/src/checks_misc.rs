//! Checks of schemas on their own, bounds, protocol bindings, equality and error messages.

use std::{
    cmp::Ordering::{self, *},
    sync::Arc,
};

use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use wot_td::{
    extend::ExtendableThing,
    hlist::{Cons, Nil},
    protocol::{coap, http, mqtt},
    thing::{self, DataSchema, Form, Maximum, Minimum, Thing},
};

use crate::{
    alpha::*,
    atoms::{g_differences, g_fault_beside, g_member_schemas, text_places},
    checks_build::*,
    checks_json::*,
    drive::{self, guard, Real},
    dump,
    engine::{digest, Bad, Check, Res, Seen, Space},
    ext::*,
    gen::*,
    judge::*,
    model::{interpret, schema_violations, Ext, MThing},
    prog::*,
};

// ---------------------------------------------------------------------------------------------
// D04: data schemas on their own

fn finished_first(s: &Schema) -> Schema {
    let mut v = vec![SOp::Finish];
    v.extend(s.iter().filter(|o| **o != SOp::Finish).cloned());
    v
}

fn alone(s: &Schema) -> Res {
    let ops = finished_first(s);
    let want = crate::model::schema(&ops);
    let viols = schema_violations(&want);
    let tags: Vec<&S> = viols
        .iter()
        .flat_map(|v| &v.keys)
        .filter(|k| k.starts_with("InvalidLanguageTag"))
        .collect();
    let got = match drive::alone(&ops) {
        Real::Panicked(m) => return bad(format!("the builder panicked: {m}")),
        Real::Rejected(k) => {
            if !viols.iter().any(|v| v.keys.contains(&k)) {
                return bad(format!("rejected with {k}, but the faults are {viols:?}"));
            }
            return Ok(Seen { state: digest(&k), steps: ops.len() as u64 });
        }
        Real::Built(d) => d,
    };
    if !tags.is_empty() {
        return bad(format!("accepted in spite of {tags:?}"));
    }
    let seen = dump::schema(&got);
    if seen != want {
        return bad(format!("the schema is not what was declared: {}", diff(&seen, &want)));
    }
    let copy = guard(|| got.clone()).map_err(Bad::new)?;
    if dump::schema(&copy) != want {
        return bad("a copy differs");
    }
    let nan = format!("{want:?}").contains("NaN");
    if !nan && copy != got {
        return bad("a copy is not equal");
    }
    if nan || !viols.is_empty() {
        // It may be refused later.
        return Ok(Seen { state: digest(&format!("{want:?}")), steps: ops.len() as u64 });
    }
    let v = to_value(&got)?;
    // The same schema in a Thing
    match built::<Nil>(&post(vec![at_schema(4, "x", ops.clone())])) {
        None => return bad("the schema is accepted alone and rejected in a Thing"),
        Some(t) => {
            let w = &to_value(&t)?["events"]["x"]["data"];
            if *w != v {
                return bad(format!("the JSON differs in a Thing: {}", diff(&v, w)));
            }
        }
    }
    if !format!("{want:?}").contains("inf") {
        for r in [from_value::<DataSchema<Nil, Nil, Nil>>(v.clone()), from_text(&v.to_string())] {
            match r {
                Ok(d) if dump::schema(&d) == want => {}
                Ok(d) => return bad(format!("reading it back changes it: {}", diff(&dump::schema(&d), &want))),
                Err(e) => return bad(format!("it cannot be read back: {e}")),
            }
        }
    }
    Ok(Seen { state: digest(&v), steps: ops.len() as u64 + 5 })
}

pub fn d04(th: bool) -> Check {
    let d = |q: u32, t: u32| if th { t } else { q };
    let tags = of(vec!["en", "EN", "x", "", "en us", "de-DE-1996", "-", "é"])
        .x(&range(3))
        .x(&range(CONTAINERS).upto(d(2, 3)))
        .map(|((t, how), chain)| {
            let m = match how {
                0 => mp(&[(t, "x")]),
                1 => mp(&[("it", "y"), (t, "x")]),
                _ => mp(&[(t, "x"), ("it", "y")]),
            };
            let mut s = k(Kind::Bool);
            s.push(SOp::I(if how == 1 { IOp::Descs(m) } else { IOp::Titles(m) }));
            chain.into_iter().fold(s, |s, c| wrap(c, s))
        });
    Check {
        id: "D04",
        spaces: vec![
            Space::new("setters", g_schema_setters(1, d(2, 3), 1), alone),
            Space::new("children", g_schema_children(d(2, 3)), alone),
            Space::new("nesting", g_schema_nesting(d(2, 3)), alone),
            Space::new("members of schemas", g_member_schemas(), alone),
            Space::new("bounds", bound_leaves(), alone),
            Space::new("language tags", tags, alone),
        ],
        assumptions: vec!["whether a schema with contradictory bounds is rejected already on its own is left open"],
        bounds: "chains of <= 2 (3) setters of every kind of schema, containers nested <= 2 (3) deep, <= 2 (3) children, all pairs of extreme bounds",
    }
}

// ---------------------------------------------------------------------------------------------
// O01: bounds

/// What the order of two bounds must be, from the values they admit.
#[derive(Clone, Copy, Debug, Serialize)]
struct B<T> {
    excl: bool,
    v: T,
}

fn min<T>(b: B<T>) -> Minimum<T> {
    if b.excl {
        Minimum::Exclusive(b.v)
    } else {
        Minimum::Inclusive(b.v)
    }
}

fn max<T>(b: B<T>) -> Maximum<T> {
    if b.excl {
        Maximum::Exclusive(b.v)
    } else {
        Maximum::Inclusive(b.v)
    }
}

/// Lower bounds: `inclusive x` is just below `exclusive x`.
fn min_min(a: bool, b: bool, o: Option<Ordering>) -> Option<Ordering> {
    match (a, b) {
        (false, true) => o.and_then(|o| (o != Greater).then_some(Less)),
        (true, false) => o.and_then(|o| (o != Less).then_some(Greater)),
        _ => o,
    }
}

/// Upper bounds: `exclusive x` is just below `inclusive x`.
fn max_max(a: bool, b: bool, o: Option<Ordering>) -> Option<Ordering> {
    min_min(!a, !b, o)
}

fn min_max(a: bool, b: bool, o: Option<Ordering>) -> Option<Ordering> {
    if a == b {
        o
    } else {
        o.and_then(|o| (o != Less).then_some(Greater))
    }
}

fn order<T: Copy + PartialOrd + std::fmt::Debug>(a: B<T>, b: B<T>) -> Res {
    let o = a.v.partial_cmp(&b.v);
    let same_kind = a.excl == b.excl;
    let eq = same_kind && a.v == b.v;
    macro_rules! check {
        ($x:expr, $y:expr, $want:expr, $what:literal) => {{
            let (x, y) = ($x, $y);
            let want: Option<Ordering> = $want;
            if x.partial_cmp(&y) != want {
                return bad(format!("{} {x:?} and {y:?} compare as {:?}, expected {want:?}", $what, x.partial_cmp(&y)));
            }
            let ops = [x < y, x <= y, x > y, x >= y];
            let wants = [
                want == Some(Less),
                matches!(want, Some(Less | Equal)),
                want == Some(Greater),
                matches!(want, Some(Greater | Equal)),
            ];
            if ops != wants {
                return bad(format!("{} {x:?} and {y:?}: < <= > >= are {ops:?}", $what));
            }
            if (x == y) != eq || (x != y) == eq {
                return bad(format!("{} {x:?} == {y:?} is not {eq}", $what));
            }
        }};
    }
    let rev = |o: Option<Ordering>| o.map(Ordering::reverse);
    check!(min(a), min(b), min_min(a.excl, b.excl, o), "lower bounds");
    check!(max(a), max(b), max_max(a.excl, b.excl, o), "upper bounds");
    check!(min(a), max(b), min_max(a.excl, b.excl, o), "lower and upper bound");
    check!(max(b), min(a), rev(min_max(a.excl, b.excl, o)), "upper and lower bound");
    Ok(Seen { state: digest(&format!("{o:?} {} {}", a.excl, b.excl)), steps: 24 })
}

/// The order of bounds of one kind is transitive.
fn transitive<T: Copy + PartialOrd + std::fmt::Debug>(a: B<T>, b: B<T>, c: B<T>) -> Res {
    if min(a) <= min(b) && min(b) <= min(c) && !(min(a) <= min(c)) {
        return bad(format!("lower bounds {a:?} {b:?} {c:?}"));
    }
    if max(a) <= max(b) && max(b) <= max(c) && !(max(a) <= max(c)) {
        return bad(format!("upper bounds {a:?} {b:?} {c:?}"));
    }
    Ok(Seen { state: 0, steps: 6 })
}

fn bounds_of<T: Clone + Send + Sync + 'static>(v: Vec<T>) -> Gen<B<T>> {
    of(vec![false, true]).x(&of(v)).map(|(excl, v)| B { excl, v })
}

fn form_of<T>(b: &B<T>) -> Res
where
    T: Copy + PartialEq + std::fmt::Debug + Serialize + for<'a> Deserialize<'a> + PartialOrd,
{
    let (n, x) = (
        if b.excl { "exclusiveMinimum" } else { "minimum" },
        if b.excl { "exclusiveMaximum" } else { "maximum" },
    );
    let v = json!({ n: b.v });
    if to_value(&min(*b))? != v {
        return bad(format!("the JSON of the lower bound {b:?}"));
    }
    if from_value::<Minimum<T>>(v.clone()) != Ok(min(*b)) || from_text::<Minimum<T>>(&v.to_string()) != Ok(min(*b)) {
        return bad(format!("the lower bound {b:?} is not read back"));
    }
    let v = json!({ x: b.v });
    if to_value(&max(*b))? != v {
        return bad(format!("the JSON of the upper bound {b:?}"));
    }
    if from_value::<Maximum<T>>(v.clone()) != Ok(max(*b)) || from_text::<Maximum<T>>(&v.to_string()) != Ok(max(*b)) {
        return bad(format!("the upper bound {b:?} is not read back"));
    }
    for wrong in [json!({}), json!({"Minimum": 1}), json!({n: "x"}), json!({n: 1, "maximum": 2}), json!({x: null}), json!([1])] {
        if from_value::<Minimum<T>>(wrong.clone()).is_ok() || from_value::<Maximum<T>>(wrong.clone()).is_ok() {
            return bad(format!("a bound is read from {wrong}"));
        }
    }
    Ok(Seen { state: digest(&v), steps: 20 })
}

fn nan<T: Copy>(b: &B<T>, is: bool, lo: impl Fn(Minimum<T>) -> bool, hi: impl Fn(Maximum<T>) -> bool) -> Res {
    if lo(min(*b)) != is || hi(max(*b)) != is {
        return bad("is_nan");
    }
    Ok(Seen { state: is as u64, steps: 2 })
}

fn fs() -> Vec<f64> {
    vec![
        f64::NEG_INFINITY, f64::MIN, -1e10, -1.5, -1.0, -f64::EPSILON, -f64::MIN_POSITIVE, -5e-324, -0.0, 0.0, 5e-324,
        f64::MIN_POSITIVE, f64::EPSILON, 0.1, 1.0, 1.0 + f64::EPSILON, 1.5, 2.0, 9007199254740992.0, 9007199254740994.0, 1e300,
        f64::MAX, f64::INFINITY, f64::NAN, -f64::NAN,
    ]
}

fn is() -> Vec<i64> {
    vec![
        i64::MIN, i64::MIN + 1, -9007199254740993, -65536, -2, -1, 0, 1, 2, 3, 255, 256, 65536, 4294967296, 9007199254740992,
        9007199254740993, i64::MAX - 1, i64::MAX,
    ]
}

pub fn o01(th: bool) -> Check {
    let small: Vec<u8> = if th { (0..=255).collect() } else { (0..=63).chain(192..=255).collect() };
    let f32s: Vec<f32> = fs().into_iter().map(|x| x as f32).collect();
    let bf = || bounds_of(fs());
    let bi = || bounds_of(is());
    let pair = |(a, b)| order(a, b);
    let _ = pair as fn((B<u8>, B<u8>)) -> Res;
    Check {
        id: "O01",
        spaces: vec![
            Space::new("all small integers", bounds_of(small.clone()).x(&bounds_of(small)), |p: &(B<u8>, B<u8>)| order(p.0, p.1)),
            Space::new("integers", bi().x(&bi()), |p: &(B<i64>, B<i64>)| order(p.0, p.1)),
            Space::new("floats", bf().x(&bf()), |p: &(B<f64>, B<f64>)| order(p.0, p.1)),
            Space::new("single floats", bounds_of(f32s.clone()).x(&bounds_of(f32s.clone())), |p: &(B<f32>, B<f32>)| order(p.0, p.1)),
            Space::new("transitivity, integers", bi().exact(3), |v: &Vec<B<i64>>| transitive(v[0], v[1], v[2])),
            Space::new("transitivity, floats", bf().exact(3), |v: &Vec<B<f64>>| transitive(v[0], v[1], v[2])),
            Space::new("NaN", bf(), |b: &B<f64>| nan(b, b.v.is_nan(), |m| m.is_nan(), |m| m.is_nan())),
            Space::new("single NaN", bounds_of(f32s), |b: &B<f32>| nan(b, b.v.is_nan(), |m| m.is_nan(), |m| m.is_nan())),
            Space::new("JSON, integers", bi(), form_of),
            Space::new("JSON, floats", bounds_of(fs().into_iter().filter(|x| x.is_finite()).collect()), form_of),
        ],
        assumptions: vec!["for limits outside the lists, comparison depends on the limits' own order only (the types are generic)"],
        bounds: "all pairs of bounds of both kinds over 128 (256) integers, 18 extreme 64-bit integers, 25 floats with both zeros, infinities and NaN; all triples of the latter",
    }
}

// ---------------------------------------------------------------------------------------------
// P01: protocol bindings

fn opts<T: Clone + Send + Sync + 'static>(v: Vec<T>) -> Gen<Option<T>> {
    of(v).opt()
}

/// A value and the members it must have in JSON.
type Pair<T> = (T, Map<String, Value>);

fn put<T: Serialize>(o: &mut Map<String, Value>, k: &str, v: &Option<T>) {
    if let Some(v) = v {
        o.insert(k.into(), json!(v));
    }
}

const COAP_METHODS: [(coap::Method, &str); 7] = [
    (coap::Method::Get, "GET"),
    (coap::Method::Put, "PUT"),
    (coap::Method::Post, "POST"),
    (coap::Method::Delete, "DELETE"),
    (coap::Method::Patch, "PATCH"),
    (coap::Method::Fetch, "FETCH"),
    (coap::Method::Ipatch, "iPATCH"),
];

const SIZES: [(coap::BlockSize, u16); 7] = [
    (coap::BlockSize::Size16, 16),
    (coap::BlockSize::Size32, 32),
    (coap::BlockSize::Size64, 64),
    (coap::BlockSize::Size128, 128),
    (coap::BlockSize::Size256, 256),
    (coap::BlockSize::Size512, 512),
    (coap::BlockSize::Size1024, 1024),
];

fn blockwise(full: bool) -> Gen<Option<Pair<coap::BlockWiseTransferParameters>>> {
    let sizes = if full { SIZES.to_vec() } else { vec![SIZES[0], SIZES[6]] };
    opts(sizes.clone())
        .x(&opts(sizes))
        .map(|(b2, b1)| {
            let mut o = Map::new();
            put(&mut o, "cov:block2Size", &b2.map(|b| b.1));
            put(&mut o, "cov:block1Size", &b1.map(|b| b.1));
            let mut p = coap::BlockWiseTransferParameters::default();
            p.block2_size = b2.map(|b| b.0);
            p.block1_size = b1.map(|b| b.0);
            (p, o)
        })
        .opt()
}

fn coap_forms(th: bool) -> Gen<Pair<coap::Form>> {
    opts(COAP_METHODS.to_vec())
        .x(&blockwise(true))
        .x(&blockwise(th))
        .x(&opts(vec![0u8, 1, 255]))
        .x(&opts(vec![0u16, 60, 65535]))
        .x(&opts(vec![0u16, 110, 65535]))
        .map(|(((((m, b), q), h), a), c)| {
            let mut o = Map::new();
            put(&mut o, "cov:method", &m.map(|m| m.1));
            put(&mut o, "cov:blockwise", &b.as_ref().map(|b| b.1.clone()));
            put(&mut o, "cov:qblockwise", &q.as_ref().map(|b| b.1.clone()));
            put(&mut o, "cov:hopLimit", &h);
            put(&mut o, "cov:accept", &a);
            put(&mut o, "cov:contentFormat", &c);
            let mut f = coap::Form::default();
            f.method = m.map(|m| m.0);
            f.blockwise = b.map(|b| b.0);
            f.qblockwise = q.map(|b| b.0);
            f.hop_limit = h;
            f.accept = a;
            f.content_format = c;
            (f, o)
        })
}

/// All methods, with few values of the other members.
fn coap_few() -> Gen<Pair<coap::Form>> {
    let all = coap_forms(false);
    let keep = |p: &Pair<coap::Form>| {
        let few = |v: Option<u64>, last: u64| v.is_none_or(|v| v == last);
        let block = |k: &str| match p.1.get(k) {
            None => true,
            Some(v) => v.as_object().is_some_and(|o| o.is_empty() || o.len() == 2 && o.values().all(|x| *x == json!(1024))),
        };
        block("cov:blockwise")
            && block("cov:qblockwise")
            && few(p.0.hop_limit.map(u64::from), 255)
            && few(p.0.accept.map(u64::from), 65535)
            && few(p.0.content_format.map(u64::from), 65535)
    };
    of((0..all.len).map(|i| all.get(i)).filter(keep).collect::<Vec<_>>())
}

fn coap_responses() -> Gen<Pair<coap::ExpectedResponse>> {
    opts(vec![0u16, 60, 65535]).map(|c| {
        let mut o = Map::new();
        put(&mut o, "cov:contentFormat", &c);
        let mut r = coap::ExpectedResponse::default();
        r.content_format = c;
        (r, o)
    })
}

const HTTP_METHODS: [(http::Method, &str); 5] = [
    (http::Method::Get, "GET"),
    (http::Method::Put, "PUT"),
    (http::Method::Post, "POST"),
    (http::Method::Delete, "DELETE"),
    (http::Method::Patch, "PATCH"),
];

fn http_forms() -> Gen<Pair<http::Form>> {
    opts(HTTP_METHODS.to_vec()).map(|m| {
        let mut o = Map::new();
        put(&mut o, "htv:methodName", &m.map(|m| m.1));
        let mut f = http::Form::default();
        f.method_name = m.map(|m| m.0);
        (f, o)
    })
}

fn http_responses(n: u32) -> Gen<Pair<http::Response>> {
    let header = opts(sv(&["", "Link", "X-é"])).x(&opts(sv(&["", "v"]))).map(|(n, v)| {
        let mut o = Map::new();
        put(&mut o, "htv:fieldName", &n);
        put(&mut o, "htv:fieldValue", &v);
        let mut h = http::MessageHeader::default();
        h.field_name = n;
        h.field_value = v;
        (h, o)
    });
    header.upto(n).x(&opts(vec![0usize, 200, 404, usize::MAX])).map(|(hs, s)| {
        let mut o = Map::new();
        let (hs, js): (Vec<_>, Vec<_>) = hs.into_iter().unzip();
        if !js.is_empty() {
            o.insert("htv:headers".into(), json!(js));
        }
        put(&mut o, "htv:statusCodeValue", &s);
        let mut r = http::Response::default();
        r.headers = hs;
        r.status_code_value = s;
        (r, o)
    })
}

fn mqtt_forms(n: u32) -> Gen<Pair<mqtt::Form>> {
    let packets = [
        (mqtt::ControlPacket::Publish, "mqv:publish"),
        (mqtt::ControlPacket::Subscribe, "mqv:subscribe"),
        (mqtt::ControlPacket::Unsubscribe, "mqv:unsubscribe"),
    ];
    let qos = [
        (mqtt::QoS::AtMostOnce, "quality:0"),
        (mqtt::QoS::AtLeastOnce, "quality:1"),
        (mqtt::QoS::ExactlyOnce, "quality:2"),
    ];
    of(vec![false, true])
        .x(&opts(packets.to_vec()))
        .x(&opts(qos.to_vec()))
        .x(&opts(sv(&["", "a/b", "#"])))
        .x(&of(sv(&["", "a/+", "#"])).upto(n))
        .map(|((((r, p), q), t), f)| {
            let mut o = Map::new();
            if r {
                o.insert("mqv:retain".into(), json!(true));
            }
            put(&mut o, "mqv:controlPacket", &p.map(|p| p.1));
            put(&mut o, "mqv:qos", &q.map(|q| q.1));
            put(&mut o, "mqv:topic", &t);
            match &f[..] {
                [] => {}
                [one] => {
                    o.insert("mqv:filter".into(), json!(one));
                }
                _ => {
                    o.insert("mqv:filter".into(), json!(f));
                }
            }
            let mut x = mqtt::Form::default();
            x.retain = r;
            x.control_packet = p.map(|p| p.0);
            x.qos = q.map(|q| q.0);
            x.topic = t;
            x.filter = f;
            (x, o)
        })
}

/// Both ways between `x` and the JSON object `o`. One-element lists may be written either way.
fn both<T>(what: &str, x: &T, o: &Map<String, Value>) -> Result<(), Bad>
where
    T: Serialize + for<'a> Deserialize<'a> + PartialEq + std::fmt::Debug,
{
    let doc = Value::Object(o.clone());
    let v = to_value(x)?;
    let listed = |v: &Value| {
        let mut v = v.clone();
        if let Some(f) = v.get_mut("mqv:filter") {
            if f.is_string() {
                *f = json!([f]);
            }
        }
        v
    };
    if listed(&v) != listed(&doc) {
        return bad(format!("{what}: written as {v}, expected {doc}"));
    }
    let mut unknown = doc.clone();
    unknown["x:unknown"] = json!({"cov:method": 1});
    for d in [doc.clone(), listed(&doc), v, unknown] {
        match from_value::<T>(d.clone()) {
            Ok(y) if y == *x => {}
            r => return bad(format!("{what}: {d} is read as {r:?}")),
        }
        match from_text::<T>(&d.to_string()) {
            Ok(y) if y == *x => {}
            r => return bad(format!("{what}: the text {d} is read as {r:?}")),
        }
    }
    Ok(())
}

/// `x` in a Form of the protocol.
fn in_form<O>(what: &str, f: &Pair<O::Form>, r: &Option<Pair<O::ExpectedResponse>>) -> Result<(), Bad>
where
    O: ExtendableThing,
    O::Form: Clone + PartialEq + std::fmt::Debug,
    O::ExpectedResponse: Clone + PartialEq + std::fmt::Debug,
    Form<O>: Serialize + for<'a> Deserialize<'a> + Clone,
{
    let mut o = f.1.clone();
    o.insert("href".into(), json!("h"));
    o.insert("contentType".into(), json!("c"));
    if let Some(r) = r {
        let mut ro = r.1.clone();
        ro.insert("contentType".into(), json!("rc"));
        o.insert("response".into(), Value::Object(ro));
    }
    let doc = Value::Object(o);
    for (i, d) in [from_value::<Form<O>>(doc.clone()), from_text::<Form<O>>(&doc.to_string())].into_iter().enumerate() {
        let form = match d {
            Ok(f) => f,
            Err(e) => return bad(format!("{what}: the form {doc} is rejected: {e}")),
        };
        for form in [form.clone(), form] {
            if form.other != f.0 {
                return bad(format!("{what}: the form {doc} is read as {:?} ({i})", form.other));
            }
            if form.href != "h" || form.content_type.as_deref() != Some("c") {
                return bad(format!("{what}: the form {doc} loses its own members"));
            }
            match (&form.response, r) {
                (None, None) => {}
                (Some(a), Some(b)) if a.content_type == "rc" && a.other == b.0 => {}
                (a, _) => return bad(format!("{what}: the response of {doc} is read as {:?}", a.as_ref().map(|a| &a.other))),
            }
            let v = to_value(&form)?;
            if v != doc {
                return bad(format!("{what}: the form {doc} is written as {v}"));
            }
        }
    }
    Ok(())
}

fn pair_json<T>(p: &T) -> Res
where
    T: Serialize,
{
    Ok(Seen { state: digest(p), steps: 12 })
}

type Stack = Cons<coap::CoapProtocol, Cons<http::HttpProtocol, Cons<mqtt::MqttProtocol, Nil>>>;

impl ExtDump for () {
    fn dump(&self) -> Ext {
        vec![]
    }
}

macro_rules! plain_dump {
    ($($t:ty),*) => {$(
        impl ExtDump for $t {
            fn dump(&self) -> Ext {
                vec![json!(format!("{self:?}"))]
            }
        }
    )*};
}

plain_dump!(
    coap::Form, coap::ExpectedResponse, coap::CoapProtocol, http::Form, http::Response, http::HttpProtocol, mqtt::Form,
    mqtt::MqttProtocol
);

#[derive(Clone, Debug, Serialize)]
struct Full {
    coap: Pair<coap::Form>,
    coap_response: Pair<coap::ExpectedResponse>,
    http: Pair<http::Form>,
    http_response: Pair<http::Response>,
    mqtt: Pair<mqtt::Form>,
}

/// A Thing whose forms use the three protocols, built and parsed.
fn stacked(x: &Full) -> Res {
    use wot_td::{builder::*, extend::Extend};
    type FB = FormBuilder<Stack, (), Nil>;
    type FO = <Stack as ExtendableThing>::Form;
    let form = |b: FB, op: Option<thing::FormOperation>| -> FormBuilder<Stack, String, FO> {
        let b = b.ext(x.mqtt.0.clone()).ext(x.http.0.clone()).ext(x.coap.0.clone());
        let b = match op {
            None => b,
            Some(o) => b.op(o),
        };
        b.href("h").response("rc", |r| r.ext(()).ext(x.http_response.0.clone()).ext(x.coap_response.0.clone()))
    };
    let real = guard(|| {
        ThingBuilder::<Stack, ToExtend>::new_empty("t")
            .ext(mqtt::MqttProtocol::default())
            .ext(http::HttpProtocol::default())
            .ext(coap::CoapProtocol::default())
            .finish_extend()
            .form(|b| form(b, Some(thing::FormOperation::ReadAllProperties)))
            .uri_variable("u", |b| b.ext(()).ext(()).ext(()).finish_extend().bool())
            .property("p", |b| {
                b.ext_interaction(())
                    .ext_interaction(())
                    .ext_interaction(())
                    .ext(())
                    .ext(())
                    .ext(())
                    .ext_data_schema(())
                    .ext_data_schema(())
                    .ext_data_schema(())
                    .finish_extend_data_schema()
                    .form(|b| form(b, None))
                    .object_ext(|o| o.ext(()).ext(()).ext(()))
                    .property("x", true, |b| b.ext(()).ext(()).ext(()).finish_extend().vec_ext(|a| a.ext(()).ext(()).ext(())))
            })
            .action("a", |b| {
                b.ext_interaction(()).ext_interaction(()).ext_interaction(()).ext(()).ext(()).ext(()).form(|b| form(b, None))
            })
            .event("e", |b| {
                b.ext_interaction(()).ext_interaction(()).ext_interaction(()).ext(()).ext(()).ext(()).form(|b| form(b, None))
            })
            .build()
    });
    let t: Thing<Stack> = match real {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return bad(format!("rejected: {e}")),
        Err(m) => return bad(format!("panicked: {m}")),
    };
    let mut f = Map::new();
    f.insert("href".into(), json!("h"));
    let mut r = Map::new();
    r.insert("contentType".into(), json!("rc"));
    r.extend(x.coap_response.1.clone());
    r.extend(x.http_response.1.clone());
    f.insert("response".into(), Value::Object(r));
    f.extend(x.coap.1.clone());
    f.extend(x.http.1.clone());
    f.extend(x.mqtt.1.clone());
    let mut tf = f.clone();
    tf.insert("op".into(), json!("readallproperties"));
    let arr = json!({"type": "array"});
    let want = json!({
        "@context": "https://www.w3.org/2022/wot/td/v1.1", "title": "t", "security": [], "securityDefinitions": {},
        "forms": [tf], "uriVariables": {"u": {"type": "boolean", "readOnly": false, "writeOnly": false}},
        "properties": {"p": {"forms": [f], "type": "object", "properties": {"x": arr}, "required": ["x"]}},
        "actions": {"a": {"forms": [f], "safe": false, "idempotent": false}},
        "events": {"e": {"forms": [f]}},
    });
    let v = to_value(&t)?;
    // Which defaults are spelled out is not the matter here.
    let norm = |v: &Value| {
        fn go(v: &Value) -> Value {
            match v {
                Value::Object(o) => Value::Object(
                    o.iter()
                        .filter(|(k, v)| {
                            !(["readOnly", "writeOnly", "safe", "idempotent"].contains(&k.as_str()) && **v == json!(false))
                        })
                        .map(|(k, v)| {
                            let v = match v {
                                Value::String(_) if k == "op" || k == "mqv:filter" || k == "required" => json!([v]),
                                v => go(v),
                            };
                            (k.clone(), v)
                        })
                        .collect(),
                ),
                Value::Array(a) => a.iter().map(go).collect(),
                v => v.clone(),
            }
        }
        go(v)
    };
    if norm(&v) != norm(&want) {
        return bad(format!("written differently: {}", diff(&norm(&v), &norm(&want))));
    }
    let d = dump::thing(&t);
    for r in [from_value::<Thing<Stack>>(v.clone()), from_text::<Thing<Stack>>(&v.to_string()), from_value(want.clone())] {
        match r {
            Ok(u) => {
                same("reading it back", &dump::thing(&u), &d)?;
                if u != t {
                    return bad("what is read back is not equal");
                }
            }
            Err(e) => return bad(format!("it cannot be read back: {e}: {v}")),
        }
    }
    // One protocol at a time
    let prefixes = |own: &str| -> Vec<&str> { ["cov:", "htv:", "mqv:"].into_iter().filter(|p| *p != own).collect() };
    fn strip(v: &Value, not: &[&str]) -> Value {
        match v {
            Value::Object(o) => Value::Object(
                o.iter()
                    .filter(|(k, _)| !not.iter().any(|p| k.starts_with(p)))
                    .map(|(k, v)| (k.clone(), strip(v, not)))
                    .collect(),
            ),
            Value::Array(a) => a.iter().map(|v| strip(v, not)).collect(),
            v => v.clone(),
        }
    }
    let single = |r: Result<Value, String>, own: &str| match r {
        Ok(w) => {
            let s = strip(&v, &prefixes(own));
            if w == s {
                Ok(())
            } else {
                bad(format!("with {own} only: {}", diff(&w, &s)))
            }
        }
        Err(e) => bad(format!("with {own} only: {e}")),
    };
    let val = |x: Result<Value, Bad>| x.map_err(|b| b.what);
    single(from_value::<Thing<coap::CoapProtocol>>(v.clone()).and_then(|t| val(to_value(&t))), "cov:")?;
    single(from_value::<Thing<http::HttpProtocol>>(v.clone()).and_then(|t| val(to_value(&t))), "htv:")?;
    single(from_value::<Thing<mqtt::MqttProtocol>>(v.clone()).and_then(|t| val(to_value(&t))), "mqv:")?;
    single(from_value::<Thing<Nil>>(v.clone()).and_then(|t| val(to_value(&t))), "none")?;
    Ok(Seen { state: digest(&v), steps: 30 })
}

/// Strings that look like `s`.
fn variants(s: &str) -> Vec<String> {
    let n = s.len().min(8);
    let mut v: Vec<String> = (0..1u32 << n)
        .map(|m| {
            s.chars()
                .enumerate()
                .map(|(i, c)| {
                    if i < n && m >> i & 1 != 0 {
                        if c.is_lowercase() {
                            c.to_ascii_uppercase()
                        } else {
                            c.to_ascii_lowercase()
                        }
                    } else {
                        c
                    }
                })
                .collect()
        })
        .collect();
    v.push(format!(" {s}"));
    v.push(format!("{s} "));
    v.push(s.get(1..).unwrap_or("").to_string());
    v.sort();
    v.dedup();
    v
}

fn names() -> Vec<String> {
    let mut v = vec![];
    for s in ["GET", "PUT", "POST", "DELETE", "PATCH", "FETCH", "iPATCH", "HEAD", "OPTIONS", "I_PATCH", "IPATCH"] {
        v.extend(variants(s));
    }
    for s in ["mqv:publish", "mqv:subscribe", "mqv:unsubscribe", "publish", "subscribe", "mqv:unsubscribed", "Publish"] {
        v.extend(variants(s));
    }
    for s in ["quality:0", "quality:1", "quality:2", "quality:3", "0", "1", "2", "AtMostOnce"] {
        v.extend(variants(s));
    }
    v.sort();
    v.dedup();
    v
}

/// Names are accepted exactly as spelled in the bindings.
fn name(s: &String) -> Res {
    fn same<T: std::fmt::Debug + PartialEq>(what: &str, s: &str, got: Result<T, String>, want: Option<T>) -> Result<(), Bad> {
        match (got, want) {
            (Ok(a), Some(b)) if a == b => Ok(()),
            (Err(e), None) if !e.starts_with("PANIC") => Ok(()),
            (g, w) => bad(format!("{what} {s:?} is read as {g:?}, expected {w:?}")),
        }
    }
    let find = |v: &[(coap::Method, &str)]| v.iter().find(|m| m.1 == s).map(|m| m.0);
    same("CoAP method", s, from_value::<coap::Method>(json!(s)), find(&COAP_METHODS))?;
    let want = HTTP_METHODS.iter().find(|m| m.1 == s).map(|m| m.0);
    same("HTTP method", s, from_value::<http::Method>(json!(s)), want)?;
    use mqtt::{ControlPacket::*, QoS::*};
    let want = [("mqv:publish", Publish), ("mqv:subscribe", Subscribe), ("mqv:unsubscribe", Unsubscribe)];
    same(
        "control packet",
        s,
        from_value::<mqtt::ControlPacket>(json!(s)),
        want.iter().find(|m| m.0 == s).map(|m| m.1),
    )?;
    let want = [("quality:0", AtMostOnce), ("quality:1", AtLeastOnce), ("quality:2", ExactlyOnce)];
    same("QoS", s, from_value::<mqtt::QoS>(json!(s)), want.iter().find(|m| m.0 == s).map(|m| m.1))?;
    // In a form
    let c = from_value::<Form<coap::CoapProtocol>>(json!({"href": "h", "cov:method": s}));
    same("CoAP method in a form", s, c.map(|f| f.other.method), find(&COAP_METHODS).map(Some))?;
    let h = from_value::<Form<http::HttpProtocol>>(json!({"href": "h", "htv:methodName": s}));
    let want = HTTP_METHODS.iter().find(|m| m.1 == s).map(|m| m.0);
    same("HTTP method in a form", s, h.map(|f| f.other.method_name), want.map(Some))?;
    Ok(Seen { state: digest(s), steps: 6 })
}

/// All block sizes, hop limits and 16-bit numbers.
fn number(n: &u64) -> Res {
    let n = *n as i64 - 300;
    let what = |w: &str, ok: bool, want: bool| {
        if ok == want {
            Ok(())
        } else {
            bad(format!("{w} {n} is {}", if ok { "accepted" } else { "rejected" }))
        }
    };
    let size = SIZES.iter().find(|s| s.1 as i64 == n);
    let got = from_value::<coap::BlockSize>(json!(n)).ok();
    if got != size.map(|s| s.0) {
        return bad(format!("block size {n} is read as {got:?}"));
    }
    let f = |k: &str| from_value::<coap::Form>(json!({ k: n })).map(|f| (f.hop_limit, f.accept, f.content_format));
    let b = |k: &str, l: &str| from_value::<coap::Form>(json!({ k: {l: n} }));
    for k in ["cov:blockwise", "cov:qblockwise"] {
        for l in ["cov:block1Size", "cov:block2Size"] {
            what(l, b(k, l).is_ok(), size.is_some())?;
        }
    }
    let u8s = f("cov:hopLimit").ok();
    what("hop limit", u8s == Some((Some(n as u8), None, None)), (0..256).contains(&n))?;
    what("hop limit", u8s.is_some(), (0..256).contains(&n))?;
    let u16s = f("cov:accept").ok();
    what("accept", u16s == Some((None, Some(n as u16), None)), (0..65536).contains(&n))?;
    let u16s = f("cov:contentFormat").ok();
    what("content format", u16s == Some((None, None, Some(n as u16))), (0..65536).contains(&n))?;
    let r = from_value::<coap::ExpectedResponse>(json!({"cov:contentFormat": n})).ok().and_then(|r| r.content_format);
    what("content format of the response", r == Some(n as u16), (0..65536).contains(&n))?;
    let s = from_value::<http::Response>(json!({"htv:statusCodeValue": n})).ok().and_then(|r| r.status_code_value);
    what("status", s == Some(n as usize), n >= 0)?;
    Ok(Seen { state: digest(&n), steps: 10 })
}

/// A member of the wrong type or shape is refused.
fn wrong(case: &(&'static str, Value)) -> Res {
    let (k, v) = case;
    let null = v.is_null();
    let o = json!({"href": "h", *k: v});
    let refused = |r: Result<(), String>| match r {
        Err(e) if e.starts_with("PANIC") => bad(e),
        Err(_) => Ok(()),
        Ok(()) if null => Ok(()),
        Ok(()) => bad(format!("{o} is accepted")),
    };
    match &k[..3] {
        "cov" => {
            refused(from_value::<coap::Form>(o.clone()).map(|_| ()))?;
            refused(from_value::<Form<coap::CoapProtocol>>(o.clone()).map(|_| ()))?;
        }
        "mqv" => {
            refused(from_value::<mqtt::Form>(o.clone()).map(|_| ()))?;
            refused(from_value::<Form<mqtt::MqttProtocol>>(o.clone()).map(|_| ()))?;
        }
        _ if *k == "htv:methodName" => {
            refused(from_value::<http::Form>(o.clone()).map(|_| ()))?;
            refused(from_value::<Form<http::HttpProtocol>>(o.clone()).map(|_| ()))?;
        }
        _ => {
            refused(from_value::<http::Response>(o.clone()).map(|_| ()))?;
            let o = json!({"href": "h", "response": {"contentType": "c", *k: v}});
            refused(from_value::<Form<http::HttpProtocol>>(o).map(|_| ()))?;
        }
    }
    Ok(Seen { state: digest(&o), steps: 2 })
}

fn wrongs() -> Gen<(&'static str, Value)> {
    let any = vec![
        json!({}), json!([]), json!(true), json!(1.5), json!("x"), json!(-1), json!([1]), json!([null]), json!([["a"]]),
        json!([{"htv:fieldName": 1}]), json!({"cov:block1Size": 17}), json!({"cov:block2Size": "16"}), json!(["a", 1]),
        json!(1u64 << 40), json!("16"), json!(null),
    ];
    let ok = |k: &str, v: &Value| match k {
        "cov:blockwise" | "cov:qblockwise" => *v == json!({}),
        "mqv:retain" => *v == json!(true),
        "mqv:topic" => v.is_string(),
        "mqv:filter" => v.is_string() || *v == json!([]),
        "htv:headers" => *v == json!([]),
        "htv:statusCodeValue" => *v == json!(1u64 << 40),
        _ => false,
    };
    let mut out = vec![];
    for k in [
        "cov:method", "cov:blockwise", "cov:qblockwise", "cov:hopLimit", "cov:accept", "cov:contentFormat", "htv:methodName",
        "htv:headers", "htv:statusCodeValue", "mqv:retain", "mqv:controlPacket", "mqv:qos", "mqv:topic", "mqv:filter",
    ] {
        for v in &any {
            if !ok(k, v) {
                out.push((k, v.clone()));
            }
        }
    }
    of(out)
}

/// A member under another name, in a form or a response of a binding.
#[derive(Clone, Serialize)]
struct Alias {
    member: S,
    name: S,
    value: Value,
}

const MEMBERS: [(&str, fn() -> Value); 18] = [
    ("cov:method", || json!("PUT")),
    ("cov:blockwise", || json!({"cov:block1Size": 16})),
    ("cov:qblockwise", || json!({"cov:block2Size": 32})),
    ("cov:hopLimit", || json!(3)),
    ("cov:accept", || json!(40)),
    ("cov:contentFormat", || json!(50)),
    ("cov:block1Size", || json!(64)),
    ("cov:block2Size", || json!(128)),
    ("htv:methodName", || json!("PUT")),
    ("htv:headers", || json!([{"htv:fieldName": "a", "htv:fieldValue": "b"}])),
    ("htv:fieldName", || json!("a")),
    ("htv:fieldValue", || json!("b")),
    ("htv:statusCodeValue", || json!(200)),
    ("mqv:retain", || json!(true)),
    ("mqv:controlPacket", || json!("mqv:publish")),
    ("mqv:qos", || json!("quality:1")),
    ("mqv:topic", || json!("t")),
    ("mqv:filter", || json!(["f", "g"])),
];

fn aliases() -> Gen<Alias> {
    let names = |m: &str| -> Vec<S> {
        let (prefix, local) = m.split_once(':').unwrap();
        let mut l = other_names(local);
        l.extend((0..RENAMES).map(|i| similar_name(local, i)));
        l.extend(MEMBERS.iter().map(|m| m.0.split_once(':').unwrap().1.to_string()));
        l.extend(sv(&["options", "clientId", "packet", "control", "quality", "topicFilter", "status", "statusCode", "block", "hops", "limit", "format"]));
        let mut v: Vec<S> = l.iter().map(|l| format!("{prefix}:{l}")).collect();
        for p in ["", "cov:", "htv:", "mqv:", "coap:", "http:", "mqtt:", "x:", ":", "COV:", "HTV:", "MQV:", "covx:", "http://www.w3.org/2011/http#"] {
            v.push(format!("{p}{local}"));
        }
        for sep in ["_", "-", ".", "/", "::", ""] {
            v.push(format!("{prefix}{sep}{local}"));
        }
        v.sort();
        v.dedup();
        v.retain(|n| !MEMBERS.iter().any(|m| m.0 == n));
        v
    };
    of((0..MEMBERS.len() as u64).collect::<Vec<_>>()).sum(move |i| {
        let (m, value) = MEMBERS[i as usize];
        of(names(m)).map(move |name| Alias { member: m.into(), name, value: value() })
    })
}

/// A member the binding does not have is passed over, alone and beside the one it resembles.
fn alias(a: &Alias) -> Res {
    fn go<T: Serialize + for<'a> Deserialize<'a> + PartialEq + std::fmt::Debug>(what: &str, a: &Alias) -> Result<(), Bad> {
        let mut with = json!({});
        with[&a.member] = a.value.clone();
        for d in [json!({}), with] {
            let want = from_value::<T>(d.clone());
            let mut e = d.clone();
            e[&a.name] = a.value.clone();
            for got in [from_value::<T>(e.clone()), from_text::<T>(&e.to_string())] {
                if got.is_ok() != want.is_ok() || (got.is_ok() && got != want) {
                    return bad(format!("{what}: {e} is read as {got:?}, and {d} as {want:?}"));
                }
            }
        }
        Ok(())
    }
    go::<coap::Form>("CoAP form", a)?;
    go::<coap::BlockWiseTransferParameters>("CoAP block parameters", a)?;
    go::<coap::ExpectedResponse>("CoAP response", a)?;
    go::<http::Form>("HTTP form", a)?;
    go::<http::Response>("HTTP response", a)?;
    go::<http::MessageHeader>("HTTP header", a)?;
    go::<mqtt::Form>("MQTT form", a)?;
    Ok(Seen { state: digest(&(&a.member, &a.name)), steps: 28 })
}

pub fn p01(th: bool) -> Check {
    let coap_alone = coap_forms(th).x(&coap_responses().opt());
    let coap_alone = if th { coap_alone } else { coap_forms(false).map(|f| (f, None)).or(&few(coap_forms(false), 7).x(&coap_responses().opt())) };
    // Every combination of one binding with two (four) of the others each.
    let ends = |n: u64| if th { n.min(4) } else { n.min(2) };
    let coap = || some_of(coap_few(), ends(4));
    let mqtt = || some_of(mqtt_forms(2), ends(4));
    let http = || some_of(http_forms(), ends(4));
    let http_response = || some_of(http_responses(2), ends(4));
    let coap_response = || some_of(coap_responses(), 2);
    let full = coap_few()
        .x(&mqtt())
        .x(&http())
        .x(&http_response())
        .x(&coap_response())
        .or(&coap().x(&mqtt_forms(if th { 3 } else { 2 })).x(&http()).x(&http_response()).x(&coap_response()))
        .or(&coap().x(&mqtt()).x(&http_forms()).x(&http_responses(2)).x(&coap_responses()))
        .map(|((((coap, mqtt), http), http_response), coap_response)| Full {
            coap,
            coap_response,
            http,
            http_response,
            mqtt,
        });
    Check {
        id: "P01",
        spaces: vec![
            Space::new("CoAP", coap_alone, |p: &(Pair<coap::Form>, Option<Pair<coap::ExpectedResponse>>)| {
                both("CoAP form", &p.0 .0, &p.0 .1)?;
                if let Some(r) = &p.1 {
                    both("CoAP response", &r.0, &r.1)?;
                }
                in_form::<coap::CoapProtocol>("CoAP", &p.0, &p.1)?;
                pair_json(p)
            }),
            Space::new(
                "HTTP",
                http_forms().x(&http_responses(if th { 3 } else { 2 }).opt()),
                |p: &(Pair<http::Form>, Option<Pair<http::Response>>)| {
                    both("HTTP form", &p.0 .0, &p.0 .1)?;
                    if let Some(r) = &p.1 {
                        both("HTTP response", &r.0, &r.1)?;
                    }
                    in_form::<http::HttpProtocol>("HTTP", &p.0, &p.1)?;
                    pair_json(p)
                },
            ),
            Space::new("MQTT", mqtt_forms(if th { 5 } else { 3 }), |p: &Pair<mqtt::Form>| {
                both("MQTT form", &p.0, &p.1)?;
                let mut q = p.clone();
                if let Some(f) = to_value(&p.0)?.get("mqv:filter") {
                    // Either spelling will do.
                    q.1.insert("mqv:filter".into(), f.clone());
                }
                in_form::<mqtt::MqttProtocol>("MQTT", &q, &None)?;
                pair_json(p)
            }),
            Space::new("the three together", full, stacked),
            Space::new("names", of(names()), name),
            Space::new("numbers", range(if th { 1 << 20 } else { 66_400 }), number),
            Space::new("ill-typed members", wrongs(), wrong),
            Space::new("members under other names", aliases(), alias),
        ],
        assumptions: vec!["serde_json and serde themselves are trusted", "the vocabulary of the bindings is spelled out in the harness"],
        bounds: "every combination of the members of CoAP, HTTP and MQTT forms and responses over all enumerated values and extreme numbers; every 16-bit number; every change of case of every name",
    }
}

/// `n` elements from the first to the last.
fn some_of<T: 'static>(g: Gen<T>, n: u64) -> Gen<T> {
    let len = g.len;
    Gen::new(n, move |i| g.get(if n < 2 { 0 } else { i * (len - 1) / (n - 1) }))
}

/// One element in `n`.
pub fn few<T: 'static>(g: Gen<T>, n: u64) -> Gen<T> {
    Gen::new(g.len.div_ceil(n), move |i| g.get(i * n))
}

// ---------------------------------------------------------------------------------------------
// Q01: equality and copies

pub type Known = Arc<Vec<(Thing<Nil>, MThing)>>;

fn equal(a: &(Thing<Nil>, MThing), b: &(Thing<Nil>, MThing)) -> Result<(), Bad> {
    let want = a.1 == b.1;
    let got = guard(|| (a.0 == b.0, b.0 == a.0, a.0 != b.0)).map_err(Bad::new)?;
    if got != (want, want, !want) {
        return bad(if want {
            format!("Things with the same content are not equal: {got:?}: {:?}", a.1)
        } else {
            format!("different Things are equal: {}", diff(&a.1, &b.1))
        });
    }
    Ok(())
}

pub fn all_pairs(g: Gen<Prog>, limit: usize) -> (Known, Gen<(u64, u64)>) {
    let mut v: Vec<(Thing<Nil>, MThing)> = vec![];
    let mut seen = std::collections::HashMap::new();
    for i in 0..g.len {
        if let Some(t) = built::<Nil>(&g.get(i)) {
            let d = dump::thing(&t);
            // At most two Things of the same content
            let n = seen.entry(digest(&d)).or_insert(0);
            *n += 1;
            if *n <= 2 {
                v.push((t, d));
            }
        }
    }
    let step = v.len().div_ceil(limit).max(1);
    let v: Vec<_> = v.into_iter().step_by(step).collect();
    let n = v.len() as u64;
    (Arc::new(v), range(n).x(&range(n)))
}

/// The two zeros are the same number.
fn one_zero(o: SOp) -> SOp {
    let f = |x: F| F(if x.0 == 0.0 { 0.0 } else { x.0 });
    match o {
        SOp::NMin(x) => SOp::NMin(f(x)),
        SOp::NMax(x) => SOp::NMax(f(x)),
        SOp::NXMin(x) => SOp::NXMin(f(x)),
        SOp::NXMax(x) => SOp::NXMax(f(x)),
        SOp::NMul(x) => SOp::NMul(f(x)),
        o => o,
    }
}

/// The document and its variants at one place, pairwise.
fn variants_at(case: &(Value, Path)) -> Res {
    let (doc, path) = case;
    let mut v: Vec<(Thing<Nil>, MThing)> = vec![];
    let mut add = |d: Value| {
        if let Ok(t) = from_value::<Thing<Nil>>(d) {
            let d = dump::thing(&t);
            v.push((t, d));
        }
    };
    add(doc.clone());
    for c in changes().iter().chain(&additions()) {
        let mut d = doc.clone();
        if apply(&mut d, path, c) {
            add(d);
        }
    }
    let mut steps = 0;
    for a in &v {
        for b in &v {
            equal(a, b)?;
            steps += 1;
        }
    }
    Ok(Seen { state: digest(case), steps })
}

/// Changes of an extension member are seen.
fn ext_changes(p: &Prog) -> Res {
    let Some(t) = built::<AB>(p) else { return skipped() };
    let v = to_value(&t)?;
    let mut steps = 0;
    let parse = |v: Value| from_value::<Thing<AB>>(v).ok();
    for path in paths(&v) {
        let Some(k) = path.last() else { continue };
        if !(k.starts_with("A:") || k.starts_with("B:")) {
            continue;
        }
        let to = match k.chars().last() {
            Some('n') => json!(77),
            Some('s') => json!("other"),
            _ => json!([8]),
        };
        for c in [Change::Delete, Change::Put(to)] {
            let mut w = v.clone();
            if !apply(&mut w, &path, &c) {
                continue;
            }
            let Some(u) = parse(w) else { return bad(format!("rejected after a change at {path:?}")) };
            let want = dump::thing(&u) == dump::thing(&t);
            if (u == t) != want || (t == u) != want {
                return bad(format!("after a change of the extension at {path:?}, equality is {}", u == t));
            }
            if want {
                return bad(format!("a change of the extension at {path:?} is not seen"));
            }
            steps += 2;
        }
    }
    Ok(Seen { state: digest(&v), steps })
}

/// Copies of the parts of a Thing are the same.
fn copies(p: &Prog) -> Res {
    fn forms<O: crate::dump::Dumpable>(t: &Thing<O>) -> Vec<&Form<O>>
    where
        O: ExtendableThing,
    {
        t.forms
            .iter()
            .flatten()
            .chain(t.properties.iter().flatten().flat_map(|p| &p.1.interaction.forms))
            .chain(t.actions.iter().flatten().flat_map(|p| &p.1.interaction.forms))
            .chain(t.events.iter().flatten().flat_map(|p| &p.1.interaction.forms))
            .collect()
    }
    let mut steps = 0;
    if let Some(t) = built::<Nil>(p) {
        for f in forms(&t) {
            let c = guard(|| f.clone()).map_err(Bad::new)?;
            if dump::form(&c) != dump::form(f) || c != *f {
                return bad(format!("the copy of a form differs: {}", diff(&dump::form(&c), &dump::form(f))));
            }
        }
        for l in t.links.iter().flatten() {
            let c = l.clone();
            if dump::link(&c) != dump::link(l) || c != *l {
                return bad("the copy of a link differs");
            }
        }
        for s in t.security_definitions.values() {
            let c = s.clone();
            if dump::sec(&c) != dump::sec(s) || c != *s {
                return bad("the copy of a security scheme differs");
            }
        }
        for s in t.uri_variables.iter().flatten().chain(t.schema_definitions.iter().flatten()).map(|s| s.1) {
            let c = s.clone();
            if dump::schema(&c) != dump::schema(s) || c != *s {
                return bad("the copy of a schema differs");
            }
        }
        steps += 4;
    }
    let x = extify(p, &mut Payload::new(7, 3, p.calls() as usize));
    if let Some(t) = built::<AB>(&x) {
        for f in forms(&t) {
            let c = guard(|| f.clone()).map_err(Bad::new)?;
            if dump::form(&c) != dump::form(f) || c != *f {
                return bad(format!("the copy of an extended form differs: {}", diff(&dump::form(&c), &dump::form(f))));
            }
            steps += 1;
        }
    }
    Ok(Seen { state: digest(p), steps })
}

pub fn q01(th: bool) -> Check {
    let d = |q: u32, t: u32| if th { t } else { q };
    let mut spaces = vec![];
    let docs = small_docs();
    let cases: Vec<(Value, Path)> = docs
        .iter()
        .flat_map(|doc| {
            let mut ps = paths(doc);
            ps.push(vec![]);
            ps.into_iter().map(move |p| (doc.clone(), p))
        })
        .collect();
    spaces.push(Space::new("variants of documents", of(cases), variants_at));
    let limit = if th { 4000 } else { 1200 };
    for (n, g) in [
        ("rich descriptions", g_rich(1).or(&g_rich(1)).or(&one_with(rich_all))),
        ("metadata", g_meta(d(1, 2)).or(&g_meta(1))),
        ("affordances", g_affordance_setters(1).or(&g_affordance_setters(1))),
        ("forms", g_form_setters(1).or(&g_form_setters(1))),
        ("security schemes", few(g_sec_setters(false), if th { 3 } else { 17 })),
        ("links", g_link_setters(d(1, 2)).or(&g_link_lists(2))),
        ("schemas", at_sites(&g_schema_setters(0, 1, 0), &[0, 1]).or(&at_sites(&g_schema_nesting(1), &[4]))),
        ("bounds", few(at_sites(&bound_leaves().map(|s| finite(s).into_iter().map(one_zero).collect()), &[0]), if th { 3 } else { 11 })),
    ] {
        let (known, pairs) = all_pairs(g, limit);
        spaces.push(Space::new(&format!("pairs of {n}"), pairs, move |(i, j): &(u64, u64)| {
            let (a, b) = (&known[*i as usize], &known[*j as usize]);
            equal(a, b)?;
            if i == j {
                // Another Thing of the same content
                let again = match from_value::<Thing<Nil>>(to_value(&a.0)?) {
                    Ok(t) => t,
                    Err(_) => return skipped(),
                };
                let d = dump::thing(&again);
                equal(a, &(again, d))?;
            }
            Ok(Seen { state: (*i << 32) | *j, steps: 3 })
        }));
    }
    let g = g_rich(d(1, 2)).or(&one_with(rich_all)).or(&g_affordance_setters(1));
    spaces.push(Space::new(
        "extensions",
        g.clone().map(|p| extify(&p, &mut Payload::new(7, 8, p.calls() as usize))),
        ext_changes,
    ));
    spaces.push(Space::new(
        "similar strings",
        range(string_places().len() as u64).x(&of(similar_pairs(true)).map(|(a, b)| if a < b { (a, b) } else { (b, a) })),
        |(i, (a, b)): &(u64, (S, S))| {
            let p = string_places()[*i as usize];
            let t = |s: &S| built::<Nil>(&p(s.clone())).map(|t| (dump::thing(&t), t)).map(|(d, t)| (t, d));
            if let (Some(a), Some(b)) = (t(a), t(b)) {
                equal(&a, &b)?;
            }
            Ok(Seen { state: digest(&(i, a, b)), steps: 3 })
        },
    ));
    spaces.push(Space::new("differences beside any member", g_differences(), |(a, b): &(Prog, Prog)| {
        let t = |p: &Prog| built::<Nil>(p).map(|t| (dump::thing(&t), t)).map(|(d, t)| (t, d));
        if let (Some(a), Some(b)) = (t(a), t(b)) {
            equal(&a, &b)?;
        }
        Ok(Seen { state: digest(&(a, b)), steps: 3 })
    }));
    let p = text_places();
    let mut pairs = similar_pairs(th);
    for n in [64, 256, 1024, 4096] {
        let x = "x".repeat(n);
        pairs.extend(similar_strings(&x).into_iter().map(|s| (x.clone(), s)));
    }
    pairs.retain(|(a, b)| a != b);
    spaces.push(Space::new(
        "similar texts of any member",
        range(p.len() as u64).x(&of(pairs)),
        move |(i, (a, b)): &(u64, (S, S))| {
            let p = &p[*i as usize];
            let t = |s: &S| built::<Nil>(&p(s)).map(|t| (dump::thing(&t), t)).map(|(d, t)| (t, d));
            if let (Some(a), Some(b)) = (t(a), t(b)) {
                equal(&a, &b)?;
            }
            Ok(Seen { state: digest(&(i, a, b)), steps: 3 })
        },
    ));
    spaces.push(Space::new("copies", g.or(&g_form_setters(d(2, 3))).or(&g_link_setters(d(1, 2))), copies));
    Check {
        id: "Q01",
        spaces,
        assumptions: vec!["the content of a Thing is all its public fields, language tags compared without regard to case"],
        bounds: "all pairs of variants (<= 62) of 56 documents at every place; all pairs of <= 1200 (4000) different Things of 8 families; every extension member deleted and replaced",
    }
}

// ---------------------------------------------------------------------------------------------
// M01: error messages

fn message(p: &Prog) -> Res {
    use wot_td::builder::{AffordanceType as At, Error as E, FormContext as Fc};
    let o = interpret(p);
    let Some(e) = drive::error(p) else { return skipped() };
    let text = guard(|| e.to_string()).map_err(Bad::new)?;
    let context = |c: &Fc| match c {
        Fc::Thing => "Thing",
        Fc::Property => "PropertyAffordance",
        Fc::Action => "ActionAffordance",
        Fc::Event => "EventAffordance",
    };
    let ty = |c: &At| match c {
        At::Property => "property",
        At::Action => "action",
        At::Event => "event",
    };
    let quoted = |n: &str| vec![format!("\"{n}\"")];
    let parts: Vec<String> = match &e {
        E::DuplicatedSecurityDefinition(n) | E::UndefinedSecurity(n) | E::MissingSchemaDefinition(n) | E::InvalidLanguageTag(n) => {
            quoted(n)
        }
        E::InvalidOpInForm { context: c, operation } => {
            vec![format!(" {} ", dump::op_name(*operation)), context(c).to_string()]
        }
        E::DuplicatedAffordance { ty: t, name } => {
            let mut v = quoted(name);
            v.push(format!(" {} ", ty(t)));
            v
        }
        _ => vec![],
    };
    for part in &parts {
        if !text.contains(part.as_str()) {
            return bad(format!("the message {text:?} does not mention {part:?}"));
        }
    }
    if text.is_empty() {
        return bad(format!("{e:?} has no message"));
    }
    // It is about this description.
    let key = drive::err_key(&e);
    if !o.viols.iter().any(|v| v.keys.contains(&key)) {
        return bad(format!("{text:?} is not a fault of the description: {:?}", o.viols));
    }
    if e.clone() != e {
        return bad("the copy of an error differs");
    }
    // Messages of different faults differ.
    for v in &o.viols {
        if v.keys.iter().all(|k| *k != key) && v.keys.contains(&text) {
            return bad("a message is that of another fault");
        }
    }
    Ok(Seen { state: digest(&text), steps: p.calls() + 2 })
}

fn op_text(i: &u64) -> Res {
    let o = drive::operation(*i as u8);
    let s = o.to_string();
    if s != OPS[*i as usize] || to_value(&o)? != json!(s) {
        return bad(format!("{o:?} is called {s}"));
    }
    if from_value::<thing::FormOperation>(json!(s)) != Ok(o) {
        return bad(format!("{s} is not read as {o:?}"));
    }
    for v in variants(&s) {
        let r = from_value::<thing::FormOperation>(json!(v));
        if OPS.contains(&v.as_str()) != r.is_ok() {
            return bad(format!("{v:?} is read as {r:?}"));
        }
    }
    Ok(Seen { state: *i, steps: 300 })
}

pub fn m01(th: bool) -> Check {
    let d = |q: u32, t: u32| if th { t } else { q };
    let mut names = vec![];
    names.extend(sec_strings());
    names.extend(form_strings());
    names.extend(name_strings());
    names.extend(link_strings());
    let mut odd = odd_strings();
    odd.extend(sv(&["it's", "\"quoted\"", "{0}", "{name}"]));
    let tags = of(odd_strings()).x(&range(LANG_SITES)).map(|(t, site)| lang_at(site, vec![(st("en"), st("x")), (t, st("y"))]));
    let dup = of(odd_strings()).x(&range(3)).x(&range(3)).map(|((n, a), b)| post(vec![affordance(a, &n), affordance(b, &n)]));
    let sec = of(odd_strings()).x(&of(odd_strings())).x(&range(3)).map(|((a, b), how)| {
        prog(match how {
            0 => vec![basic(&a), basic(&b)],
            1 => vec![basic(&a), TOp::Finish, form1(0, vec![FOp::Op(9), FOp::Href(st("h")), FOp::Security(b)])],
            _ => vec![
                basic(&a),
                TOp::Security(vec![SecOp::Scheme(Scheme::Combo), SecOp::Key(st("combo")), SecOp::OneOf(vec![b])]),
            ],
        })
    });
    Check {
        id: "M01",
        spaces: vec![
            Space::new("operations", g_form_ops(d(2, 3)), message),
            Space::new(
                "a fault beside any member",
                ["S01", "S02", "F01", "A01", "D01", "U01", "R01", "L01", "L02"]
                    .map(|p| g_fault_beside(p, false))
                    .into_iter()
                    .reduce(|g, h| g.or(&h))
                    .unwrap(),
                message,
            ),
            Space::new("names", places(names, odd), message),
            Space::new("language tags", tags, message),
            Space::new("duplicates", dup, message),
            Space::new("security names", sec, message),
            Space::new("security references", g_security_refs(th), message),
            Space::new("bounds", at_sites(&bound_leaves(), &[0, 7]), message),
            Space::new("links", g_link_setters(d(2, 3)), message),
            Space::new("names of operations", range(18), op_text),
        ],
        assumptions: vec![],
        bounds: "rejected descriptions with <= 2 (3) operations per form in every context, 100 odd names at every place that has a name, every site of a language tag",
    }
}
