//! Reference model: plain data mirroring a Thing, and an interpreter of builder programs.
//!
//! Written from the documentation of the builder and the W3C Thing Description 1.1 vocabulary,
//! sharing no code with the crate.

use std::collections::BTreeMap;

use serde::Serialize;
use serde_json::{json, Value};
use time::{format_description::well_known::Rfc3339, OffsetDateTime};

use crate::prog::*;

pub const CTX11: &str = "https://www.w3.org/2022/wot/td/v1.1";

pub type Lang = BTreeMap<S, S>;
/// Extension payloads, innermost last.
pub type Ext = Vec<Value>;

/// A float compared bit by bit.
#[derive(Clone, Copy, Debug)]
pub struct Fl(pub f64);
impl PartialEq for Fl {
    fn eq(&self, o: &Fl) -> bool {
        self.0.to_bits() == o.0.to_bits()
    }
}
impl Serialize for Fl {
    fn serialize<X: serde::Serializer>(&self, s: X) -> Result<X::Ok, X::Error> {
        s.serialize_str(&format!("{:?}", self.0))
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Default)]
pub struct MThing {
    pub context: Value,
    pub id: Option<S>,
    pub attype: Option<Vec<S>>,
    pub title: S,
    pub titles: Option<Lang>,
    pub description: Option<S>,
    pub descriptions: Option<Lang>,
    pub version: Option<(S, Option<S>)>,
    pub created: Option<(i128, i32)>,
    pub modified: Option<(i128, i32)>,
    pub support: Option<S>,
    pub base: Option<S>,
    pub properties: Option<BTreeMap<S, MProp>>,
    pub actions: Option<BTreeMap<S, MAct>>,
    pub events: Option<BTreeMap<S, MEvt>>,
    pub links: Option<Vec<MLink>>,
    pub forms: Option<Vec<MForm>>,
    pub security: Vec<S>,
    pub secdefs: BTreeMap<S, MSec>,
    pub urivars: Option<BTreeMap<S, MSchema>>,
    pub profile: Option<Vec<S>>,
    pub schemadefs: Option<BTreeMap<S, MSchema>>,
    pub ext: Ext,
}

#[derive(Clone, Debug, PartialEq, Serialize, Default)]
pub struct MInter {
    pub attype: Option<Vec<S>>,
    pub title: Option<S>,
    pub titles: Option<Lang>,
    pub description: Option<S>,
    pub descriptions: Option<Lang>,
    pub forms: Vec<MForm>,
    pub urivars: Option<BTreeMap<S, MSchema>>,
    pub ext: Ext,
}

#[derive(Clone, Debug, PartialEq, Serialize, Default)]
pub struct MProp {
    pub inter: MInter,
    pub schema: MSchema,
    pub observable: Option<bool>,
    pub ext: Ext,
}

#[derive(Clone, Debug, PartialEq, Serialize, Default)]
pub struct MAct {
    pub inter: MInter,
    pub input: Option<MSchema>,
    pub output: Option<MSchema>,
    pub safe: bool,
    pub idempotent: bool,
    pub synchronous: Option<bool>,
    pub ext: Ext,
}

#[derive(Clone, Debug, PartialEq, Serialize, Default)]
pub struct MEvt {
    pub inter: MInter,
    pub subscription: Option<MSchema>,
    pub data: Option<MSchema>,
    pub data_response: Option<MSchema>,
    pub cancellation: Option<MSchema>,
    pub ext: Ext,
}

#[derive(Clone, Debug, PartialEq, Serialize, Default)]
pub struct MLink {
    pub href: S,
    pub ty: Option<S>,
    pub rel: Option<S>,
    pub anchor: Option<S>,
    pub sizes: Option<S>,
    pub hreflang: Option<Vec<S>>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Default)]
pub struct MForm {
    /// None: defaulted
    pub op: Option<Vec<S>>,
    pub href: S,
    pub ctype: Option<S>,
    pub ccoding: Option<S>,
    pub subproto: Option<S>,
    pub security: Option<Vec<S>>,
    pub scopes: Option<Vec<S>>,
    pub response: Option<(S, Ext)>,
    pub addresp: Option<Vec<MAddResp>>,
    pub ext: Ext,
}

#[derive(Clone, Debug, PartialEq, Serialize, Default)]
pub struct MAddResp {
    pub success: bool,
    pub ctype: Option<S>,
    pub schema: Option<S>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Default)]
pub struct MSec {
    pub attype: Option<Vec<S>>,
    pub description: Option<S>,
    pub descriptions: Option<Lang>,
    pub proxy: Option<S>,
    /// The scheme; the crate's "unknown" schemes are prefixed by `?`.
    pub kind: S,
    /// Scheme members, named as in the W3C vocabulary (lists always as arrays).
    pub params: Value,
}

#[derive(Clone, Debug, PartialEq, Serialize, Default)]
pub struct MSchema {
    pub attype: Option<Vec<S>>,
    pub title: Option<S>,
    pub titles: Option<Lang>,
    pub description: Option<S>,
    pub descriptions: Option<Lang>,
    pub constant: Option<Value>,
    pub default: Option<Value>,
    pub unit: Option<S>,
    pub one_of: Option<Vec<MSchema>>,
    pub enumeration: Option<Vec<Value>>,
    pub ro: bool,
    pub wo: bool,
    pub format: Option<S>,
    pub sub: Option<MSub>,
    pub ext: Ext,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize)]
pub struct Bound<T> {
    pub excl: bool,
    pub v: T,
}

#[derive(Clone, Debug, PartialEq, Serialize)]
pub enum Items {
    One(Box<MSchema>),
    Many(Vec<MSchema>),
}

#[derive(Clone, Debug, PartialEq, Serialize)]
pub enum MSub {
    Array {
        items: Option<Items>,
        min: Option<u32>,
        max: Option<u32>,
        ext: Ext,
    },
    Boolean,
    Number {
        min: Option<Bound<Fl>>,
        max: Option<Bound<Fl>>,
        mul: Option<Fl>,
    },
    Integer {
        min: Option<Bound<i64>>,
        max: Option<Bound<i64>>,
        mul: Option<u64>,
    },
    Object {
        props: Option<BTreeMap<S, MSchema>>,
        required: Option<Vec<S>>,
        ext: Ext,
    },
    Str {
        min: Option<u32>,
        max: Option<u32>,
        pattern: Option<S>,
        cenc: Option<S>,
        cmedia: Option<S>,
    },
    Null,
}

/// A reason for which a description must be rejected.
#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
    /// The property this rule belongs to.
    pub class: &'static str,
    /// The acceptable errors (see drive::err_key) reporting it.
    pub keys: Vec<S>,
}

/// Content of an extension piece for payload `p`.
pub fn piece(p: u8) -> Value {
    json!({
        "n": if p & 1 != 0 { json!(p) } else { Value::Null },
        "s": if p & 2 != 0 { format!("s{p}") } else { String::new() },
        "v": if p & 4 != 0 { vec![p as i64, -1] } else { vec![] },
    })
}

thread_local! {
    static EXT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Runs `f` with or without the extension stack in the model.
pub fn with_ext<T>(ext: bool, f: impl FnOnce() -> T) -> T {
    let old = EXT.with(|e| e.replace(ext));
    let out = f();
    EXT.with(|e| e.set(old));
    out
}

/// The payloads of a place whose extensions are given all at once.
fn exts(first: u8, second: u8) -> Ext {
    if EXT.with(|e| e.get()) {
        vec![piece(second), piece(first)]
    } else {
        vec![]
    }
}

pub fn lang_map(m: &Map) -> Lang {
    let mut out = Lang::new();
    for (k, v) in m {
        let lower = k.to_ascii_lowercase();
        out.retain(|o, _| o.to_ascii_lowercase() != lower);
        out.insert(canon(k), v.clone());
    }
    out
}

/// Language tags are case-insensitive; ill-formed ones are reported as given.
pub fn canon(t: &str) -> S {
    if well_formed_tag(t) {
        t.to_ascii_lowercase()
    } else {
        t.to_string()
    }
}

pub fn time_of(s: &str) -> OffsetDateTime {
    OffsetDateTime::parse(s, &Rfc3339).expect("alphabet time")
}

pub fn dt(t: OffsetDateTime) -> (i128, i32) {
    (t.unix_timestamp_nanos(), t.offset().whole_seconds())
}

pub fn dt_text((n, o): (i128, i32)) -> S {
    // By local time: the same instant may have no representation in UTC.
    OffsetDateTime::from_unix_timestamp_nanos(n + o as i128 * 1_000_000_000)
        .unwrap()
        .replace_offset(time::UtcOffset::from_whole_seconds(o).unwrap())
        .format(&Rfc3339)
        .unwrap()
}

fn push<T>(v: &mut Option<Vec<T>>, x: T) {
    v.get_or_insert_with(Vec::new).push(x);
}

/// Affordances as declared, duplicates included.
#[derive(Default)]
pub struct Raw {
    pub thing: MThing,
    pub properties: Vec<(S, MProp)>,
    pub actions: Vec<(S, MAct)>,
    pub events: Vec<(S, MEvt)>,
    pub secdefs: Vec<(S, MSec)>,
}

pub struct Outcome {
    pub viols: Vec<Viol>,
    /// What the accepted Thing must be (when there is no violation).
    pub thing: MThing,
}

pub fn interpret(p: &Prog) -> Outcome {
    let mut raw = Raw::default();
    let t = &mut raw.thing;
    t.title = p.title.clone();
    let mut contexts = vec![Value::from(CTX11)];
    let mut ext = Vec::new();
    for op in &p.ops {
        match op {
            TOp::Id(s) => t.id = Some(s.clone()),
            TOp::Desc(s) => t.description = Some(s.clone()),
            TOp::Version(i, m) => t.version = Some((i.clone(), m.clone())),
            TOp::VersionStr(i) => t.version = Some((i.clone(), None)),
            TOp::Created(s) => t.created = Some(dt(time_of(s))),
            TOp::Modified(s) => t.modified = Some(dt(time_of(s))),
            TOp::Support(s) => t.support = Some(s.clone()),
            TOp::Base(s) => t.base = Some(s.clone()),
            TOp::Context(s) => {
                if s != CTX11 {
                    contexts.push(Value::from(s.as_str()))
                }
            }
            TOp::ContextMap(m) => {
                let mut o = serde_json::Map::new();
                for (k, v) in m {
                    o.insert(k.clone(), Value::from(v.as_str()));
                }
                contexts.push(Value::Object(o));
            }
            TOp::AType(s) => push(&mut t.attype, s.clone()),
            TOp::Titles(m) => t.titles = Some(lang_map(m)),
            TOp::Descs(m) => t.descriptions = Some(lang_map(m)),
            TOp::Link(s) => push(
                &mut t.links,
                MLink {
                    href: s.clone(),
                    ..Default::default()
                },
            ),
            TOp::LinkWith(l) => push(&mut t.links, link(l)),
            TOp::Security(s) => {
                let (name, required, sec) = sec(s);
                if required {
                    t.security.push(name.clone());
                }
                raw.secdefs.push((name, sec));
            }
            TOp::Profile(s) => push(&mut t.profile, s.clone()),
            TOp::Ext(p) => ext.insert(0, piece(*p)),
            TOp::Finish => {}
            TOp::Form(f) => push(&mut t.forms, form(f)),
            TOp::UriVar(n, s) => {
                t.urivars
                    .get_or_insert_with(BTreeMap::new)
                    .insert(n.clone(), schema(s));
            }
            TOp::SchemaDef(n, s) => {
                t.schemadefs
                    .get_or_insert_with(BTreeMap::new)
                    .insert(n.clone(), schema(s));
            }
            TOp::Property(n, s) => raw.properties.push((n.clone(), prop(s))),
            TOp::Action(n, a) => raw.actions.push((n.clone(), act(a))),
            TOp::Event(n, e) => raw.events.push((n.clone(), evt(e))),
        }
    }
    t.ext = ext;
    t.context = if contexts.len() == 1 {
        contexts.pop().unwrap()
    } else {
        Value::Array(contexts)
    };
    let viols = violations(&raw);
    let Raw {
        mut thing,
        properties,
        actions,
        events,
        secdefs,
    } = raw;
    thing.secdefs = secdefs.into_iter().collect();
    thing.properties = some_map(properties);
    thing.actions = some_map(actions);
    thing.events = some_map(events);
    Outcome { viols, thing }
}

fn some_map<T>(v: Vec<(S, T)>) -> Option<BTreeMap<S, T>> {
    if v.is_empty() {
        None
    } else {
        Some(v.into_iter().collect())
    }
}

fn link(l: &[LOp]) -> MLink {
    let mut m = MLink::default();
    for o in l {
        match o {
            LOp::Href(s) => m.href = s.clone(),
            LOp::Ty(s) => m.ty = Some(s.clone()),
            LOp::Rel(s) => m.rel = Some(s.clone()),
            LOp::Anchor(s) => m.anchor = Some(s.clone()),
            LOp::Sizes(s) => m.sizes = Some(s.clone()),
            LOp::HrefLang(s) => push(&mut m.hreflang, canon(s)),
        }
    }
    m
}

fn sec(ops: &[SecOp]) -> (S, bool, MSec) {
    let mut m = MSec::default();
    let mut key = None;
    let mut required = false;
    let mut params = serde_json::Map::new();
    let mut custom_data: Option<Value> = None;
    let mut default_name = String::new();
    fn list<'a>(params: &'a mut serde_json::Map<S, Value>) -> &'a mut Vec<Value> {
        let k = if params.contains_key("allOf") { "allOf" } else { "oneOf" };
        params.get_mut(k).unwrap().as_array_mut().unwrap()
    }
    for o in ops {
        match o {
            SecOp::AType(s) => push(&mut m.attype, s.clone()),
            SecOp::Desc(s) => m.description = Some(s.clone()),
            SecOp::Descs(l) => m.descriptions = Some(lang_map(l)),
            SecOp::Proxy(s) => m.proxy = Some(s.clone()),
            SecOp::Key(s) => key = Some(s.clone()),
            SecOp::Required => required = true,
            SecOp::Scheme(s) => {
                let k = match s {
                    Scheme::NoSec => "nosec",
                    Scheme::Auto => "auto",
                    Scheme::Combo => "combo",
                    Scheme::Basic => {
                        params.insert("in".into(), json!("header"));
                        "basic"
                    }
                    Scheme::Digest => {
                        params.insert("in".into(), json!("header"));
                        params.insert("qop".into(), json!("auth"));
                        "digest"
                    }
                    Scheme::Bearer => {
                        params.insert("in".into(), json!("header"));
                        params.insert("alg".into(), json!("ES256"));
                        params.insert("format".into(), json!("jwt"));
                        "bearer"
                    }
                    Scheme::Psk => "psk",
                    Scheme::OAuth2(flow) => {
                        params.insert("flow".into(), json!(flow));
                        "oauth2"
                    }
                    Scheme::ApiKey => {
                        params.insert("in".into(), json!("query"));
                        "apikey"
                    }
                    Scheme::Custom(c) => {
                        custom_data = Some(json!({}));
                        c.as_str()
                    }
                };
                default_name = k.to_string();
                m.kind = if custom_data.is_some() {
                    format!("?{k}")
                } else {
                    k.to_string()
                };
            }
            SecOp::Name(s) => {
                if m.kind == "combo" {
                    key = Some(s.clone())
                } else {
                    params.insert("name".into(), json!(s));
                }
            }
            SecOp::Location(i) => {
                params.insert("in".into(), json!(LOCATIONS[*i as usize]));
            }
            SecOp::Qop(i) => {
                params.insert("qop".into(), json!(QOPS[*i as usize]));
            }
            SecOp::Authorization(s) => {
                params.insert("authorization".into(), json!(s));
            }
            SecOp::Alg(s) => {
                params.insert("alg".into(), json!(s));
            }
            SecOp::Format(s) => {
                params.insert("format".into(), json!(s));
            }
            SecOp::Token(s) => {
                params.insert("token".into(), json!(s));
            }
            SecOp::Refresh(s) => {
                params.insert("refresh".into(), json!(s));
            }
            SecOp::Scope(s) => params
                .entry("scopes")
                .or_insert_with(|| json!([]))
                .as_array_mut()
                .unwrap()
                .push(json!(s)),
            SecOp::Data(v) => custom_data = Some(v.clone()),
            SecOp::AllOf(v) => {
                params.insert("allOf".into(), json!(v));
            }
            SecOp::OneOf(v) => {
                params.insert("oneOf".into(), json!(v));
            }
            SecOp::Push(s) => list(&mut params).push(json!(s)),
            SecOp::Extend(v) => list(&mut params).extend(v.iter().map(|s| json!(s))),
        }
    }
    m.params = custom_data.unwrap_or(Value::Object(params));
    (key.unwrap_or(default_name), required, m)
}

fn form(ops: &[FOp]) -> MForm {
    let mut f = MForm::default();
    for o in ops {
        match o {
            FOp::Href(s) => f.href = s.clone(),
            FOp::Op(i) => push(&mut f.op, OPS[*i as usize].to_string()),
            FOp::CType(s) => f.ctype = Some(s.clone()),
            FOp::CCoding(s) => f.ccoding = Some(s.clone()),
            FOp::Subproto(s) => f.subproto = Some(s.clone()),
            FOp::Security(s) => push(&mut f.security, s.clone()),
            FOp::Scope(s) => push(&mut f.scopes, s.clone()),
            FOp::Response(c, a, b) => f.response = Some((c.clone(), exts(*a, *b))),
            FOp::ResponseDefault(c) => f.response = Some((c.clone(), exts(0, 0))),
            FOp::AddResp(v) => {
                let mut r = MAddResp::default();
                for o in v {
                    match o {
                        AR::Success => r.success = true,
                        AR::CType(s) => r.ctype = Some(s.clone()),
                        AR::Schema(s) => r.schema = Some(s.clone()),
                    }
                }
                push(&mut f.addresp, r);
            }
            FOp::Ext(p) => f.ext.insert(0, piece(*p)),
        }
    }
    f
}

fn iop(
    o: &IOp,
    attype: &mut Option<Vec<S>>,
    title: &mut Option<S>,
    titles: &mut Option<Lang>,
    desc: &mut Option<S>,
    descs: &mut Option<Lang>,
) {
    match o {
        IOp::AType(s) => push(attype, s.clone()),
        IOp::Title(s) => *title = Some(s.clone()),
        IOp::Titles(m) => *titles = Some(lang_map(m)),
        IOp::Desc(s) => *desc = Some(s.clone()),
        IOp::Descs(m) => *descs = Some(lang_map(m)),
    }
}

fn inter_op(i: &mut MInter, o: &IOp) {
    iop(
        o,
        &mut i.attype,
        &mut i.title,
        &mut i.titles,
        &mut i.description,
        &mut i.descriptions,
    )
}

pub fn schema(ops: &[SOp]) -> MSchema {
    prop(ops).schema
}

fn prop(ops: &[SOp]) -> MProp {
    let mut p = MProp::default();
    for o in ops {
        let s = &mut p.schema;
        match o {
            SOp::I(i) => {
                iop(
                    i,
                    &mut s.attype,
                    &mut s.title,
                    &mut s.titles,
                    &mut s.description,
                    &mut s.descriptions,
                );
                inter_op(&mut p.inter, i);
            }
            SOp::Unit(u) => s.unit = Some(u.clone()),
            SOp::Format(u) => s.format = Some(u.clone()),
            SOp::Default(v) => s.default = Some(v.clone()),
            SOp::Ext(x) => s.ext.insert(0, piece(*x)),
            SOp::Finish => {}
            SOp::Kind(k) => match k {
                Kind::Tuple => s.sub = Some(array(exts(0, 0), true)),
                Kind::Vec => s.sub = Some(array(exts(0, 0), false)),
                Kind::TupleExt(a, b) => s.sub = Some(array(exts(*a, *b), true)),
                Kind::VecExt(a, b) => s.sub = Some(array(exts(*a, *b), false)),
                Kind::Bool => s.sub = Some(MSub::Boolean),
                Kind::Null => s.sub = Some(MSub::Null),
                Kind::Number => {
                    s.sub = Some(MSub::Number {
                        min: None,
                        max: None,
                        mul: None,
                    })
                }
                Kind::Integer => {
                    s.sub = Some(MSub::Integer {
                        min: None,
                        max: None,
                        mul: None,
                    })
                }
                Kind::Object => s.sub = Some(object(exts(0, 0))),
                Kind::ObjectExt(a, b) => s.sub = Some(object(exts(*a, *b))),
                Kind::Str => {
                    s.sub = Some(MSub::Str {
                        min: None,
                        max: None,
                        pattern: None,
                        cenc: None,
                        cmedia: None,
                    })
                }
                Kind::Const(v) => {
                    s.constant = Some(v.clone());
                    s.ro = true;
                }
            },
            SOp::Enum(v) => push(&mut s.enumeration, v.clone()),
            SOp::OneOf(x) => push(&mut s.one_of, schema(x)),
            SOp::ReadOnly => s.ro = true,
            SOp::WriteOnly => s.wo = true,
            SOp::Form(f) => p.inter.forms.push(form(f)),
            SOp::UriVar(n, x) => {
                p.inter
                    .urivars
                    .get_or_insert_with(BTreeMap::new)
                    .insert(n.clone(), schema(x));
            }
            SOp::Observable(b) => p.observable = Some(*b),
            SOp::ExtI(x) => p.inter.ext.insert(0, piece(*x)),
            SOp::ExtP(x) => p.ext.insert(0, piece(*x)),
            _ => sub_op(s.sub.as_mut().expect("ill-typed program"), o),
        }
    }
    p
}

fn array(ext: Ext, tuple: bool) -> MSub {
    MSub::Array {
        items: tuple.then(|| Items::Many(vec![])),
        min: None,
        max: None,
        ext,
    }
}

fn object(ext: Ext) -> MSub {
    MSub::Object {
        props: None,
        required: None,
        ext,
    }
}

fn sub_op(sub: &mut MSub, o: &SOp) {
    fn b<T: Copy>(excl: bool, v: T) -> Option<Bound<T>> {
        Some(Bound { excl, v })
    }
    match (sub, o) {
        (MSub::Array { items: Some(Items::Many(v)), .. }, SOp::Append(s)) => v.push(schema(s)),
        (MSub::Array { items, .. }, SOp::Item(s)) => *items = Some(Items::One(Box::new(schema(s)))),
        (MSub::Array { min, .. }, SOp::MinItems(n)) => *min = Some(*n),
        (MSub::Array { max, .. }, SOp::MaxItems(n)) => *max = Some(*n),
        (MSub::Number { min, .. }, SOp::NMin(F(x))) => *min = b(false, Fl(*x)),
        (MSub::Number { max, .. }, SOp::NMax(F(x))) => *max = b(false, Fl(*x)),
        (MSub::Number { min, .. }, SOp::NXMin(F(x))) => *min = b(true, Fl(*x)),
        (MSub::Number { max, .. }, SOp::NXMax(F(x))) => *max = b(true, Fl(*x)),
        (MSub::Number { mul, .. }, SOp::NMul(F(x))) => *mul = Some(Fl(*x)),
        (MSub::Integer { min, .. }, SOp::IMin(x)) => *min = b(false, *x),
        (MSub::Integer { max, .. }, SOp::IMax(x)) => *max = b(false, *x),
        (MSub::Integer { min, .. }, SOp::IXMin(x)) => *min = b(true, *x),
        (MSub::Integer { max, .. }, SOp::IXMax(x)) => *max = b(true, *x),
        (MSub::Integer { mul, .. }, SOp::IMul(x)) => *mul = Some(*x),
        (MSub::Object { props, required, .. }, SOp::Prop(n, req, s)) => {
            props
                .get_or_insert_with(BTreeMap::new)
                .insert(n.clone(), schema(s));
            let mut r = required.take().unwrap_or_default();
            r.retain(|x| x != n);
            if *req {
                r.push(n.clone());
            }
            *required = (!r.is_empty()).then_some(r);
        }
        (MSub::Str { min, .. }, SOp::MinLen(n)) => *min = Some(*n),
        (MSub::Str { max, .. }, SOp::MaxLen(n)) => *max = Some(*n),
        (MSub::Str { pattern, .. }, SOp::Pattern(s)) => *pattern = Some(s.clone()),
        (MSub::Str { cenc, .. }, SOp::CEnc(s)) => *cenc = Some(s.clone()),
        (MSub::Str { cmedia, .. }, SOp::CMedia(s)) => *cmedia = Some(s.clone()),
        (s, o) => panic!("ill-typed program: {o:?} on {s:?}"),
    }
}

fn act(ops: &[AOp]) -> MAct {
    let mut a = MAct::default();
    for o in ops {
        match o {
            AOp::I(i) => inter_op(&mut a.inter, i),
            AOp::Input(s) => a.input = Some(schema(s)),
            AOp::Output(s) => a.output = Some(schema(s)),
            AOp::Safe => a.safe = true,
            AOp::Idem => a.idempotent = true,
            AOp::Sync(b) => a.synchronous = Some(*b),
            AOp::Form(f) => a.inter.forms.push(form(f)),
            AOp::UriVar(n, s) => {
                a.inter
                    .urivars
                    .get_or_insert_with(BTreeMap::new)
                    .insert(n.clone(), schema(s));
            }
            AOp::ExtI(x) => a.inter.ext.insert(0, piece(*x)),
            AOp::Ext(x) => a.ext.insert(0, piece(*x)),
        }
    }
    a
}

fn evt(ops: &[EOp]) -> MEvt {
    let mut a = MEvt::default();
    for o in ops {
        match o {
            EOp::I(i) => inter_op(&mut a.inter, i),
            EOp::Subscription(s) => a.subscription = Some(schema(s)),
            EOp::Data(s) => a.data = Some(schema(s)),
            EOp::Cancellation(s) => a.cancellation = Some(schema(s)),
            EOp::DataResponse(s) => a.data_response = Some(schema(s)),
            EOp::Form(f) => a.inter.forms.push(form(f)),
            EOp::UriVar(n, s) => {
                a.inter
                    .urivars
                    .get_or_insert_with(BTreeMap::new)
                    .insert(n.clone(), schema(s));
            }
            EOp::ExtI(x) => a.inter.ext.insert(0, piece(*x)),
            EOp::Ext(x) => a.ext.insert(0, piece(*x)),
        }
    }
    a
}

// ---------------------------------------------------------------------------------------------
// Validity rules

struct V(Vec<Viol>);

impl V {
    fn add(&mut self, class: &'static str, keys: &[S]) {
        self.0.push(Viol {
            class,
            keys: keys.to_vec(),
        });
    }
}

pub fn legal_ops(ctx: &str) -> &'static [&'static str] {
    match ctx {
        "Property" => &OPS[0..4],
        "Action" => &OPS[4..7],
        "Event" => &OPS[7..9],
        _ => &OPS[9..18],
    }
}

pub fn violations(raw: &Raw) -> Vec<Viol> {
    let mut v = V(Vec::new());
    let t = &raw.thing;
    let secs: Vec<&S> = raw.secdefs.iter().map(|(n, _)| n).collect();
    for (i, n) in secs.iter().enumerate() {
        if secs[..i].contains(n) {
            v.add("S02", &[format!("DuplicatedSecurityDefinition({n:?})")]);
        }
    }
    for (_, s) in &raw.secdefs {
        lang(&mut v, &s.descriptions);
        if s.kind == "combo" {
            for l in s.params.as_object().unwrap().values() {
                for n in l.as_array().unwrap() {
                    let n = n.as_str().unwrap();
                    if !secs.iter().any(|s| *s == n) {
                        v.add(
                            "S01",
                            &[
                                format!("MissingSchemaDefinition({n:?})"),
                                format!("UndefinedSecurity({n:?})"),
                            ],
                        );
                    }
                }
            }
        }
    }
    for n in &t.security {
        if !secs.contains(&n) {
            v.add("S01", &[format!("UndefinedSecurity({n:?})")]);
        }
    }
    lang(&mut v, &t.titles);
    lang(&mut v, &t.descriptions);
    for l in t.links.iter().flatten() {
        for h in l.hreflang.iter().flatten() {
            tag(&mut v, h);
        }
        if l.sizes.is_some() && l.rel.as_deref() != Some("icon") {
            v.add("L02", &["SizesWithRelNotIcon".into()]);
        }
    }
    let defs: Vec<&S> = t.schemadefs.iter().flatten().map(|(n, _)| n).collect();
    for f in t.forms.iter().flatten() {
        if f.op.is_none() {
            v.add("F01", &["MissingOpInForm".into()]);
        }
        form_rules(&mut v, f, "Thing", &secs, &defs);
    }
    urivars(&mut v, &t.urivars);
    for s in t.schemadefs.iter().flatten().map(|(_, s)| s) {
        schema_rules(&mut v, s);
    }
    dups(&mut v, "Property", raw.properties.iter().map(|p| &p.0));
    dups(&mut v, "Action", raw.actions.iter().map(|p| &p.0));
    dups(&mut v, "Event", raw.events.iter().map(|p| &p.0));
    for (_, p) in &raw.properties {
        inter(&mut v, &p.inter, "Property", &secs, &defs);
        schema_rules(&mut v, &p.schema);
    }
    for (_, a) in &raw.actions {
        inter(&mut v, &a.inter, "Action", &secs, &defs);
        for s in [&a.input, &a.output].into_iter().flatten() {
            schema_rules(&mut v, s);
        }
    }
    for (_, e) in &raw.events {
        inter(&mut v, &e.inter, "Event", &secs, &defs);
        for s in [&e.subscription, &e.data, &e.data_response, &e.cancellation]
            .into_iter()
            .flatten()
        {
            schema_rules(&mut v, s);
        }
    }
    v.0
}

/// The rules seen on a finished (or parsed) Thing.
pub fn violations_of_thing(t: &MThing) -> Vec<Viol> {
    fn vec<T: Clone>(m: &Option<BTreeMap<S, T>>) -> Vec<(S, T)> {
        m.iter()
            .flatten()
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect()
    }
    violations(&Raw {
        properties: vec(&t.properties),
        actions: vec(&t.actions),
        events: vec(&t.events),
        secdefs: t.secdefs.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
        thing: t.clone(),
    })
}

fn dups<'a>(v: &mut V, ty: &str, names: impl Iterator<Item = &'a S>) {
    let mut seen: Vec<&S> = Vec::new();
    for n in names {
        if seen.contains(&n) {
            v.add("A01", &[format!("DuplicatedAffordance({ty}, {n:?})")]);
        }
        seen.push(n);
    }
}

fn inter(v: &mut V, i: &MInter, ctx: &str, secs: &[&S], defs: &[&S]) {
    lang(v, &i.titles);
    lang(v, &i.descriptions);
    for f in &i.forms {
        form_rules(v, f, ctx, secs, defs);
    }
    urivars(v, &i.urivars);
}

fn form_rules(v: &mut V, f: &MForm, ctx: &str, secs: &[&S], defs: &[&S]) {
    for o in f.op.iter().flatten() {
        if !legal_ops(ctx).contains(&o.as_str()) {
            v.add("F01", &[format!("InvalidOpInForm({ctx}, {o})")]);
        }
    }
    for s in f.security.iter().flatten() {
        if !secs.contains(&s) {
            v.add("S01", &[format!("UndefinedSecurity({s:?})")]);
        }
    }
    for r in f.addresp.iter().flatten() {
        if let Some(s) = &r.schema {
            if !defs.contains(&s) {
                v.add("R01", &[format!("MissingSchemaDefinition({s:?})")]);
            }
        }
    }
}

fn urivars(v: &mut V, u: &Option<BTreeMap<S, MSchema>>) {
    for s in u.iter().flatten().map(|(_, s)| s) {
        if matches!(s.sub, Some(MSub::Array { .. } | MSub::Object { .. })) {
            v.add("U01", &["InvalidUriVariables".into()]);
        }
        schema_rules(v, s);
    }
}

fn schema_rules(v: &mut V, s: &MSchema) {
    lang(v, &s.titles);
    lang(v, &s.descriptions);
    for o in s.one_of.iter().flatten() {
        schema_rules(v, o);
    }
    let empty = || ["InvalidMinMax".to_string()];
    match &s.sub {
        Some(MSub::Array { items, min, max, .. }) => {
            if let (Some(a), Some(b)) = (min, max) {
                if a > b {
                    v.add("D01", &empty());
                }
            }
            match items {
                Some(Items::One(i)) => schema_rules(v, i),
                Some(Items::Many(is)) => is.iter().for_each(|i| schema_rules(v, i)),
                None => {}
            }
        }
        Some(MSub::Number { min, max, mul }) => {
            let nan = [min, max].into_iter().flatten().any(|b| b.v.0.is_nan());
            if nan {
                v.add("D01", &["NanMinMax".into()]);
            }
            if let (false, Some(a), Some(b)) = (nan, min, max) {
                let (x, y) = (a.v.0, b.v.0);
                // No number lies in the range
                if x > y || (x == y && (a.excl || b.excl)) {
                    v.add("D01", &empty());
                }
            }
            if let Some(Fl(m)) = mul {
                if m.is_nan() || *m <= 0.0 {
                    v.add("D01", &["InvalidMultipleOf".into()]);
                }
            }
        }
        Some(MSub::Integer { min, max, .. }) => {
            if let (Some(a), Some(b)) = (min, max) {
                // The least and the greatest integer allowed
                let lo = i128::from(a.v) + i128::from(a.excl);
                let hi = i128::from(b.v) - i128::from(b.excl);
                if lo > hi {
                    v.add("D01", &empty());
                }
            }
        }
        Some(MSub::Object { props, .. }) => {
            for p in props.iter().flatten() {
                schema_rules(v, p.1);
            }
        }
        Some(MSub::Str { min, max, .. }) => {
            if let (Some(a), Some(b)) = (min, max) {
                if a > b {
                    v.add("D01", &empty());
                }
            }
        }
        Some(MSub::Boolean | MSub::Null) | None => {}
    }
}

fn lang(v: &mut V, l: &Option<Lang>) {
    for k in l.iter().flatten().map(|(k, _)| k) {
        tag(v, k);
    }
}

fn tag(v: &mut V, t: &S) {
    if !well_formed_tag(t) {
        v.add("L01", &[format!("InvalidLanguageTag({t:?})")]);
    }
}

/// Well-formedness of a language tag (RFC 5646, section 2.1).
pub fn well_formed_tag(t: &str) -> bool {
    const GRANDFATHERED: [&str; 26] = [
        "art-lojban", "cel-gaulish", "en-gb-oed", "i-ami", "i-bnn", "i-default", "i-enochian",
        "i-hak", "i-klingon", "i-lux", "i-mingo", "i-navajo", "i-pwn", "i-tao", "i-tay", "i-tsu",
        "no-bok", "no-nyn", "sgn-be-fr", "sgn-be-nl", "sgn-ch-de", "zh-guoyu", "zh-hakka",
        "zh-min", "zh-min-nan", "zh-xiang",
    ];
    let l = t.to_ascii_lowercase();
    if GRANDFATHERED.contains(&l.as_str()) {
        return true;
    }
    let parts: Vec<&str> = l.split('-').collect();
    let alnum = |p: &str| !p.is_empty() && p.len() <= 8 && p.bytes().all(|b| b.is_ascii_alphanumeric());
    let alpha = |p: &str| p.bytes().all(|b| b.is_ascii_alphabetic());
    if !parts.iter().all(|p| alnum(p)) {
        return false;
    }
    let private = |ps: &[&str]| ps.len() >= 2;
    if parts[0] == "x" {
        return private(&parts);
    }
    let first = parts[0];
    if !alpha(first) || first.len() < 2 {
        return false;
    }
    let mut i = 1;
    if first.len() <= 3 {
        let mut n = 0;
        while i < parts.len() && parts[i].len() == 3 && alpha(parts[i]) && n < 3 {
            i += 1;
            n += 1;
        }
    }
    if i < parts.len() && parts[i].len() == 4 && alpha(parts[i]) {
        i += 1;
    }
    if i < parts.len()
        && ((parts[i].len() == 2 && alpha(parts[i]))
            || (parts[i].len() == 3 && parts[i].bytes().all(|b| b.is_ascii_digit())))
    {
        i += 1;
    }
    while i < parts.len()
        && (parts[i].len() >= 5 || (parts[i].len() == 4 && parts[i].as_bytes()[0].is_ascii_digit()))
    {
        i += 1;
    }
    while i < parts.len() && parts[i].len() == 1 && parts[i] != "x" {
        i += 1;
        let mut n = 0;
        while i < parts.len() && parts[i].len() >= 2 {
            i += 1;
            n += 1;
        }
        if n == 0 {
            return false;
        }
    }
    if i < parts.len() && parts[i] == "x" {
        return private(&parts[i..]);
    }
    i == parts.len()
}

/// The violations of a data schema on its own.
pub fn schema_violations(s: &MSchema) -> Vec<Viol> {
    let mut v = V(Vec::new());
    schema_rules(&mut v, s);
    v.0
}
