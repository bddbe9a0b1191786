//! The W3C Thing Description 1.1 JSON form of a model Thing: a writer and a strict reader.
//!
//! Independent from the crate's serde implementations: names and shapes are spelled out here.

use std::collections::BTreeMap;

use serde_json::{json, Map, Number, Value};
use time::{format_description::well_known::Rfc3339, OffsetDateTime};

use crate::{ext::json_members, model::*, prog::S};

type Obj = Map<String, Value>;

/// How to write what the specification leaves open.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Style {
    /// Lists of one element are written as a scalar where the vocabulary allows it.
    pub scalar: bool,
    /// Members equal to their default are written explicitly.
    pub defaults: bool,
    /// Integral bounds of number schemas are written without a fraction.
    pub ints: bool,
    /// Members unknown to the vocabulary are added wherever they may be.
    pub extra: bool,
}

impl Style {
    pub fn all() -> impl Iterator<Item = Style> {
        (0..4).map(|i| Style {
            scalar: i & 1 != 0,
            defaults: i & 2 != 0,
            ints: i == 1 || i == 2,
            extra: false,
        })
    }

    fn unknown(&self, o: &mut Obj) {
        if self.extra {
            o.insert("x:unknown".into(), json!({"type": "object", "href": [1, null]}));
            o.insert("unknown".into(), json!("text"));
            o.insert("Title".into(), json!(1));
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Writer

fn opt(o: &mut Obj, k: &str, v: &Option<S>) {
    if let Some(v) = v {
        o.insert(k.into(), json!(v));
    }
}

fn strs(st: Style, v: &[S]) -> Value {
    if st.scalar && v.len() == 1 {
        json!(v[0])
    } else {
        json!(v)
    }
}

fn opt_strs(st: Style, o: &mut Obj, k: &str, v: &Option<Vec<S>>) {
    if let Some(v) = v {
        o.insert(k.into(), strs(st, v));
    }
}

fn opt_lang(o: &mut Obj, k: &str, v: &Option<Lang>) {
    if let Some(v) = v {
        o.insert(k.into(), json!(v));
    }
}

fn map<T>(m: &BTreeMap<S, T>, f: impl Fn(&T) -> Value) -> Value {
    Value::Object(m.iter().map(|(k, v)| (k.clone(), f(v))).collect())
}

pub fn write(t: &MThing, st: Style) -> Value {
    let mut o = Obj::new();
    o.insert("@context".into(), t.context.clone());
    opt(&mut o, "id", &t.id);
    opt_strs(st, &mut o, "@type", &t.attype);
    o.insert("title".into(), json!(t.title));
    opt_lang(&mut o, "titles", &t.titles);
    opt(&mut o, "description", &t.description);
    opt_lang(&mut o, "descriptions", &t.descriptions);
    if let Some((i, m)) = &t.version {
        let mut v = Obj::new();
        v.insert("instance".into(), json!(i));
        opt(&mut v, "model", m);
        st.unknown(&mut v);
        o.insert("version".into(), Value::Object(v));
    }
    for (k, d) in [("created", &t.created), ("modified", &t.modified)] {
        if let Some(d) = d {
            o.insert(k.into(), json!(dt_text(*d)));
        }
    }
    opt(&mut o, "support", &t.support);
    opt(&mut o, "base", &t.base);
    if let Some(m) = &t.properties {
        o.insert("properties".into(), map(m, |p| w_prop(p, st)));
    }
    if let Some(m) = &t.actions {
        o.insert("actions".into(), map(m, |p| w_act(p, st)));
    }
    if let Some(m) = &t.events {
        o.insert("events".into(), map(m, |p| w_evt(p, st)));
    }
    if let Some(l) = &t.links {
        o.insert("links".into(), l.iter().map(|l| w_link(l, st)).collect());
    }
    if let Some(f) = &t.forms {
        o.insert("forms".into(), f.iter().map(|f| w_form(f, st)).collect());
    }
    o.insert("security".into(), strs(st, &t.security));
    o.insert("securityDefinitions".into(), map(&t.secdefs, |s| w_sec(s, st)));
    if let Some(m) = &t.urivars {
        o.insert("uriVariables".into(), map(m, |s| w_schema(s, st)));
    }
    opt_strs(st, &mut o, "profile", &t.profile);
    if let Some(m) = &t.schemadefs {
        o.insert("schemaDefinitions".into(), map(m, |s| w_schema(s, st)));
    }
    json_members(&t.ext, "t", &mut o);
    st.unknown(&mut o);
    Value::Object(o)
}

fn w_inter(i: &MInter, o: &mut Obj, st: Style) {
    opt_strs(st, o, "@type", &i.attype);
    opt(o, "title", &i.title);
    opt_lang(o, "titles", &i.titles);
    opt(o, "description", &i.description);
    opt_lang(o, "descriptions", &i.descriptions);
    o.insert("forms".into(), i.forms.iter().map(|f| w_form(f, st)).collect());
    if let Some(m) = &i.urivars {
        o.insert("uriVariables".into(), map(m, |s| w_schema(s, st)));
    }
    json_members(&i.ext, "i", o);
    st.unknown(o);
}

fn w_prop(p: &MProp, st: Style) -> Value {
    let mut o = Obj::new();
    w_inter(&p.inter, &mut o, st);
    w_schema_into(&p.schema, &mut o, st);
    match p.observable {
        Some(b) => {
            o.insert("observable".into(), json!(b));
        }
        None => {}
    }
    json_members(&p.ext, "p", &mut o);
    Value::Object(o)
}

fn w_act(a: &MAct, st: Style) -> Value {
    let mut o = Obj::new();
    w_inter(&a.inter, &mut o, st);
    for (k, s) in [("input", &a.input), ("output", &a.output)] {
        if let Some(s) = s {
            o.insert(k.into(), w_schema(s, st));
        }
    }
    for (k, b) in [("safe", a.safe), ("idempotent", a.idempotent)] {
        if b || st.defaults {
            o.insert(k.into(), json!(b));
        }
    }
    if let Some(b) = a.synchronous {
        o.insert("synchronous".into(), json!(b));
    }
    json_members(&a.ext, "a", &mut o);
    Value::Object(o)
}

fn w_evt(e: &MEvt, st: Style) -> Value {
    let mut o = Obj::new();
    w_inter(&e.inter, &mut o, st);
    for (k, s) in [
        ("subscription", &e.subscription),
        ("data", &e.data),
        ("dataResponse", &e.data_response),
        ("cancellation", &e.cancellation),
    ] {
        if let Some(s) = s {
            o.insert(k.into(), w_schema(s, st));
        }
    }
    json_members(&e.ext, "e", &mut o);
    Value::Object(o)
}

fn w_link(l: &MLink, st: Style) -> Value {
    let mut o = Obj::new();
    o.insert("href".into(), json!(l.href));
    opt(&mut o, "type", &l.ty);
    opt(&mut o, "rel", &l.rel);
    opt(&mut o, "anchor", &l.anchor);
    opt(&mut o, "sizes", &l.sizes);
    opt_strs(st, &mut o, "hreflang", &l.hreflang);
    st.unknown(&mut o);
    Value::Object(o)
}

fn w_form(f: &MForm, st: Style) -> Value {
    let mut o = Obj::new();
    opt_strs(st, &mut o, "op", &f.op);
    o.insert("href".into(), json!(f.href));
    opt(&mut o, "contentType", &f.ctype);
    opt(&mut o, "contentCoding", &f.ccoding);
    opt(&mut o, "subprotocol", &f.subproto);
    opt_strs(st, &mut o, "security", &f.security);
    opt_strs(st, &mut o, "scopes", &f.scopes);
    if let Some((c, e)) = &f.response {
        let mut r = Obj::new();
        r.insert("contentType".into(), json!(c));
        json_members(e, "r", &mut r);
        st.unknown(&mut r);
        o.insert("response".into(), Value::Object(r));
    }
    if let Some(v) = &f.addresp {
        let v: Vec<Value> = v
            .iter()
            .map(|r| {
                let mut o = Obj::new();
                if r.success || st.defaults {
                    o.insert("success".into(), json!(r.success));
                }
                opt(&mut o, "contentType", &r.ctype);
                opt(&mut o, "schema", &r.schema);
                st.unknown(&mut o);
                Value::Object(o)
            })
            .collect();
        let v = if st.scalar && v.len() == 1 {
            v.into_iter().next().unwrap()
        } else {
            Value::Array(v)
        };
        o.insert("additionalResponses".into(), v);
    }
    json_members(&f.ext, "f", &mut o);
    st.unknown(&mut o);
    Value::Object(o)
}

/// Default members of the known schemes.
fn sec_defaults(kind: &str) -> Value {
    match kind {
        "basic" => json!({"in": "header"}),
        "digest" => json!({"in": "header", "qop": "auth"}),
        "apikey" => json!({"in": "query"}),
        "bearer" => json!({"in": "header", "alg": "ES256", "format": "jwt"}),
        _ => json!({}),
    }
}

fn w_sec(s: &MSec, st: Style) -> Value {
    let mut o = Obj::new();
    opt_strs(st, &mut o, "@type", &s.attype);
    opt(&mut o, "description", &s.description);
    opt_lang(&mut o, "descriptions", &s.descriptions);
    opt(&mut o, "proxy", &s.proxy);
    o.insert("scheme".into(), json!(s.kind.trim_start_matches('?')));
    let defaults = sec_defaults(&s.kind);
    if !s.kind.starts_with('?') {
        st.unknown(&mut o);
    }
    for (k, v) in s.params.as_object().into_iter().flatten() {
        if !st.defaults && defaults.get(k) == Some(v) {
            continue;
        }
        let list = matches!(k.as_str(), "oneOf" | "allOf" | "scopes") && !s.kind.starts_with('?');
        let v = match v {
            Value::Array(a) if list && st.scalar && a.len() == 1 => a[0].clone(),
            v => v.clone(),
        };
        o.insert(k.clone(), v);
    }
    Value::Object(o)
}

fn w_schema(s: &MSchema, st: Style) -> Value {
    let mut o = Obj::new();
    opt_strs(st, &mut o, "@type", &s.attype);
    opt(&mut o, "title", &s.title);
    opt_lang(&mut o, "titles", &s.titles);
    opt(&mut o, "description", &s.description);
    opt_lang(&mut o, "descriptions", &s.descriptions);
    w_schema_into(s, &mut o, st);
    Value::Object(o)
}

fn num(x: f64, st: Style) -> Value {
    if st.ints && x.fract() == 0.0 && x.abs() < 1e15 && (x != 0.0 || x.is_sign_positive()) {
        return json!(x as i64);
    }
    Number::from_f64(x).map(Value::Number).unwrap_or(Value::Null)
}

/// The members a data schema does not share with an interaction affordance.
fn w_schema_into(s: &MSchema, o: &mut Obj, st: Style) {
    for (k, v) in [("const", &s.constant), ("default", &s.default)] {
        if let Some(v) = v {
            o.insert(k.into(), v.clone());
        }
    }
    opt(o, "unit", &s.unit);
    if let Some(v) = &s.one_of {
        o.insert("oneOf".into(), v.iter().map(|s| w_schema(s, st)).collect());
    }
    if let Some(v) = &s.enumeration {
        o.insert("enum".into(), json!(v));
    }
    for (k, b) in [("readOnly", s.ro), ("writeOnly", s.wo)] {
        if b || st.defaults {
            o.insert(k.into(), json!(b));
        }
    }
    opt(o, "format", &s.format);
    json_members(&s.ext, "d", o);
    st.unknown(o);
    fn n<T: serde::Serialize>(o: &mut Obj, k: &str, v: &Option<T>) {
        if let Some(v) = v {
            o.insert(k.into(), json!(v));
        }
    }
    let ty = match &s.sub {
        None => return,
        Some(MSub::Array { items, min, max, ext }) => {
            match items {
                None => {}
                Some(Items::One(s)) => {
                    o.insert("items".into(), w_schema(s, st));
                }
                Some(Items::Many(v)) => {
                    o.insert("items".into(), v.iter().map(|s| w_schema(s, st)).collect());
                }
            }
            n(o, "minItems", min);
            n(o, "maxItems", max);
            json_members(ext, "y", o);
            "array"
        }
        Some(MSub::Boolean) => "boolean",
        Some(MSub::Number { min, max, mul }) => {
            for (b, incl, excl) in [
                (min, "minimum", "exclusiveMinimum"),
                (max, "maximum", "exclusiveMaximum"),
            ] {
                if let Some(b) = b {
                    o.insert(if b.excl { excl } else { incl }.into(), num(b.v.0, st));
                }
            }
            if let Some(m) = mul {
                o.insert("multipleOf".into(), num(m.0, st));
            }
            "number"
        }
        Some(MSub::Integer { min, max, mul }) => {
            for (b, incl, excl) in [
                (min, "minimum", "exclusiveMinimum"),
                (max, "maximum", "exclusiveMaximum"),
            ] {
                if let Some(b) = b {
                    o.insert(if b.excl { excl } else { incl }.into(), json!(b.v));
                }
            }
            n(o, "multipleOf", mul);
            "integer"
        }
        Some(MSub::Object { props, required, ext }) => {
            if let Some(p) = props {
                o.insert("properties".into(), map(p, |s| w_schema(s, st)));
            }
            n(o, "required", required);
            json_members(ext, "o", o);
            "object"
        }
        Some(MSub::Str { min, max, pattern, cenc, cmedia }) => {
            n(o, "minLength", min);
            n(o, "maxLength", max);
            opt(o, "pattern", pattern);
            opt(o, "contentEncoding", cenc);
            opt(o, "contentMediaType", cmedia);
            "string"
        }
        Some(MSub::Null) => "null",
    };
    o.insert("type".into(), json!(ty));
}

// ---------------------------------------------------------------------------------------------
// Reader

/// Leniencies of the reader.
#[derive(Clone, Copy, Debug, Default)]
pub struct Read {
    /// Extension members are expected (two extensions).
    pub ext: bool,
    /// Unknown members are ignored instead of being errors.
    pub unknown: bool,
}

type R<T> = Result<T, String>;

struct Rd<'a> {
    o: BTreeMap<&'a str, &'a Value>,
    at: String,
    cfg: Read,
}

impl<'a> Rd<'a> {
    fn new(v: &'a Value, at: &str, cfg: Read) -> R<Rd<'a>> {
        let o = v
            .as_object()
            .ok_or_else(|| format!("{at}: expected an object, got {v}"))?;
        Ok(Rd {
            o: o.iter().map(|(k, v)| (k.as_str(), v)).collect(),
            at: at.to_string(),
            cfg,
        })
    }

    fn get(&mut self, k: &str) -> Option<&'a Value> {
        self.o.remove(k)
    }

    fn err<T>(&self, k: &str, what: &str) -> R<T> {
        Err(format!("{}/{k}: {what}", self.at))
    }

    fn str(&mut self, k: &str) -> R<Option<S>> {
        match self.get(k) {
            None => Ok(None),
            Some(Value::String(s)) => Ok(Some(s.clone())),
            Some(v) => self.err(k, &format!("expected a string, got {v}")),
        }
    }

    fn need(&mut self, k: &str) -> R<S> {
        match self.str(k)? {
            Some(s) => Ok(s),
            None => self.err(k, "missing"),
        }
    }

    fn bool(&mut self, k: &str) -> R<Option<bool>> {
        match self.get(k) {
            None => Ok(None),
            Some(Value::Bool(b)) => Ok(Some(*b)),
            Some(v) => self.err(k, &format!("expected a boolean, got {v}")),
        }
    }

    fn strs(&mut self, k: &str, scalar: bool) -> R<Option<Vec<S>>> {
        match self.get(k) {
            None => Ok(None),
            Some(Value::String(s)) if scalar => Ok(Some(vec![s.clone()])),
            Some(Value::Array(a)) => a
                .iter()
                .map(|v| match v {
                    Value::String(s) => Ok(s.clone()),
                    v => self.err(k, &format!("expected a string, got {v}")),
                })
                .collect::<R<_>>()
                .map(Some),
            Some(v) => self.err(k, &format!("expected strings, got {v}")),
        }
    }

    fn lang(&mut self, k: &str) -> R<Option<Lang>> {
        let m = self.map(k, |v, at| match v {
            Value::String(s) => Ok(s.clone()),
            v => Err(format!("{at}: expected a string, got {v}")),
        })?;
        if let Some(t) = m.iter().flatten().map(|(t, _)| t).find(|t| !well_formed_tag(t)) {
            return self.err(k, &format!("ill-formed language tag {t:?}"));
        }
        Ok(m.map(|m| m.into_iter().map(|(k, v)| (canon(&k), v)).collect()))
    }

    fn map<T>(&mut self, k: &str, f: impl Fn(&Value, &str) -> R<T>) -> R<Option<BTreeMap<S, T>>> {
        match self.get(k) {
            None => Ok(None),
            Some(Value::Object(o)) => o
                .iter()
                .map(|(n, v)| Ok((n.clone(), f(v, &format!("{}/{k}/{n}", self.at))?)))
                .collect::<R<_>>()
                .map(Some),
            Some(v) => self.err(k, &format!("expected an object, got {v}")),
        }
    }

    fn list<T>(&mut self, k: &str, f: impl Fn(&Value, &str) -> R<T>) -> R<Option<Vec<T>>> {
        match self.get(k) {
            None => Ok(None),
            Some(Value::Array(a)) => a
                .iter()
                .enumerate()
                .map(|(i, v)| f(v, &format!("{}/{k}/{i}", self.at)))
                .collect::<R<_>>()
                .map(Some),
            Some(v) => self.err(k, &format!("expected an array, got {v}")),
        }
    }

    fn u32(&mut self, k: &str) -> R<Option<u32>> {
        match self.get(k) {
            None => Ok(None),
            Some(v) => match v.as_u64().and_then(|x| u32::try_from(x).ok()) {
                Some(x) => Ok(Some(x)),
                None => self.err(k, &format!("expected an unsigned integer, got {v}")),
            },
        }
    }

    fn ext(&mut self, place: &str) -> R<Ext> {
        if !self.cfg.ext {
            return Ok(vec![]);
        }
        let mut out = vec![];
        for who in ["B", "A"] {
            let n = self.get(&format!("{who}:{place}n")).cloned().unwrap_or(Value::Null);
            let s = self.get(&format!("{who}:{place}s")).cloned().unwrap_or(json!(""));
            let v = self.get(&format!("{who}:{place}v")).cloned().unwrap_or(json!([]));
            out.push(json!({"n": n, "s": s, "v": v}));
        }
        Ok(out)
    }

    fn done(&self) -> R<()> {
        match self.o.keys().next() {
            Some(k) if !self.cfg.unknown => self.err(k, "unexpected member"),
            _ => Ok(()),
        }
    }
}

fn datetime(o: &mut Rd, k: &str) -> R<Option<(i128, i32)>> {
    match o.str(k)? {
        None => Ok(None),
        Some(s) => match OffsetDateTime::parse(&s, &Rfc3339) {
            Ok(t) => Ok(Some(dt(t))),
            Err(e) => o.err(k, &format!("{s:?} is not a date-time: {e}")),
        },
    }
}

/// Only strings as a missing `security`.
pub fn read(v: &Value, cfg: Read) -> R<MThing> {
    let mut o = Rd::new(v, "", cfg)?;
    let schemas = |v: &Value, at: &str| r_schema(v, at, cfg);
    let context = match o.get("@context") {
        None => json!(CTX11),
        Some(v) => v.clone(),
    };
    let t = MThing {
        context,
        id: o.str("id")?,
        attype: o.strs("@type", true)?,
        title: o.need("title")?,
        titles: o.lang("titles")?,
        description: o.str("description")?,
        descriptions: o.lang("descriptions")?,
        version: match o.get("version") {
            None => None,
            Some(v) => {
                let mut r = Rd::new(v, "/version", cfg)?;
                let out = (r.need("instance")?, r.str("model")?);
                r.done()?;
                Some(out)
            }
        },
        created: datetime(&mut o, "created")?,
        modified: datetime(&mut o, "modified")?,
        support: o.str("support")?,
        base: o.str("base")?,
        properties: o.map("properties", |v, at| r_prop(v, at, cfg))?,
        actions: o.map("actions", |v, at| r_act(v, at, cfg))?,
        events: o.map("events", |v, at| r_evt(v, at, cfg))?,
        links: o.list("links", |v, at| r_link(v, at, cfg))?,
        forms: o.list("forms", |v, at| r_form(v, at, cfg))?,
        security: match o.strs("security", true)? {
            Some(s) => s,
            None => return o.err("security", "missing"),
        },
        secdefs: match o.map("securityDefinitions", |v, at| r_sec(v, at, cfg))? {
            Some(s) => s,
            None => return o.err("securityDefinitions", "missing"),
        },
        urivars: o.map("uriVariables", schemas)?,
        profile: o.strs("profile", true)?,
        schemadefs: o.map("schemaDefinitions", schemas)?,
        ext: o.ext("t")?,
    };
    o.done()?;
    Ok(t)
}

fn r_inter(o: &mut Rd, shared: &MSchema) -> R<MInter> {
    let cfg = o.cfg;
    Ok(MInter {
        attype: shared.attype.clone(),
        title: shared.title.clone(),
        titles: shared.titles.clone(),
        description: shared.description.clone(),
        descriptions: shared.descriptions.clone(),
        forms: match o.list("forms", |v, at| r_form(v, at, cfg))? {
            Some(f) => f,
            None => return o.err("forms", "missing"),
        },
        urivars: o.map("uriVariables", |v, at| r_schema(v, at, cfg))?,
        ext: o.ext("i")?,
    })
}

/// The human readable members, as part of an otherwise empty schema.
fn r_info(o: &mut Rd) -> R<MSchema> {
    Ok(MSchema {
        attype: o.strs("@type", true)?,
        title: o.str("title")?,
        titles: o.lang("titles")?,
        description: o.str("description")?,
        descriptions: o.lang("descriptions")?,
        ..Default::default()
    })
}

fn r_prop(v: &Value, at: &str, cfg: Read) -> R<MProp> {
    let mut o = Rd::new(v, at, cfg)?;
    let schema = r_schema_members(&mut o)?;
    let p = MProp {
        inter: r_inter(&mut o, &schema)?,
        schema,
        observable: o.bool("observable")?,
        ext: o.ext("p")?,
    };
    o.done()?;
    Ok(p)
}

fn r_act(v: &Value, at: &str, cfg: Read) -> R<MAct> {
    let mut o = Rd::new(v, at, cfg)?;
    let info = r_info(&mut o)?;
    let schema = |o: &mut Rd, k: &str| {
        o.get(k)
            .map(|v| r_schema(v, &format!("{at}/{k}"), cfg))
            .transpose()
    };
    let a = MAct {
        inter: r_inter(&mut o, &info)?,
        input: schema(&mut o, "input")?,
        output: schema(&mut o, "output")?,
        safe: o.bool("safe")?.unwrap_or(false),
        idempotent: o.bool("idempotent")?.unwrap_or(false),
        synchronous: o.bool("synchronous")?,
        ext: o.ext("a")?,
    };
    o.done()?;
    Ok(a)
}

fn r_evt(v: &Value, at: &str, cfg: Read) -> R<MEvt> {
    let mut o = Rd::new(v, at, cfg)?;
    let info = r_info(&mut o)?;
    let schema = |o: &mut Rd, k: &str| {
        o.get(k)
            .map(|v| r_schema(v, &format!("{at}/{k}"), cfg))
            .transpose()
    };
    let a = MEvt {
        inter: r_inter(&mut o, &info)?,
        subscription: schema(&mut o, "subscription")?,
        data: schema(&mut o, "data")?,
        data_response: schema(&mut o, "dataResponse")?,
        cancellation: schema(&mut o, "cancellation")?,
        ext: o.ext("e")?,
    };
    o.done()?;
    Ok(a)
}

fn r_link(v: &Value, at: &str, cfg: Read) -> R<MLink> {
    let mut o = Rd::new(v, at, cfg)?;
    let tags = o.strs("hreflang", true)?;
    if let Some(t) = tags.iter().flatten().find(|t| !well_formed_tag(t)) {
        return o.err("hreflang", &format!("ill-formed language tag {t:?}"));
    }
    let l = MLink {
        href: o.need("href")?,
        ty: o.str("type")?,
        rel: o.str("rel")?,
        anchor: o.str("anchor")?,
        sizes: o.str("sizes")?,
        hreflang: tags
            .map(|v| v.iter().map(|t| canon(t)).collect()),
    };
    o.done()?;
    Ok(l)
}

fn r_form(v: &Value, at: &str, cfg: Read) -> R<MForm> {
    let mut o = Rd::new(v, at, cfg)?;
    let op = o.strs("op", true)?;
    for x in op.iter().flatten() {
        if !crate::prog::OPS.contains(&x.as_str()) {
            return o.err("op", &format!("unknown operation {x:?}"));
        }
    }
    let resp = |v: &Value, at: &str| {
        let mut o = Rd::new(v, at, cfg)?;
        let r = MAddResp {
            success: o.bool("success")?.unwrap_or(false),
            ctype: o.str("contentType")?,
            schema: o.str("schema")?,
        };
        o.done()?;
        Ok(r)
    };
    let f = MForm {
        op,
        href: o.need("href")?,
        ctype: o.str("contentType")?,
        ccoding: o.str("contentCoding")?,
        subproto: o.str("subprotocol")?,
        security: o.strs("security", true)?,
        scopes: o.strs("scopes", true)?,
        response: match o.get("response") {
            None => None,
            Some(v) => {
                let mut r = Rd::new(v, &format!("{at}/response"), cfg)?;
                let out = (r.need("contentType")?, r.ext("r")?);
                r.done()?;
                Some(out)
            }
        },
        addresp: match o.o.get("additionalResponses") {
            Some(v @ Value::Object(_)) => {
                let r = resp(v, &format!("{at}/additionalResponses"))?;
                o.get("additionalResponses");
                Some(vec![r])
            }
            _ => o.list("additionalResponses", resp)?,
        },
        ext: o.ext("f")?,
    };
    o.done()?;
    Ok(f)
}

fn r_sec(v: &Value, at: &str, cfg: Read) -> R<MSec> {
    let mut o = Rd::new(v, at, cfg)?;
    let mut s = MSec {
        attype: o.strs("@type", true)?,
        description: o.str("description")?,
        descriptions: o.lang("descriptions")?,
        proxy: o.str("proxy")?,
        ..Default::default()
    };
    let scheme = o.need("scheme")?;
    let (strings, lists): (&[&str], &[&str]) = match scheme.as_str() {
        "nosec" | "auto" => (&[], &[]),
        "combo" => (&[], &["oneOf", "allOf"]),
        "basic" | "apikey" => (&["in", "name"], &[]),
        "digest" => (&["in", "name", "qop"], &[]),
        "bearer" => (&["in", "name", "authorization", "alg", "format"], &[]),
        "psk" => (&["identity"], &[]),
        "oauth2" => (&["authorization", "token", "refresh", "flow"], &["scopes"]),
        _ => {
            s.kind = format!("?{scheme}");
            s.params = Value::Object(
                o.o.iter()
                    .map(|(k, v)| (k.to_string(), (*v).clone()))
                    .collect(),
            );
            return Ok(s);
        }
    };
    let mut params = match sec_defaults(&scheme) {
        Value::Object(o) => o,
        _ => unreachable!(),
    };
    for k in strings {
        if let Some(v) = o.str(k)? {
            let allowed: &[&str] = match *k {
                "in" => &crate::prog::LOCATIONS,
                "qop" => &crate::prog::QOPS,
                _ => &[],
            };
            if !allowed.is_empty() && !allowed.contains(&v.as_str()) {
                return o.err(k, &format!("unknown value {v:?}"));
            }
            params.insert(k.to_string(), json!(v));
        }
    }
    for k in lists {
        if let Some(v) = o.strs(k, true)? {
            params.insert(k.to_string(), json!(v));
        }
    }
    if scheme == "combo" && params.len() != 1 {
        return o.err("oneOf", "exactly one of oneOf and allOf");
    }
    if scheme == "oauth2" && !params.contains_key("flow") {
        return o.err("flow", "missing");
    }
    o.done()?;
    s.kind = scheme;
    s.params = Value::Object(params);
    Ok(s)
}

pub fn r_schema(v: &Value, at: &str, cfg: Read) -> R<MSchema> {
    let mut o = Rd::new(v, at, cfg)?;
    let s = r_schema_members(&mut o)?;
    o.done()?;
    Ok(s)
}

fn r_schema_members(o: &mut Rd) -> R<MSchema> {
    let cfg = o.cfg;
    let at = o.at.clone();
    let rec = |v: &Value, at: &str| r_schema(v, at, cfg);
    let mut s = r_info(o)?;
    s.constant = o.get("const").cloned();
    s.default = o.get("default").cloned();
    s.unit = o.str("unit")?;
    s.one_of = o.list("oneOf", rec)?;
    s.enumeration = o.list("enum", |v, _| Ok(v.clone()))?;
    s.ro = o.bool("readOnly")?.unwrap_or(false);
    s.wo = o.bool("writeOnly")?.unwrap_or(false);
    s.format = o.str("format")?;
    s.ext = o.ext("d")?;
    fn bound<T>(
        o: &mut Rd,
        incl: &str,
        excl: &str,
        f: impl Fn(&Value) -> Option<T>,
    ) -> R<Option<Bound<T>>> {
        let mut out = None;
        for (k, e) in [(incl, false), (excl, true)] {
            if let Some(v) = o.get(k) {
                if out.is_some() {
                    return o.err(k, "both kinds of bound");
                }
                match f(v) {
                    Some(v) => out = Some(Bound { excl: e, v }),
                    None => return o.err(k, &format!("not a suitable number: {v}")),
                }
            }
        }
        Ok(out)
    }
    s.sub = match o.str("type")?.as_deref() {
        None => None,
        Some("array") => Some(MSub::Array {
            items: match o.get("items") {
                None => None,
                Some(Value::Array(a)) => Some(Items::Many(
                    a.iter()
                        .enumerate()
                        .map(|(i, v)| rec(v, &format!("{at}/items/{i}")))
                        .collect::<R<_>>()?,
                )),
                Some(v) => Some(Items::One(Box::new(rec(v, &format!("{at}/items"))?))),
            },
            min: o.u32("minItems")?,
            max: o.u32("maxItems")?,
            ext: o.ext("y")?,
        }),
        Some("boolean") => Some(MSub::Boolean),
        Some("number") => Some(MSub::Number {
            min: bound(o, "minimum", "exclusiveMinimum", |v| v.as_f64().map(Fl))?,
            max: bound(o, "maximum", "exclusiveMaximum", |v| v.as_f64().map(Fl))?,
            mul: match o.get("multipleOf") {
                None => None,
                Some(v) => match v.as_f64() {
                    Some(x) => Some(Fl(x)),
                    None => return o.err("multipleOf", &format!("not a number: {v}")),
                },
            },
        }),
        Some("integer") => Some(MSub::Integer {
            min: bound(o, "minimum", "exclusiveMinimum", Value::as_i64)?,
            max: bound(o, "maximum", "exclusiveMaximum", Value::as_i64)?,
            mul: match o.get("multipleOf") {
                None => None,
                Some(v) => match v.as_u64() {
                    Some(x) if x > 0 => Some(x),
                    _ => return o.err("multipleOf", &format!("not a positive integer: {v}")),
                },
            },
        }),
        Some("object") => Some(MSub::Object {
            props: o.map("properties", rec)?,
            required: o.strs("required", false)?,
            ext: o.ext("o")?,
        }),
        Some("string") => Some(MSub::Str {
            min: o.u32("minLength")?,
            max: o.u32("maxLength")?,
            pattern: o.str("pattern")?,
            cenc: o.str("contentEncoding")?,
            cmedia: o.str("contentMediaType")?,
        }),
        Some("null") => Some(MSub::Null),
        Some(t) => return o.err("type", &format!("unknown type {t:?}")),
    };
    Ok(s)
}

// ---------------------------------------------------------------------------------------------
// Text with a chosen member order

/// Writes `v` with the members of every object in the order chosen by `order`:
/// 0 sorted, 1 reversed, k >= 2 sorted and rotated by k - 1.
pub fn text(v: &Value, order: u32) -> String {
    let mut s = String::new();
    put(v, order, &mut s);
    s
}

fn put(v: &Value, order: u32, out: &mut String) {
    match v {
        Value::Array(a) => {
            out.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                put(v, order, out);
            }
            out.push(']');
        }
        Value::Object(o) => {
            let mut keys: Vec<&String> = o.keys().collect();
            keys.sort();
            match order {
                0 => {}
                1 => keys.reverse(),
                k => {
                    let n = keys.len();
                    if n > 0 {
                        keys.rotate_left((k as usize - 1) % n)
                    }
                }
            }
            out.push('{');
            for (i, k) in keys.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(&Value::from(k.as_str()).to_string());
                out.push(':');
                put(&o[k], order, out);
            }
            out.push('}');
        }
        v => out.push_str(&v.to_string()),
    }
}
