//! Field-by-field observation of a real Thing (only public fields are read; the crate's own
//! PartialEq / Serialize implementations are not used).

use std::collections::{BTreeMap, HashMap};

use oxilangtag::LanguageTag;
use serde_json::{json, Map, Value};
use wot_td::{extend::ExtendableThing, thing::*};

use crate::{ext::ExtDump, model::*, prog::S};

pub trait Dumpable:
    ExtendableThing<
        InteractionAffordance: ExtDump,
        PropertyAffordance: ExtDump,
        ActionAffordance: ExtDump,
        EventAffordance: ExtDump,
        Form: ExtDump,
        ExpectedResponse: ExtDump,
        DataSchema: ExtDump,
        ObjectSchema: ExtDump,
        ArraySchema: ExtDump,
    > + ExtDump
{
}

impl<T> Dumpable for T where
    T: ExtendableThing<
            InteractionAffordance: ExtDump,
            PropertyAffordance: ExtDump,
            ActionAffordance: ExtDump,
            EventAffordance: ExtDump,
            Form: ExtDump,
            ExpectedResponse: ExtDump,
            DataSchema: ExtDump,
            ObjectSchema: ExtDump,
            ArraySchema: ExtDump,
        > + ExtDump
{
}

fn lang(l: &Option<HashMap<LanguageTag<String>, String>>) -> Option<Lang> {
    l.as_ref().map(|l| {
        l.iter()
            .map(|(k, v)| (canon(k.as_str()), v.clone()))
            .collect()
    })
}

fn map<A, B>(m: &Option<HashMap<S, A>>, f: impl Fn(&A) -> B) -> Option<BTreeMap<S, B>> {
    m.as_ref()
        .map(|m| m.iter().map(|(k, v)| (k.clone(), f(v))).collect())
}

pub fn thing<O: Dumpable>(t: &Thing<O>) -> MThing {
    MThing {
        context: t.context.clone(),
        id: t.id.clone(),
        attype: t.attype.clone(),
        title: t.title.clone(),
        titles: lang(&t.titles),
        description: t.description.clone(),
        descriptions: lang(&t.descriptions),
        version: t
            .version
            .as_ref()
            .map(|v| (v.instance.clone(), v.model.clone())),
        created: t.created.map(dt),
        modified: t.modified.map(dt),
        support: t.support.clone(),
        base: t.base.clone(),
        properties: map(&t.properties, prop::<O>),
        actions: map(&t.actions, act::<O>),
        events: map(&t.events, evt::<O>),
        links: t.links.as_ref().map(|l| l.iter().map(link).collect()),
        forms: t.forms.as_ref().map(|f| f.iter().map(form::<O>).collect()),
        security: t.security.clone(),
        secdefs: t
            .security_definitions
            .iter()
            .map(|(k, v)| (k.clone(), sec(v)))
            .collect(),
        urivars: map(&t.uri_variables, schema),
        profile: t.profile.clone(),
        schemadefs: map(&t.schema_definitions, schema),
        ext: t.other.dump(),
    }
}

fn inter<O: Dumpable>(i: &InteractionAffordance<O>) -> MInter {
    MInter {
        attype: i.attype.clone(),
        title: i.title.clone(),
        titles: lang(&i.titles),
        description: i.description.clone(),
        descriptions: lang(&i.descriptions),
        forms: i.forms.iter().map(form::<O>).collect(),
        urivars: map(&i.uri_variables, schema),
        ext: i.other.dump(),
    }
}

pub fn prop<O: Dumpable>(p: &PropertyAffordance<O>) -> MProp {
    MProp {
        inter: inter(&p.interaction),
        schema: schema(&p.data_schema),
        observable: p.observable,
        ext: p.other.dump(),
    }
}

pub fn act<O: Dumpable>(a: &ActionAffordance<O>) -> MAct {
    MAct {
        inter: inter(&a.interaction),
        input: a.input.as_ref().map(schema),
        output: a.output.as_ref().map(schema),
        safe: a.safe,
        idempotent: a.idempotent,
        synchronous: a.synchronous,
        ext: a.other.dump(),
    }
}

pub fn evt<O: Dumpable>(e: &EventAffordance<O>) -> MEvt {
    MEvt {
        inter: inter(&e.interaction),
        subscription: e.subscription.as_ref().map(schema),
        data: e.data.as_ref().map(schema),
        data_response: e.data_response.as_ref().map(schema),
        cancellation: e.cancellation.as_ref().map(schema),
        ext: e.other.dump(),
    }
}

pub fn link(l: &Link) -> MLink {
    MLink {
        href: l.href.clone(),
        ty: l.ty.clone(),
        rel: l.rel.clone(),
        anchor: l.anchor.clone(),
        sizes: l.sizes.clone(),
        hreflang: l
            .hreflang
            .as_ref()
            .map(|v| v.iter().map(|t| canon(t.as_str())).collect()),
    }
}

pub fn op_name(o: FormOperation) -> &'static str {
    use FormOperation::*;
    match o {
        ReadProperty => "readproperty",
        WriteProperty => "writeproperty",
        ObserveProperty => "observeproperty",
        UnobserveProperty => "unobserveproperty",
        InvokeAction => "invokeaction",
        QueryAction => "queryaction",
        CancelAction => "cancelaction",
        SubscribeEvent => "subscribeevent",
        UnsubscribeEvent => "unsubscribeevent",
        ReadAllProperties => "readallproperties",
        WriteAllProperties => "writeallproperties",
        ReadMultipleProperties => "readmultipleproperties",
        WriteMultipleProperties => "writemultipleproperties",
        ObserveAllProperties => "observeallproperties",
        UnobserveAllProperties => "unobserveallproperties",
        SubscribeAllEvents => "subscribeallevents",
        UnsubscribeAllEvents => "unsubscribeallevents",
        QueryAllActions => "queryallactions",
    }
}

pub fn form<O: Dumpable>(f: &Form<O>) -> MForm {
    MForm {
        op: match &f.op {
            DefaultedFormOperations::Default => None,
            DefaultedFormOperations::Custom(v) => {
                Some(v.iter().map(|o| op_name(*o).to_string()).collect())
            }
        },
        href: f.href.clone(),
        ctype: f.content_type.clone(),
        ccoding: f.content_coding.clone(),
        subproto: f.subprotocol.clone(),
        security: f.security.clone(),
        scopes: f.scopes.clone(),
        response: f
            .response
            .as_ref()
            .map(|r| (r.content_type.clone(), r.other.dump())),
        addresp: f.additional_responses.as_ref().map(|v| {
            v.iter()
                .map(|r| MAddResp {
                    success: r.success,
                    ctype: r.content_type.clone(),
                    schema: r.schema.clone(),
                })
                .collect()
        }),
        ext: f.other.dump(),
    }
}

fn loc(l: &SecurityAuthenticationLocation) -> Value {
    use SecurityAuthenticationLocation::*;
    json!(match l {
        Header => "header",
        Query => "query",
        Body => "body",
        Cookie => "cookie",
        Uri => "uri",
    })
}

pub fn sec(s: &SecurityScheme) -> MSec {
    use KnownSecuritySchemeSubtype::*;
    let mut params = Map::new();
    let mut ins = |k: &str, v: Value| {
        if !v.is_null() {
            params.insert(k.to_string(), v);
        }
    };
    let kind = match &s.subtype {
        SecuritySchemeSubtype::Known(k) => match k {
            NoSec => "nosec",
            Auto => "auto",
            Combo(c) => {
                match c {
                    ComboSecurityScheme::OneOf(v) => ins("oneOf", json!(v)),
                    ComboSecurityScheme::AllOf(v) => ins("allOf", json!(v)),
                }
                "combo"
            }
            Basic(b) => {
                ins("in", loc(&b.location));
                ins("name", json!(b.name));
                "basic"
            }
            Digest(b) => {
                ins("in", loc(&b.location));
                ins("name", json!(b.name));
                ins(
                    "qop",
                    json!(match b.qop {
                        QualityOfProtection::Auth => "auth",
                        QualityOfProtection::AuthInt => "auth-int",
                    }),
                );
                "digest"
            }
            Bearer(b) => {
                ins("in", loc(&b.location));
                ins("name", json!(b.name));
                ins("authorization", json!(b.authorization));
                ins("alg", json!(b.alg));
                ins("format", json!(b.format));
                "bearer"
            }
            Psk(p) => {
                ins("identity", json!(p.identity));
                "psk"
            }
            OAuth2(o) => {
                ins("authorization", json!(o.authorization));
                ins("token", json!(o.token));
                ins("refresh", json!(o.refresh));
                ins("scopes", json!(o.scopes));
                ins("flow", json!(o.flow));
                "oauth2"
            }
            ApiKey(b) => {
                ins("in", loc(&b.location));
                ins("name", json!(b.name));
                "apikey"
            }
        }
        .to_string(),
        SecuritySchemeSubtype::Unknown(u) => {
            return MSec {
                attype: s.attype.clone(),
                description: s.description.clone(),
                descriptions: lang(&s.descriptions),
                proxy: s.proxy.clone(),
                kind: format!("?{}", u.scheme),
                params: u.data.clone(),
            }
        }
    };
    MSec {
        attype: s.attype.clone(),
        description: s.description.clone(),
        descriptions: lang(&s.descriptions),
        proxy: s.proxy.clone(),
        kind,
        params: Value::Object(params),
    }
}

fn minb<T: Copy, U>(m: &Option<Minimum<T>>, f: impl Fn(T) -> U) -> Option<Bound<U>> {
    m.map(|m| match m {
        Minimum::Inclusive(v) => Bound { excl: false, v: f(v) },
        Minimum::Exclusive(v) => Bound { excl: true, v: f(v) },
    })
}

fn maxb<T: Copy, U>(m: &Option<Maximum<T>>, f: impl Fn(T) -> U) -> Option<Bound<U>> {
    m.map(|m| match m {
        Maximum::Inclusive(v) => Bound { excl: false, v: f(v) },
        Maximum::Exclusive(v) => Bound { excl: true, v: f(v) },
    })
}

pub fn schema<DS: ExtDump, AS: ExtDump, OS: ExtDump>(s: &DataSchema<DS, AS, OS>) -> MSchema {
    MSchema {
        attype: s.attype.clone(),
        title: s.title.clone(),
        titles: lang(&s.titles),
        description: s.description.clone(),
        descriptions: lang(&s.descriptions),
        constant: s.constant.clone(),
        default: s.default.clone(),
        unit: s.unit.clone(),
        one_of: s.one_of.as_ref().map(|v| v.iter().map(schema).collect()),
        enumeration: s.enumeration.clone(),
        ro: s.read_only,
        wo: s.write_only,
        format: s.format.clone(),
        sub: s.subtype.as_ref().map(|x| match x {
            DataSchemaSubtype::Array(a) => MSub::Array {
                items: a.items.as_ref().map(|i| match i {
                    BoxedElemOrVec::Elem(e) => Items::One(Box::new(schema(e))),
                    BoxedElemOrVec::Vec(v) => Items::Many(v.iter().map(schema).collect()),
                }),
                min: a.min_items,
                max: a.max_items,
                ext: a.other.dump(),
            },
            DataSchemaSubtype::Boolean => MSub::Boolean,
            DataSchemaSubtype::Number(n) => MSub::Number {
                min: minb(&n.minimum, Fl),
                max: maxb(&n.maximum, Fl),
                mul: n.multiple_of.map(Fl),
            },
            DataSchemaSubtype::Integer(n) => MSub::Integer {
                min: minb(&n.minimum, |x| x),
                max: maxb(&n.maximum, |x| x),
                mul: n.multiple_of.map(|x| x.get()),
            },
            DataSchemaSubtype::Object(o) => MSub::Object {
                props: map(&o.properties, schema),
                required: o.required.clone(),
                ext: o.other.dump(),
            },
            DataSchemaSubtype::String(s) => MSub::Str {
                min: s.min_length,
                max: s.max_length,
                pattern: s.pattern.clone(),
                cenc: s.content_encoding.clone(),
                cmedia: s.content_media_type.clone(),
            },
            DataSchemaSubtype::Null => MSub::Null,
        }),
        ext: s.other.dump(),
    }
}
