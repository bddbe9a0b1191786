//! Alphabets and building blocks the checks assemble their spaces from.

use serde_json::{json, Value};

use crate::prog::{Kind as Ki, *};

pub fn st(s: &str) -> S {
    s.to_string()
}

pub fn sv(v: &[&str]) -> Vec<S> {
    v.iter().map(|s| s.to_string()).collect()
}

pub fn mp(v: &[(&str, &str)]) -> Map {
    v.iter().map(|(a, b)| (st(a), st(b))).collect()
}

pub fn prog(ops: Vec<TOp>) -> Prog {
    Prog { title: st("t"), ops }
}

/// A program whose operations all come after `Finish`.
pub fn post(mut ops: Vec<TOp>) -> Prog {
    ops.insert(0, TOp::Finish);
    prog(ops)
}

/// Strings that may trip string handling.
pub fn odd_strings() -> Vec<S> {
    let mut v = sv(&[
        "", " ", "a", "A", "a ", " a", "a b", "a/b", "a-b", "a_b", "a.b", "\"", "\\", "'", "\n", "\t", "\u{0}",
        "\u{1f}", "\u{7f}", "é", "e\u{301}", "日本語", "😀", "\u{202e}", "null", "true", "0", "-1", "1e5", "{}",
        "[]", "{x}", "${x}", "%20", "#", "?", "&amp;", "<a>", "@type", "@context", "type", "title", "id", "href",
        "op", "forms", "security", "nosec", "basic", "combo", "auto", "oneOf", "allOf", "const", "enum", "default",
        "object", "array", "string", "icon", "https://example.org/a?b=c#d", "urn:uuid:0804d572", "en", "EN", "iPATCH",
        "__proto__", "application/json; charset=utf-8", "readOnly", "data", "dataResponse", "data_response", "scheme",
        "unit", "in", "name", "required", "items", "properties", "td", "$", "$ref", "\u{feff}a", "ß", "İ", "a\u{0}b",
    ]);
    for n in [7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 4096, 65536] {
        v.push("x".repeat(n));
    }
    v
}

/// Words with a meaning in a Thing Description or in one of its protocols.
pub fn vocabulary_words() -> Vec<S> {
    let mut v = sv(&[
        "@context", "@type", "actions", "additionalResponses", "alg", "allOf", "anchor", "apikey", "array", "auth",
        "authorization", "auto", "base", "base64", "basic", "bearer", "body", "boolean", "cancellation", "client",
        "code", "combo", "const", "contentCoding", "contentEncoding", "contentMediaType", "contentType", "cookie",
        "created", "data", "dataResponse", "date-time", "default", "description", "descriptions", "device", "digest",
        "ES256", "email", "en", "enum", "events", "exclusiveMaximum", "exclusiveMinimum", "flow", "format", "forms",
        "gzip", "header", "href", "hreflang", "icon", "id", "idempotent", "identity", "in", "input", "instance",
        "integer", "items", "jws", "jwt", "links", "longpoll", "maxItems", "maxLength", "maximum", "minItems",
        "minLength", "minimum", "model", "modified", "multipleOf", "name", "nosec", "null", "number", "oauth2",
        "object", "observable", "oneOf", "op", "output", "pattern", "profile", "properties", "proxy", "psk", "qop",
        "query", "readOnly", "refresh", "rel", "required", "response", "safe", "schema", "schemaDefinitions", "scheme",
        "scopes", "security", "securityDefinitions", "self", "sizes", "sse", "string", "subprotocol", "subscription",
        "success", "support", "synchronous", "td", "title", "titles", "token", "type", "unit", "uri", "uriVariables",
        "version", "websub", "writeOnly", "16x16", "any", "application/json", "application/octet-stream",
        "text/plain", "utf-8", "https://www.w3.org/2019/wot/td/v1", "https://www.w3.org/2022/wot/td/v1.1",
        "http://www.w3.org/ns/td", "https://www.w3.org/2022/wot/profile/http-basic/v1", "https://localhost",
        "mailto:a@b.c", "coap://[::1]:5683/x", "mqtt://broker:1883", "htv:methodName", "cov:method", "mqv:topic",
        "readproperty", "writeproperty", "observeproperty", "unobserveproperty", "invokeaction", "queryaction",
        "cancelaction", "subscribeevent", "unsubscribeevent", "readallproperties", "writeallproperties",
        "readmultipleproperties", "writemultipleproperties", "observeallproperties", "unobserveallproperties",
        "subscribeallevents", "unsubscribeallevents", "queryallactions", "GET", "iPATCH", "1.0", "true", "false",
        "2022-01-02T03:04:05Z",
    ]);
    v.sort();
    v.dedup();
    v
}

/// The words and strings that differ little from them.
pub fn near_vocabulary() -> Vec<S> {
    let mut v = vec![];
    for w in vocabulary_words() {
        let mut c = w.chars();
        let first = c.next().unwrap();
        let cap = format!("{}{}", first.to_uppercase(), c.as_str());
        v.extend([w.to_uppercase(), w.to_lowercase(), cap, c.as_str().to_string()]);
        let mut short = w.clone();
        short.pop();
        v.push(short);
        for x in [" ", "#", "/", "s", "x", "-", "_", ":", "\n", "\u{0}", "0"] {
            v.extend([format!("{w}{x}"), format!("{x}{w}")]);
        }
        v.extend([w.replace('-', "_"), format!("{w}{w}"), w]);
    }
    v.sort();
    v.dedup();
    v
}

/// Names that something called `k` might be taken for.
pub fn other_names(k: &str) -> Vec<S> {
    let words = [
        "name", "value", "id", "uri", "URI", "url", "type", "code", "list", "text", "media", "schema", "scheme", "data",
        "item", "items", "info", "default", "2", "tag", "tags", "lang", "language", "time", "date", "response", "filter",
        "size", "count", "is", "has", "the", "new", "old", "raw", "method", "header", "field", "string", "x-",
    ];
    // Of older drafts and of kindred formats
    let mut v = sv(&[
        "@id", "@graph", "@language", "@value", "url", "label", "comment", "writable", "stability", "encodings", "link",
        "interactions", "interaction", "property", "action", "event", "form", "rt", "if", "datatype", "dataType",
        "valueType", "inputData", "outputData", "minValue", "maxValue", "min", "max", "definitions", "$ref", "$schema", "$id",
        "$defs", "additionalProperties", "patternProperties", "additionalItems", "prefixItems", "anyOf", "not", "lang",
        "language", "mime", "mimeType", "mediaType", "media_type", "lastModified", "summary", "details", "info", "examples",
        "example", "uniqueItems", "minProperties", "maxProperties", "uriTemplate", "uri", "target", "method", "methodName",
        "schemes", "security_definitions", "scope", "flows", "tokenUrl", "authorizationUrl", "refreshUrl", "bearerFormat",
        "operation", "operations", "ops", "operationType", "encoding", "charset", "deprecated", "nullable", "constant",
        "enumeration", "oneof", "choices", "options", "values", "units", "unitCode", "writeable", "writeOnce", "async",
        "sync", "blocking", "pure", "idempotence", "subscribe", "unsubscribe", "schemaDefinition", "response_default",
        "observe", "isObservable", "eventing", "created_at", "updated", "updatedAt", "modifiedAt", "createdAt",
    ]);
    let mut c = k.chars();
    let first = c.next().map(String::from).unwrap_or_default();
    let cap = |s: &str| {
        let mut c = s.chars();
        c.next().map(|f| f.to_uppercase().to_string()).unwrap_or_default() + c.as_str()
    };
    for w in words {
        v.push(format!("{k}{}", cap(w)));
        v.push(format!("{k}_{w}"));
        v.push(format!("{w}{}{}", first.to_uppercase(), c.as_str()));
    }
    // Its own words, one left out
    let mut parts: Vec<S> = vec![];
    for ch in k.chars() {
        if parts.is_empty() || ch.is_uppercase() {
            parts.push(st(""));
        }
        parts.last_mut().unwrap().push(ch);
    }
    for i in 0..parts.len() {
        let mut p = parts.clone();
        p.remove(i);
        let j = p.concat();
        let mut c = j.chars();
        let low = c.next().map(|f| f.to_lowercase().to_string()).unwrap_or_default() + c.as_str();
        v.extend([j, low]);
    }
    parts.reverse();
    v.push(parts.concat());
    v.extend(vocabulary_words());
    v.sort();
    v.dedup();
    v.retain(|x| x != k && !x.is_empty());
    v
}

/// The words of a name as they might be spelled elsewhere.
fn spellings(words: &[&str], all: bool) -> Vec<S> {
    let cap = |s: &str| {
        let mut c = s.chars();
        c.next().map(|f| f.to_uppercase().to_string()).unwrap_or_default() + c.as_str()
    };
    let pascal: S = words.iter().map(|w| cap(w)).collect();
    let camel: S = words.iter().enumerate().map(|(i, w)| if i == 0 { w.to_string() } else { cap(w) }).collect();
    let mut v = vec![pascal.clone(), camel, format!("{pascal}Scheme"), format!("{pascal}SecurityScheme"), format!("{pascal}Schema")];
    for sep in ["", "_", "-", " ", ".", ":", "/"] {
        let j = words.join(sep);
        v.extend([j.to_uppercase(), cap(&j), j]);
    }
    // The order of the words in others' names
    let mut r = words.to_vec();
    r.reverse();
    v.push(r.concat());
    v.push(words[0].to_string());
    v.push(words[words.len() - 1].to_string());
    let plain = if all { v.clone() } else { vec![v[1].clone(), words.concat()] };
    for vocabulary in [
        "td:", "wot:", "tm:", "wotsec:", "sec:", "js:", "jsonschema:", "hctl:", "xsd:", "schema:", "#", "https://www.w3.org/2019/wot/td#",
        "https://www.w3.org/2019/wot/security#", "https://www.w3.org/2019/wot/json-schema#", "https://www.w3.org/2019/wot/hypermedia#",
        "http://www.w3.org/ns/td#", "http://www.w3.org/2001/XMLSchema#",
    ] {
        v.extend(plain.iter().map(|p| format!("{vocabulary}{p}")));
    }
    v
}

/// What might be taken for one of the enumerated values of a Thing Description or its protocols.
pub fn other_spellings(all: bool) -> Vec<S> {
    let words = "read property,write property,observe property,unobserve property,invoke action,query action,cancel action,\
        subscribe event,unsubscribe event,read all properties,write all properties,read multiple properties,\
        write multiple properties,observe all properties,unobserve all properties,subscribe all events,\
        unsubscribe all events,query all actions,no sec,no security,none,auto,combo,basic,digest,api key,bearer,psk,pre shared key,\
        o auth 2,oauth 2,oauth,header,query,body,cookie,uri,url,path,auto,auth,auth int,boolean,integer,number,string,array,object,\
        null,enum,const,bool,int,float,double,str,list,tuple,map,dict,any,nil,undefined,long,decimal,read,write,observe,unobserve,\
        invoke,query,cancel,subscribe,unsubscribe,get,put,post,delete,patch,fetch,i patch,head,options,get property,set property,\
        publish,filter,invoke all actions,cancel all actions,subscribe multiple events,query multiple actions,notify,\
        stop observe,read properties,write properties,headers,cookies,parameter,in query,client,device,code,\
        implicit,password,authorization code,client credentials,jwt,jws,jwe,cwt,gzip,br,deflate,identity,sse,longpoll,long poll,\
        websub,cov observe,observable,at most once,at least once,exactly once,true,false,qos 0,qos 1,qos 2,0,1,2,controlled,\
        controller,well known,current,yes,no,on,off,y,n,t,f,ok,enabled,disabled,high,low,now,today,never,always,infinity,nan,1.5,1e3,0x10,-1,+1,empty,default,unknown,other,all,some,v1,1.1,1.0,2.0.0,16,16 x 16,en us,utc";
    let mut v: Vec<S> = words.split(',').flat_map(|w| spellings(&w.split_whitespace().collect::<Vec<_>>(), all)).collect();
    v.sort();
    v.dedup();
    v
}

/// JSON values for the places that take any.
pub fn odd_values() -> Vec<Value> {
    let mut deep = json!(1);
    for i in 0..20 {
        deep = if i % 2 == 0 { json!([deep]) } else { json!({ "k": deep }) };
    }
    let mut v = vec![
        json!(null), json!(true), json!(false), json!(0), json!(1), json!(-1), json!(u64::MAX), json!(i64::MIN),
        json!(i64::MAX), json!(0.5), json!(-0.0), json!(1.0), json!(1e10), json!(""), json!("x"), json!("null"),
        json!([]), json!([null]), json!([[]]), json!([1]), json!(["a"]), json!([1, "a", null, true]), json!({}),
        json!({"a": null}), json!({"a": {}}), json!({"type": "integer"}), json!({"type": "array", "items": []}),
        json!({"readOnly": true}), json!({"const": 1}), json!({"": ""}), json!({"b": 1, "a": 2}), deep,
        json!([{"x": [1, {"y": null}]}]), json!({"n": 0.25, "m": -7, "l": [true, false, null]}),
    ];
    for s in odd_strings().into_iter().filter(|s| s.len() < 70) {
        v.push(json!(s));
        v.push(json!({ s: 1 }));
    }
    v
}

// ---------------------------------------------------------------------------------------------
// Schemas

pub fn sch(ops: Vec<SOp>) -> Schema {
    let mut v = vec![SOp::Finish];
    v.extend(ops);
    v
}

pub fn k(kind: Ki) -> Schema {
    sch(vec![SOp::Kind(kind)])
}

pub fn kw(kind: Ki, ops: &[SOp]) -> Schema {
    let mut v = k(kind);
    v.extend(ops.iter().cloned());
    v
}

/// One schema of every specialization.
pub fn leaves() -> Vec<Schema> {
    use SOp::*;
    vec![
        k(Ki::Bool),
        k(Ki::Null),
        k(Ki::Number),
        k(Ki::Integer),
        k(Ki::Str),
        sch(vec![Enum(json!("x"))]),
        k(Ki::Const(json!(7))),
        k(Ki::Vec),
        k(Ki::Tuple),
        k(Ki::Object),
        sch(vec![OneOf(k(Ki::Bool))]),
    ]
}

/// Schemas of every specialization with every specific member set.
pub fn rich_leaves() -> Vec<Schema> {
    use SOp::*;
    vec![
        kw(Ki::Bool, &[ReadOnly]),
        kw(Ki::Null, &[WriteOnly]),
        kw(Ki::Number, &[NMin(F(-1.5)), NXMax(F(2.25)), NMul(F(0.25)), Unit(st("cm"))]),
        kw(Ki::Number, &[NXMin(F(-1e10)), NMax(F(1e10)), Default(json!(0.5))]),
        kw(Ki::Integer, &[IMin(i64::MIN), IMax(i64::MAX), IMul(u64::MAX)]),
        kw(Ki::Integer, &[IXMin(-5), IXMax(5), IMul(1), Format(st("f"))]),
        kw(Ki::Str, &[MinLen(1), MaxLen(u32::MAX), Pattern(st("^a")), CEnc(st("base64")), CMedia(st("text/plain"))]),
        sch(vec![Enum(json!("x")), Enum(json!(null)), Enum(json!({"a": [1]})), WriteOnly]),
        k(Ki::Const(json!({"a": [1, null]}))),
        k(Ki::Const(json!(null))),
        kw(Ki::Vec, &[Item(k(Ki::Integer)), MinItems(0), MaxItems(4)]),
        kw(Ki::Vec, &[MinItems(3)]),
        kw(Ki::Tuple, &[Append(k(Ki::Bool)), Append(kw(Ki::Str, &[MaxLen(3)])), Append(k(Ki::Bool))]),
        kw(Ki::Tuple, &[Append(k(Ki::Null))]),
        kw(
            Ki::Object,
            &[
                Prop(st("b"), true, k(Ki::Number)),
                Prop(st("a"), false, kw(Ki::Integer, &[IMin(3)])),
                Prop(st("c"), true, k(Ki::Object)),
            ],
        ),
        kw(Ki::Object, &[Prop(st("x"), false, k(Ki::Bool)), ReadOnly]),
        sch(vec![OneOf(k(Ki::Bool)), OneOf(kw(Ki::Integer, &[IMax(9)])), OneOf(k(Ki::Object))]),
        sch(vec![
            SOp::I(IOp::AType(st("T"))),
            SOp::I(IOp::Title(st("ti"))),
            SOp::I(IOp::Titles(mp(&[("en", "a"), ("it-IT", "b")]))),
            SOp::I(IOp::Desc(st("de"))),
            SOp::I(IOp::Descs(mp(&[("fr", "c")]))),
            Unit(st("u")),
            Format(st("f")),
            Default(json!([1])),
            Kind(Ki::Bool),
        ]),
        kw(Ki::Bool, &[Default(json!(null))]),
    ]
}

pub const CONTAINERS: u64 = 10;

/// `s` inside a container.
pub fn wrap(c: u64, s: Schema) -> Schema {
    use SOp::*;
    let b = || k(Ki::Bool);
    match c {
        0 => kw(Ki::Vec, &[Item(s)]),
        1 => kw(Ki::Tuple, &[Append(s)]),
        2 => kw(Ki::Tuple, &[Append(b()), Append(s)]),
        3 => kw(Ki::Tuple, &[Append(s), Append(b())]),
        4 => kw(Ki::Object, &[Prop(st("p"), true, s)]),
        5 => kw(Ki::Object, &[Prop(st("o"), true, b()), Prop(st("p"), false, s)]),
        6 => kw(Ki::Object, &[Prop(st("p"), false, s), Prop(st("o"), false, b()), ReadOnly]),
        7 => sch(vec![OneOf(s)]),
        8 => sch(vec![OneOf(b()), OneOf(s)]),
        9 => sch(vec![OneOf(s), OneOf(b())]),
        _ => unreachable!(),
    }
}

pub const SCHEMA_SITES: u64 = 12;
/// The sites taking any schema, array and object ones included.
pub const OPEN_SITES: [u64; 8] = [0, 1, 2, 3, 4, 5, 6, 11];

/// A property's schema builder lacks the string specific setters.
pub fn as_property(s: &[SOp]) -> Schema {
    s.iter()
        .filter(|o| {
            !matches!(
                o,
                SOp::MinLen(_) | SOp::MaxLen(_) | SOp::Pattern(_) | SOp::CEnc(_) | SOp::CMedia(_)
            )
        })
        .cloned()
        .collect()
}

/// A declaration whose only schema is `s`.
pub fn at_schema(site: u64, name: &str, s: Schema) -> TOp {
    let n = st(name);
    match site {
        0 => TOp::Property(n, as_property(&s)),
        1 => TOp::Action(n, vec![AOp::Input(s)]),
        2 => TOp::Action(n, vec![AOp::Output(s)]),
        3 => TOp::Event(n, vec![EOp::Subscription(s)]),
        4 => TOp::Event(n, vec![EOp::Data(s)]),
        5 => TOp::Event(n, vec![EOp::Cancellation(s)]),
        6 => TOp::Event(n, vec![EOp::DataResponse(s)]),
        7 => TOp::UriVar(n, s),
        8 => TOp::Property(n.clone(), kw(Ki::Bool, &[SOp::UriVar(n, s)])),
        9 => TOp::Action(n.clone(), vec![AOp::UriVar(n, s)]),
        10 => TOp::Event(n.clone(), vec![EOp::UriVar(n, s)]),
        11 => TOp::SchemaDef(n, s),
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------------------------------------
// Forms

pub const FORM_SITES: u64 = 4;

/// An operation allowed in the forms of the site.
pub fn legal_op(site: u64) -> u8 {
    [9, 0, 4, 7][site as usize]
}

/// A form that is valid at `site`.
pub fn ok_form(site: u64) -> Vec<FOp> {
    vec![FOp::Href(st("h")), FOp::Op(legal_op(site))]
}

/// Declares `forms` at a site: the thing itself, or an affordance of the given name.
pub fn at_forms(site: u64, name: &str, forms: Vec<Vec<FOp>>) -> Vec<TOp> {
    let n = st(name);
    match site {
        0 => forms.into_iter().map(TOp::Form).collect(),
        1 => vec![TOp::Property(n, {
            let mut s = k(Ki::Bool);
            s.extend(forms.into_iter().map(SOp::Form));
            s
        })],
        2 => vec![TOp::Action(n, forms.into_iter().map(AOp::Form).collect())],
        3 => vec![TOp::Event(n, forms.into_iter().map(EOp::Form).collect())],
        _ => unreachable!(),
    }
}

pub fn form1(site: u64, f: Vec<FOp>) -> TOp {
    at_forms(site, ["t", "p", "a", "e"][site as usize], vec![f]).remove(0)
}

/// The affordance declarations with nothing in them.
pub fn affordance(kind: u64, name: &str) -> TOp {
    let n = st(name);
    match kind {
        0 => TOp::Property(n, k(Ki::Bool)),
        1 => TOp::Action(n, vec![]),
        2 => TOp::Event(n, vec![]),
        _ => unreachable!(),
    }
}

pub fn basic(key: &str) -> TOp {
    TOp::Security(vec![SecOp::Key(st(key)), SecOp::Scheme(Scheme::Basic)])
}

// ---------------------------------------------------------------------------------------------
// Places holding a string, a JSON value, a list of some length: per area

pub type Place<T> = fn(T) -> Prog;

pub fn meta_strings() -> Vec<Place<S>> {
    vec![
        |s| Prog { title: s, ops: vec![] },
        |s| prog(vec![TOp::Id(s)]),
        |s| prog(vec![TOp::Desc(s)]),
        |s| prog(vec![TOp::VersionStr(s)]),
        |s| prog(vec![TOp::Version(st("1"), Some(s))]),
        |s| prog(vec![TOp::Support(s)]),
        |s| prog(vec![TOp::Base(s)]),
        |s| prog(vec![TOp::Context(s)]),
        |s| prog(vec![TOp::Context(s), TOp::Context(st("c2"))]),
        |s| prog(vec![TOp::ContextMap(vec![(st("k"), s)])]),
        |s| prog(vec![TOp::ContextMap(vec![(s, st("v"))])]),
        |s| prog(vec![TOp::AType(s)]),
        |s| prog(vec![TOp::AType(s), TOp::AType(st("y"))]),
        |s| prog(vec![TOp::Titles(vec![(st("en"), s)])]),
        |s| prog(vec![TOp::Descs(vec![(st("en"), s)])]),
        |s| prog(vec![TOp::Profile(s)]),
        |s| prog(vec![TOp::Profile(st("y")), TOp::Profile(s)]),
    ]
}

pub fn link_strings() -> Vec<Place<S>> {
    fn l(o: LOp) -> Prog {
        prog(vec![TOp::LinkWith(vec![LOp::Href(st("h")), o])])
    }
    vec![
        |s| prog(vec![TOp::Link(s)]),
        |s| prog(vec![TOp::LinkWith(vec![LOp::Href(s)])]),
        |s| l(LOp::Ty(s)),
        |s| l(LOp::Rel(s)),
        |s| l(LOp::Anchor(s)),
        |s| l(LOp::Sizes(s)),
        |s| prog(vec![TOp::LinkWith(vec![LOp::Rel(st("icon")), LOp::Href(st("h")), LOp::Sizes(s)])]),
        |s| prog(vec![TOp::LinkWith(vec![LOp::Rel(s), LOp::Href(st("h")), LOp::Sizes(st("1x1"))])]),
    ]
}

pub fn sec_strings() -> Vec<Place<S>> {
    use SecOp::*;
    fn p(o: Vec<SecOp>) -> Prog {
        prog(vec![TOp::Security(o)])
    }
    vec![
        |s| p(vec![Key(s), Scheme(self::Scheme::NoSec)]),
        |s| p(vec![Key(s), Required, Scheme(self::Scheme::Basic)]),
        |s| p(vec![AType(s), Scheme(self::Scheme::Auto)]),
        |s| p(vec![Desc(s), Scheme(self::Scheme::Psk)]),
        |s| p(vec![Proxy(s), Scheme(self::Scheme::Psk)]),
        |s| p(vec![Descs(vec![(st("en"), s)]), Scheme(self::Scheme::Psk)]),
        |s| p(vec![Scheme(self::Scheme::Basic), Name(s)]),
        |s| p(vec![Scheme(self::Scheme::Digest), Name(s)]),
        |s| p(vec![Scheme(self::Scheme::ApiKey), Name(s)]),
        |s| p(vec![Scheme(self::Scheme::Bearer), Name(s)]),
        |s| p(vec![Scheme(self::Scheme::Bearer), Authorization(s)]),
        |s| p(vec![Scheme(self::Scheme::Bearer), Alg(s)]),
        |s| p(vec![Scheme(self::Scheme::Bearer), Format(s)]),
        |s| p(vec![Scheme(self::Scheme::OAuth2(s))]),
        |s| p(vec![Scheme(self::Scheme::OAuth2(st("code"))), Authorization(s)]),
        |s| p(vec![Scheme(self::Scheme::OAuth2(st("code"))), Token(s)]),
        |s| p(vec![Scheme(self::Scheme::OAuth2(st("code"))), Refresh(s)]),
        |s| p(vec![Scheme(self::Scheme::OAuth2(st("code"))), Scope(s)]),
        |s| p(vec![Scheme(self::Scheme::Custom(format!("c:{s}")))]),
        |s| p(vec![Scheme(self::Scheme::Custom(st("c:x"))), Data(json!({ "v": s }))]),
        |s| p(vec![Scheme(self::Scheme::Custom(st("c:x"))), Data(json!({ format!("m:{s}"): 1 }))]),
        |s| {
            prog(vec![
                TOp::Security(vec![Key(s.clone()), Scheme(self::Scheme::Basic)]),
                TOp::Security(vec![Key(st("combo key")), Scheme(self::Scheme::Combo), AllOf(vec![s])]),
            ])
        },
        |s| {
            prog(vec![
                TOp::Security(vec![Key(s.clone()), Required, Scheme(self::Scheme::Basic)]),
                TOp::Security(vec![Scheme(self::Scheme::Combo), Name(st("combo key")), OneOf(vec![s.clone(), s])]),
            ])
        },
        |s| p(vec![Scheme(self::Scheme::Combo), Name(s), OneOf(vec![])]),
    ]
}

fn f1(o: FOp) -> Prog {
    post(
        (0..4)
            .map(|site| {
                let mut f = ok_form(site);
                f.push(o.clone());
                form1(site, f)
            })
            .collect(),
    )
}

pub fn form_strings() -> Vec<Place<S>> {
    vec![
        |s| post((0..4).map(|i| form1(i, vec![FOp::Op(legal_op(i)), FOp::Href(s.clone())])).collect()),
        |s| f1(FOp::CType(s)),
        |s| f1(FOp::CCoding(s)),
        |s| f1(FOp::Subproto(s)),
        |s| f1(FOp::Scope(s)),
        |s| f1(FOp::Response(s, 0, 0)),
        |s| f1(FOp::ResponseDefault(s)),
        |s| f1(FOp::AddResp(vec![AR::CType(s)])),
        |s| {
            let mut p = f1(FOp::AddResp(vec![AR::Schema(s.clone())]));
            p.ops.push(TOp::SchemaDef(s, k(Ki::Bool)));
            p
        },
        |s| {
            let mut p = f1(FOp::Security(s.clone()));
            p.ops.push(basic(&s));
            p
        },
    ]
}

fn s1(s: Schema) -> Prog {
    post(OPEN_SITES.iter().map(|i| at_schema(*i, &format!("n{i}"), s.clone())).collect())
}

pub fn schema_strings() -> Vec<Place<S>> {
    use SOp::*;
    vec![
        |s| s1(kw(Ki::Bool, &[I(IOp::AType(s))])),
        |s| s1(kw(Ki::Bool, &[I(IOp::Title(s))])),
        |s| s1(kw(Ki::Bool, &[I(IOp::Desc(s))])),
        |s| s1(kw(Ki::Bool, &[I(IOp::Titles(vec![(st("en"), s)]))])),
        |s| s1(kw(Ki::Bool, &[I(IOp::Descs(vec![(st("en"), s)]))])),
        |s| s1(kw(Ki::Number, &[Unit(s)])),
        |s| s1(kw(Ki::Number, &[Format(s)])),
        |s| s1(kw(Ki::Str, &[Pattern(s)])),
        |s| s1(kw(Ki::Str, &[CEnc(s)])),
        |s| s1(kw(Ki::Str, &[CMedia(s)])),
        |s| s1(kw(Ki::Object, &[Prop(s, true, k(Ki::Bool))])),
        |s| s1(kw(Ki::Object, &[Prop(s, false, k(Ki::Bool)), Prop(st("z"), true, k(Ki::Null))])),
    ]
}

pub fn schema_values() -> Vec<Place<Value>> {
    use SOp::*;
    vec![
        |v| s1(kw(Ki::Bool, &[Default(v)])),
        |v| s1(k(Ki::Const(v))),
        |v| s1(sch(vec![Enum(v)])),
        |v| s1(sch(vec![Enum(json!(1)), Enum(v)])),
        |v| s1(kw(Ki::Object, &[Prop(st("x"), true, k(Ki::Const(v))), ReadOnly])),
    ]
}

pub fn name_strings() -> Vec<Place<S>> {
    vec![
        |s| post(vec![affordance(0, &s)]),
        |s| post(vec![affordance(1, &s)]),
        |s| post(vec![affordance(2, &s)]),
        |s| post(vec![affordance(0, &s), affordance(1, &s), affordance(2, &s)]),
        |s| post(vec![affordance(0, &s), affordance(0, "other"), affordance(1, "other"), affordance(1, &s)]),
        |s| post(vec![TOp::UriVar(s.clone(), k(Ki::Bool)), TOp::SchemaDef(s, k(Ki::Null))]),
        |s| {
            post(vec![
                TOp::Property(s.clone(), kw(Ki::Bool, &[SOp::UriVar(s.clone(), k(Ki::Str))])),
                TOp::Action(s.clone(), vec![AOp::UriVar(s.clone(), k(Ki::Str))]),
                TOp::Event(s.clone(), vec![EOp::UriVar(s, k(Ki::Str))]),
            ])
        },
    ]
}

/// Different strings that are similar to `s`.
pub fn similar_strings(s: &str) -> Vec<S> {
    let c: Vec<char> = s.chars().collect();
    let text = |c: &[char]| c.iter().collect::<S>();
    let with = |i: usize, x: char| {
        let mut c = c.clone();
        if i < c.len() {
            c[i] = x;
        }
        text(&c)
    };
    let mut v: Vec<S> = [" ", "\n", "/", "x", "\0", "-", "_", ".", "1", "#", "\u{301}", "\u{200b}", "é", "?", ":"]
        .iter()
        .flat_map(|x| [format!("{s}{x}"), format!("{x}{s}")])
        .collect();
    let n = c.len();
    v.extend([
        s.to_uppercase(),
        s.to_lowercase(),
        s.replace('-', "_"),
        s.replace(' ', ""),
        s.replace(' ', "%20"),
        s.trim().to_string(),
        s.replace("e\u{301}", "é"),
        s.chars().rev().collect(),
        with(0, '~'),
        with(n / 2, '~'),
        with(n.saturating_sub(1), '~'),
        with(0, 'é'),
        format!("{s}{s}"),
        format!("{s} {s}"),
    ]);
    if n > 1 {
        v.extend([text(&c[1..]), text(&c[..n - 1]), text(&c[..n / 2]), text(&c[n / 2..])]);
        let mut d = c.clone();
        d.swap(0, 1);
        v.push(text(&d));
        d = c.clone();
        d.swap(n - 2, n - 1);
        v.push(text(&d));
        if c[0].is_lowercase() {
            let mut d: S = c[0].to_uppercase().collect();
            d += &text(&c[1..]);
            v.push(d);
        }
    }
    v.sort();
    v.dedup();
    v.retain(|x| x != s);
    v
}

/// Pairs of different but similar strings, in both orders.
pub fn similar_pairs(all: bool) -> Vec<(S, S)> {
    let mut bases = sv(&["state", "a b-c", "https://example.org/a?b=C"]);
    if all {
        bases.extend(sv(&[
            "s", "", "é", "e\u{301}tat", "日本語", "😀", "urn:x:1", "1", "0.10", "Straße", "İ", "\u{212a}", "ﬁ", "\0", " ",
            "a\u{0}b", "%41", "&amp;", "\\u0041", "True", "null", "x.y.z", "A_B", "\u{feff}", "*", "\"q\"",
        ]));
        for n in [15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 1024, 65536] {
            bases.push("x".repeat(n));
        }
    }
    let mut v: Vec<(S, S)> = vec![];
    for b in &bases {
        for s in similar_strings(b) {
            v.push((b.clone(), s.clone()));
            v.push((s, b.clone()));
        }
    }
    let mut known = std::collections::HashSet::new();
    v.retain(|p| known.insert(p.clone()));
    v
}

pub type Pair = (S, S);

pub fn meta_pairs() -> Vec<Place<Pair>> {
    vec![
        |(a, b)| prog(vec![TOp::Context(a), TOp::Context(b)]),
        |(a, b)| prog(vec![TOp::ContextMap(vec![(a, st("x")), (b, st("y"))])]),
        |(a, b)| prog(vec![TOp::ContextMap(vec![(st("x"), a), (st("y"), b)])]),
        |(a, b)| prog(vec![TOp::ContextMap(vec![(st("k"), a)]), TOp::ContextMap(vec![(st("k"), b)])]),
        |(a, b)| prog(vec![TOp::Profile(a), TOp::Profile(b)]),
        |(a, b)| prog(vec![TOp::AType(a), TOp::AType(b)]),
        |(a, b)| prog(vec![TOp::Version(a, Some(b))]),
        |(a, b)| Prog { title: a, ops: vec![TOp::Desc(b)] },
        |(a, b)| Prog { title: a.clone(), ops: vec![TOp::Id(b), TOp::Titles(vec![(st("en"), a)])] },
        |(a, b)| prog(vec![TOp::Base(a), TOp::Support(b)]),
        |(a, b)| prog(vec![TOp::Titles(vec![(st("en"), a.clone()), (st("de"), b.clone())]), TOp::Descs(vec![(st("en"), b), (st("it"), a)])]),
    ]
}

pub fn link_pairs() -> Vec<Place<Pair>> {
    vec![
        |(a, b)| prog(vec![TOp::Link(a), TOp::Link(b)]),
        |(a, b)| prog(vec![TOp::LinkWith(vec![LOp::Href(a), LOp::Anchor(b)])]),
        |(a, b)| prog(vec![TOp::LinkWith(vec![LOp::Href(st("h")), LOp::Rel(a), LOp::Ty(b)])]),
        |(a, b)| {
            let l = |r| TOp::LinkWith(vec![LOp::Href(st("h")), LOp::Rel(r)]);
            prog(vec![l(a), l(b)])
        },
    ]
}

fn keyed(key: S, more: &[SecOp]) -> TOp {
    let mut v = vec![SecOp::Key(key), SecOp::Scheme(Scheme::Basic)];
    v.extend(more.iter().cloned());
    TOp::Security(v)
}

/// The form refers to both, of which some are defined.
fn referring(a: S, b: S, site: u64, defined: &[usize]) -> Prog {
    let mut f = ok_form(site);
    f.extend([FOp::Security(a.clone()), FOp::Security(b.clone())]);
    let mut ops = vec![form1(site, f)];
    ops.extend(defined.iter().map(|i| basic([&a, &b][*i])));
    post(ops)
}

/// Pairs of names of security definitions, both defined.
pub fn sec_pairs() -> Vec<Place<Pair>> {
    use SecOp::*;
    vec![
        |(a, b)| prog(vec![keyed(a, &[Required]), keyed(b, &[Required, Name(st("n"))])]),
        |(a, b)| prog(vec![keyed(a, &[]), keyed(b, &[Required])]),
        |(a, b)| {
            let d = [keyed(a.clone(), &[]), keyed(b.clone(), &[])];
            let mut ops = vec![TOp::Security(vec![Key(st("combined")), Scheme(self::Scheme::Combo), AllOf(vec![a, b])])];
            ops.extend(d);
            prog(ops)
        },
        |(a, b)| prog(vec![TOp::Security(vec![Scheme(self::Scheme::OAuth2(st("code"))), Scope(a), Scope(b)])]),
        |(a, b)| prog(vec![TOp::Security(vec![Scheme(self::Scheme::OAuth2(st("code"))), Token(a), Refresh(b)])]),
        |(a, b)| prog(vec![TOp::Security(vec![Scheme(self::Scheme::Bearer), Alg(a), Format(b)])]),
        |(a, b)| prog(vec![TOp::Security(vec![AType(a), AType(b), Scheme(self::Scheme::Auto)])]),
    ]
}

/// Pairs of names of which only one is defined.
pub fn sec_miss_pairs() -> Vec<Place<Pair>> {
    use SecOp::*;
    vec![
        |(a, b)| referring(a, b, 0, &[0]),
        |(a, b)| referring(a, b, 1, &[0]),
        |(a, b)| referring(a, b, 2, &[0]),
        |(a, b)| referring(a, b, 3, &[0]),
        |(a, b)| referring(a, b, 0, &[1]),
        |(a, b)| prog(vec![keyed(a, &[Required]), TOp::Security(vec![Scheme(self::Scheme::Combo), OneOf(vec![b])])]),
        |(a, b)| {
            prog(vec![
                TOp::Security(vec![Key(st("combined")), Scheme(self::Scheme::Combo), AllOf(vec![a.clone(), b])]),
                keyed(a, &[]),
            ])
        },
    ]
}

pub fn form_pairs() -> Vec<Place<Pair>> {
    fn f2(o: [FOp; 2]) -> Prog {
        post(
            (0..4)
                .map(|site| {
                    let mut f = ok_form(site);
                    f.extend(o.iter().cloned());
                    form1(site, f)
                })
                .collect(),
        )
    }
    vec![
        |(a, b)| referring(a, b, 0, &[0, 1]),
        |(a, b)| referring(a, b, 1, &[1, 0]),
        |(a, b)| referring(a, b, 2, &[0, 1]),
        |(a, b)| referring(a, b, 3, &[1, 0]),
        |(a, b)| f2([FOp::Scope(a), FOp::Scope(b)]),
        |(a, b)| f2([FOp::CType(a), FOp::Response(b, 0, 0)]),
        |(a, b)| f2([FOp::Subproto(a), FOp::CCoding(b)]),
        |(a, b)| f2([FOp::CType(a), FOp::AddResp(vec![AR::CType(b)])]),
        |(a, b)| f2([FOp::AddResp(vec![AR::CType(a)]), FOp::AddResp(vec![AR::CType(b)])]),
        |(a, b)| {
            let f = |h| vec![FOp::Op(legal_op(1)), FOp::Href(h)];
            post(at_forms(1, "x", vec![f(a), f(b)]))
        },
        |(a, b)| {
            let mut p = f2([FOp::AddResp(vec![AR::Schema(a.clone())]), FOp::AddResp(vec![AR::Schema(b.clone())])]);
            p.ops.extend([TOp::SchemaDef(a, k(Ki::Bool)), TOp::SchemaDef(b, k(Ki::Null))]);
            p
        },
    ]
}

/// Responses refer to two names of which only one is defined.
pub fn response_miss_pairs() -> Vec<Place<Pair>> {
    fn one(a: S, b: S, site: u64, first: bool) -> Prog {
        let mut f = ok_form(site);
        f.extend([FOp::AddResp(vec![AR::Schema(a.clone())]), FOp::AddResp(vec![AR::Schema(b)])]);
        let d = TOp::SchemaDef(a, k(Ki::Bool));
        post(if first { vec![d, form1(site, f)] } else { vec![form1(site, f), d] })
    }
    vec![
        |(a, b)| one(a, b, 0, true),
        |(a, b)| one(a, b, 1, false),
        |(a, b)| one(a, b, 2, true),
        |(a, b)| one(a, b, 3, false),
    ]
}

pub fn schema_pairs() -> Vec<Place<Pair>> {
    use SOp::*;
    vec![
        |(a, b)| s1(kw(Ki::Object, &[Prop(a, true, k(Ki::Bool)), Prop(b, true, k(Ki::Null))])),
        |(a, b)| s1(kw(Ki::Object, &[Prop(a, false, k(Ki::Bool)), Prop(b, true, k(Ki::Null))])),
        |(a, b)| s1(sch(vec![Enum(json!(a)), Enum(json!(b))])),
        |(a, b)| s1(sch(vec![OneOf(k(Ki::Const(json!(a)))), OneOf(k(Ki::Const(json!(b))))])),
        |(a, b)| s1(kw(Ki::Bool, &[I(IOp::AType(a)), I(IOp::AType(b))])),
        |(a, b)| s1(kw(Ki::Bool, &[I(IOp::Title(a)), I(IOp::Desc(b))])),
        |(a, b)| s1(kw(Ki::Bool, &[I(IOp::Titles(vec![(st("en"), a.clone()), (st("de"), b.clone())])), I(IOp::Title(b))])),
        |(a, b)| s1(kw(Ki::Number, &[Unit(a), Format(b)])),
        |(a, b)| s1(kw(Ki::Str, &[Pattern(a), CEnc(b)])),
        |(a, b)| s1(kw(Ki::Bool, &[Default(json!({ a: b }))])),
    ]
}

pub fn variable_pairs() -> Vec<Place<Pair>> {
    vec![
        |(a, b)| post(vec![TOp::UriVar(a, k(Ki::Bool)), TOp::UriVar(b, k(Ki::Str))]),
        |(a, b)| post(vec![TOp::Property(st("p"), kw(Ki::Bool, &[SOp::UriVar(a, k(Ki::Bool)), SOp::UriVar(b, k(Ki::Str))]))]),
        |(a, b)| post(vec![TOp::Action(st("a"), vec![AOp::UriVar(a, k(Ki::Bool)), AOp::UriVar(b, k(Ki::Str))])]),
        |(a, b)| post(vec![TOp::Event(st("e"), vec![EOp::UriVar(a, k(Ki::Bool)), EOp::UriVar(b, k(Ki::Str))])]),
        |(a, b)| post(vec![TOp::UriVar(a, k(Ki::Bool)), TOp::Event(st("e"), vec![EOp::UriVar(b, k(Ki::Str))])]),
    ]
}

pub fn name_pairs() -> Vec<Place<Pair>> {
    vec![
        |(a, b)| post(vec![affordance(0, &a), affordance(0, &b)]),
        |(a, b)| post(vec![affordance(1, &a), affordance(1, &b)]),
        |(a, b)| post(vec![affordance(2, &a), affordance(2, &b)]),
        |(a, b)| post(vec![affordance(0, &a), affordance(1, &b), affordance(2, &a)]),
        |(a, b)| post(vec![affordance(0, &a), affordance(0, &b), affordance(0, &a)]),
        |(a, b)| post(vec![affordance(2, &a), affordance(2, &b), affordance(1, &b), affordance(2, &b)]),
        |(a, b)| post(vec![TOp::SchemaDef(a, k(Ki::Bool)), TOp::SchemaDef(b, k(Ki::Null))]),
    ]
}

fn n(i: usize) -> S {
    format!("n{i}")
}

/// The `i`th two-letter language.
fn lang(i: usize) -> S {
    format!("{}{}", (b'a' + (i / 26 % 26) as u8) as char, (b'a' + (i % 26) as u8) as char)
}

fn langs(c: usize) -> Map {
    (0..c).map(|i| (lang(i), n(i))).collect()
}

/// Lists of a chosen length.
pub fn meta_wide() -> Vec<Place<usize>> {
    vec![
        |c| prog((0..c).map(|i| TOp::AType(n(i))).collect()),
        |c| prog((0..c).map(|i| TOp::Profile(n(i))).collect()),
        |c| prog((0..c).map(|i| TOp::Context(n(i))).collect()),
        |c| prog((0..c).map(|i| TOp::ContextMap(vec![(n(i), n(i + 1))])).collect()),
        |c| prog(vec![TOp::ContextMap((0..c).map(|i| (n(i), n(i + 1))).collect())]),
        |c| prog(vec![TOp::Titles(langs(c)), TOp::Descs(langs(c))]),
        |c| prog((0..c).map(|_| TOp::AType(n(0))).collect()),
    ]
}

pub fn link_wide() -> Vec<Place<usize>> {
    vec![
        |c| prog((0..c).map(|i| TOp::Link(n(i))).collect()),
        |c| prog((0..c).map(|i| TOp::LinkWith(vec![LOp::Href(n(i)), LOp::Rel(n(i % 3))])).collect()),
        |c| {
            prog(vec![TOp::LinkWith(
                std::iter::once(LOp::Href(st("h")))
                    .chain((0..c).map(|i| LOp::HrefLang(lang(i))))
                    .collect(),
            )])
        },
        // The last link breaks the `sizes` rule.
        |c| {
            let mut v: Vec<TOp> = (0..c)
                .map(|i| TOp::LinkWith(vec![LOp::Href(n(i)), LOp::Rel(st("icon")), LOp::Sizes(st("1x1"))]))
                .collect();
            v.push(TOp::LinkWith(vec![LOp::Href(st("last")), LOp::Sizes(st("1x1"))]));
            prog(v)
        },
    ]
}

pub fn sec_wide() -> Vec<Place<usize>> {
    vec![
        |c| prog((0..c).map(|i| basic(&n(i))).collect()),
        |c| {
            prog(
                (0..c)
                    .map(|i| {
                        let mut v = vec![SecOp::Key(n(i)), SecOp::Scheme(Scheme::Psk)];
                        if i % 2 == 0 {
                            v.insert(0, SecOp::Required);
                        }
                        TOp::Security(v)
                    })
                    .collect(),
            )
        },
        // The last declaration repeats the first.
        |c| prog((0..c).map(|i| basic(&n(i))).chain([basic(&n(0))]).collect()),
        |c| {
            let mut v: Vec<TOp> = (0..c).map(|i| basic(&n(i))).collect();
            v.push(TOp::Security(vec![SecOp::Scheme(Scheme::Combo), SecOp::AllOf((0..c).map(n).collect())]));
            prog(v)
        },
        // The last reference of the combination is not defined.
        |c| {
            let mut v: Vec<TOp> = (0..c).map(|i| basic(&n(i))).collect();
            v.push(TOp::Security(vec![SecOp::Scheme(Scheme::Combo), SecOp::OneOf((0..=c).map(n).collect())]));
            prog(v)
        },
        |c| {
            prog(vec![TOp::Security(
                std::iter::once(SecOp::Scheme(Scheme::OAuth2(st("code"))))
                    .chain((0..c).map(|i| SecOp::Scope(n(i))))
                    .collect(),
            )])
        },
        |c| {
            prog(vec![TOp::Security(
                (0..c)
                    .map(|i| SecOp::AType(n(i)))
                    .chain([SecOp::Scheme(Scheme::Auto)])
                    .chain((0..c).map(|i| SecOp::AType(n(i))))
                    .collect(),
            )])
        },
    ]
}

pub fn form_wide() -> Vec<Place<usize>> {
    fn many(c: usize, o: impl Fn(usize) -> FOp) -> Prog {
        post(
            (0..4)
                .map(|site| {
                    let mut f = ok_form(site);
                    f.extend((0..c).map(&o));
                    form1(site, f)
                })
                .collect(),
        )
    }
    vec![
        |c| many(c, |i| FOp::Scope(n(i))),
        |c| many(c, |i| FOp::AddResp(vec![AR::CType(n(i))])),
        |c| {
            let mut p = many(c, |i| FOp::Security(n(i)));
            p.ops.extend((0..c).map(|i| basic(&n(i))));
            p
        },
        // The last reference is not defined.
        |c| {
            let mut p = many(c + 1, |i| FOp::Security(n(i)));
            p.ops.extend((0..c).map(|i| basic(&n(i))));
            p
        },
        |c| {
            let mut p = many(c, |i| FOp::AddResp(vec![AR::Schema(n(i)), AR::Success]));
            p.ops.extend((0..c).map(|i| TOp::SchemaDef(n(i), k(Ki::Bool))));
            p
        },
        // The last schema is not declared.
        |c| {
            let mut p = many(c + 1, |i| FOp::AddResp(vec![AR::Schema(n(i))]));
            p.ops.extend((0..c).map(|i| TOp::SchemaDef(n(i), k(Ki::Bool))));
            p
        },
        // As many forms
        |c| {
            post(
                (0..4)
                    .flat_map(|site| {
                        at_forms(
                            site,
                            "x",
                            (0..c).map(|i| vec![FOp::Href(n(i)), FOp::Op(legal_op(site))]).collect(),
                        )
                    })
                    .collect(),
            )
        },
        // The last form has an operation of another context.
        |c| {
            post(
                (0..4)
                    .flat_map(|site| {
                        at_forms(
                            site,
                            "x",
                            (0..=c)
                                .map(|i| {
                                    let s = if i == c { (site + 1) % 4 } else { site };
                                    vec![FOp::Href(n(i)), FOp::Op(legal_op(s))]
                                })
                                .collect(),
                        )
                    })
                    .collect(),
            )
        },
        // The last operation of a form is the illegal one.
        |c| {
            post(vec![TOp::Property(
                st("p"),
                kw(
                    Ki::Bool,
                    &[SOp::Form(
                        std::iter::once(FOp::Href(st("h")))
                            .chain((0..c).map(|i| FOp::Op((i % 4) as u8)))
                            .chain([FOp::Op(4)])
                            .collect(),
                    )],
                ),
            )])
        },
    ]
}

pub fn schema_wide() -> Vec<Place<usize>> {
    use SOp::*;
    fn list(kind: Ki, c: usize, o: impl Fn(usize) -> SOp) -> Schema {
        let mut s = k(kind);
        s.extend((0..c).map(o));
        s
    }
    /// Alternates leaf kinds.
    fn leaf(i: usize) -> Schema {
        match i % 5 {
            0 => k(Ki::Bool),
            1 => kw(Ki::Integer, &[IMin(i as i64)]),
            2 => kw(Ki::Str, &[MaxLen(i as u32)]),
            3 => k(Ki::Null),
            _ => kw(Ki::Number, &[NMax(F(i as f64))]),
        }
    }
    vec![
        |c| s1(list(Ki::Tuple, c, |i| Append(leaf(i)))),
        |c| s1(list(Ki::Object, c, |i| Prop(n(i), i % 2 == 0, leaf(i)))),
        |c| s1(sch((0..c.max(1)).map(|i| OneOf(leaf(i))).collect())),
        |c| s1(sch((0..c.max(1)).map(|i| Enum(json!(i))).collect())),
        |c| s1(list(Ki::Bool, c, |i| I(IOp::AType(n(i))))),
        |c| s1(kw(Ki::Bool, &[I(IOp::Titles(langs(c))), I(IOp::Descs(langs(c)))])),
        // Nesting
        |c| s1((0..c.min(28)).fold(leaf(1), |s, i| wrap(i as u64 % CONTAINERS, s))),
        |c| s1((0..c.min(28)).fold(leaf(2), |s, _| wrap(0, s))),
        |c| s1((0..c.min(28)).fold(leaf(2), |s, _| wrap(4, s))),
        |c| s1((0..c.min(28)).fold(leaf(2), |s, _| wrap(7, s))),
        // An invalid schema at the end / at the bottom
        |c| {
            s1(list(Ki::Tuple, c + 1, |i| {
                Append(if i == c { kw(Ki::Integer, &[IMin(2), IMax(1)]) } else { leaf(i) })
            }))
        },
        |c| {
            s1(list(Ki::Object, c + 1, |i| {
                Prop(n(i), true, if i == c { kw(Ki::Number, &[NMul(F(0.0))]) } else { leaf(i) })
            }))
        },
        |c| {
            s1(sch((0..=c)
                .map(|i| OneOf(if i == c { kw(Ki::Vec, &[MinItems(2), MaxItems(1)]) } else { leaf(i) }))
                .collect()))
        },
        |c| s1((0..c.min(28)).fold(kw(Ki::Integer, &[IMin(2), IMax(1)]), |s, i| wrap(i as u64 % CONTAINERS, s))),
    ]
}

pub fn name_wide() -> Vec<Place<usize>> {
    vec![
        |c| post((0..c).map(|i| affordance(0, &n(i))).collect()),
        |c| post((0..c).map(|i| affordance(1, &n(i))).collect()),
        |c| post((0..c).map(|i| affordance(2, &n(i))).collect()),
        |c| post((0..c).map(|i| affordance(i as u64 % 3, &n(i))).collect()),
        |c| post((0..c).map(|i| affordance(i as u64 % 3, &n(i / 3))).collect()),
        // The last one repeats the first.
        |c| post((0..c).map(|i| affordance(0, &n(i))).chain([affordance(0, &n(0))]).collect()),
        |c| post((0..c).map(|i| affordance(1, &n(i))).chain([affordance(1, &n(0))]).collect()),
        |c| post((0..c).map(|i| affordance(2, &n(i))).chain([affordance(2, &n(0))]).collect()),
        // The last two are the same.
        |c| post((0..c).map(|i| affordance(0, &n(i))).chain([affordance(0, &n(c.saturating_sub(1)))]).collect()),
        |c| post((0..c).map(|i| affordance(1, &n(i))).chain([affordance(1, &n(c.saturating_sub(1)))]).collect()),
        |c| post((0..c).map(|i| affordance(2, &n(i))).chain([affordance(2, &n(c.saturating_sub(1)))]).collect()),
        |c| post((0..c).map(|i| TOp::UriVar(n(i), k(Ki::Bool))).collect()),
        |c| post((0..c).map(|i| TOp::SchemaDef(n(i), k(Ki::Bool))).collect()),
        |c| {
            let u = |i| (n(i), k(Ki::Integer));
            post(vec![
                TOp::Property(n(0), {
                    let mut s = k(Ki::Bool);
                    s.extend((0..c).map(u).map(|(n, s)| SOp::UriVar(n, s)));
                    s
                }),
                TOp::Action(n(0), (0..c).map(u).map(|(n, s)| AOp::UriVar(n, s)).collect()),
                TOp::Event(n(0), (0..c).map(u).map(|(n, s)| EOp::UriVar(n, s)).collect()),
            ])
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// Rich operations, one or more per feature: mixed by the JSON, extension and equality checks

pub fn info_ops() -> Vec<IOp> {
    vec![
        IOp::AType(st("T1")),
        IOp::AType(st("T2")),
        IOp::Title(st("title 1")),
        IOp::Title(st("title 2")),
        IOp::Titles(mp(&[("en", "a"), ("it-IT", "b")])),
        IOp::Titles(mp(&[])),
        IOp::Desc(st("desc 1")),
        IOp::Desc(st("desc 2")),
        IOp::Descs(mp(&[("fr", "c")])),
    ]
}

pub fn rich_form(site: u64) -> Vec<FOp> {
    let (o1, o2) = match site {
        0 => (11, 17),
        1 => (2, 1),
        2 => (6, 5),
        _ => (8, 7),
    };
    vec![
        FOp::Scope(st("s1")),
        FOp::Op(o1),
        FOp::Href(st("coap://h/{?x}")),
        FOp::Op(o2),
        FOp::CType(st("text/plain")),
        FOp::CCoding(st("gzip")),
        FOp::Subproto(st("longpoll")),
        FOp::Scope(st("s2")),
        FOp::Security(st("nosec")),
        FOp::Security(st("nosec")),
        FOp::Response(st("text/x"), 3, 5),
        FOp::AddResp(vec![AR::Success, AR::Schema(st("sd"))]),
        FOp::AddResp(vec![AR::CType(st("z"))]),
    ]
}

/// Thing level operations valid on their own in `rich_base`.
pub fn rich_ops() -> Vec<TOp> {
    let mut v = vec![
        TOp::Id(st("urn:x")),
        TOp::Desc(st("d")),
        TOp::Version(st("1.0"), Some(st("2.0"))),
        TOp::VersionStr(st("3")),
        TOp::Created(st("2022-01-02T03:04:05.678901234+05:30")),
        TOp::Modified(st("1969-12-31T23:59:59Z")),
        TOp::Support(st("mailto:a@b")),
        TOp::Base(st("coap://b")),
        TOp::Context(st("https://c")),
        TOp::ContextMap(mp(&[("a", "b"), ("c", "d")])),
        TOp::AType(st("T1")),
        TOp::AType(st("T2")),
        TOp::Titles(mp(&[("en", "a"), ("it-IT", "b")])),
        TOp::Descs(mp(&[("fr", "c")])),
        TOp::Link(st("l1")),
        TOp::LinkWith(vec![
            LOp::Ty(st("ty")),
            LOp::Rel(st("icon")),
            LOp::Href(st("l2")),
            LOp::Sizes(st("1x1")),
            LOp::Anchor(st("an")),
            LOp::HrefLang(st("en")),
        ]),
        TOp::LinkWith(vec![LOp::Href(st("l3")), LOp::HrefLang(st("en")), LOp::HrefLang(st("it-IT"))]),
        TOp::Profile(st("p1")),
        TOp::Profile(st("p2")),
        TOp::UriVar(st("u1"), kw(Ki::Integer, &[SOp::IMin(1)])),
        TOp::UriVar(st("u2"), k(Ki::Str)),
        TOp::SchemaDef(st("d2"), rich_leaves()[14].clone()),
    ];
    for f in 0..4 {
        v.push(match f {
            0 => TOp::Form(rich_form(0)),
            1 => TOp::Property(
                st("pf"),
                kw(
                    Ki::Integer,
                    &[
                        SOp::Form(rich_form(1)),
                        SOp::IMin(3),
                        SOp::Form(ok_form(1)),
                        SOp::Observable(true),
                        SOp::UriVar(st("u"), k(Ki::Null)),
                    ],
                ),
            ),
            2 => TOp::Action(
                st("af"),
                vec![
                    AOp::Form(rich_form(2)),
                    AOp::Input(rich_leaves()[12].clone()),
                    AOp::Output(rich_leaves()[6].clone()),
                    AOp::Safe,
                    AOp::Sync(true),
                    AOp::UriVar(st("u"), k(Ki::Null)),
                ],
            ),
            _ => TOp::Event(
                st("ef"),
                vec![
                    EOp::Form(rich_form(3)),
                    EOp::Data(rich_leaves()[2].clone()),
                    EOp::Subscription(rich_leaves()[10].clone()),
                    EOp::Cancellation(rich_leaves()[7].clone()),
                    EOp::UriVar(st("u"), k(Ki::Null)),
                ],
            ),
        });
    }
    v.push(TOp::Form(ok_form(0)));
    v.push(TOp::Property(
        st("pi"),
        sch(info_ops().into_iter().map(SOp::I).chain([SOp::Kind(Ki::Null), SOp::WriteOnly]).collect()),
    ));
    v.push(TOp::Property(st("pc"), k(Ki::Const(json!(null)))));
    v.push(TOp::Property(st("pe"), sch(vec![SOp::Observable(false), SOp::Enum(json!(1)), SOp::Enum(json!("x"))])));
    v.push(TOp::Property(st("po"), rich_leaves()[14].clone()));
    v.push(TOp::Property(st("pt"), rich_leaves()[12].clone()));
    v.push(TOp::Property(st("p1"), rich_leaves()[16].clone()));
    v.push(TOp::Action(st("ai"), info_ops().into_iter().map(AOp::I).chain([AOp::Idem, AOp::Sync(false)]).collect()));
    v.push(TOp::Event(st("ei"), info_ops().into_iter().map(EOp::I).collect()));
    v.push(TOp::Event(st("ed"), vec![EOp::DataResponse(rich_leaves()[3].clone())]));
    for s in sec_ops() {
        v.push(TOp::Security(s));
    }
    v
}

/// Declarations of every security scheme, with all their members.
pub fn sec_ops() -> Vec<Vec<SecOp>> {
    use SecOp::*;
    let s = |x: self::Scheme| Scheme(x);
    vec![
        vec![Required, s(self::Scheme::Auto), AType(st("T1")), Desc(st("d")), Proxy(st("p"))],
        vec![s(self::Scheme::Basic), Name(st("n")), Location(3)],
        vec![Key(st("k1")), Required, s(self::Scheme::Basic)],
        vec![s(self::Scheme::Digest), Name(st("n")), Location(4), Qop(1), Descs(mp(&[("en", "x")]))],
        vec![Key(st("k2")), s(self::Scheme::Digest)],
        vec![s(self::Scheme::ApiKey), Name(st("n")), Location(2), AType(st("T1")), AType(st("T2"))],
        vec![Key(st("k3")), s(self::Scheme::ApiKey), Required],
        vec![s(self::Scheme::Bearer), Name(st("n")), Location(1), Authorization(st("a")), Alg(st("HS")), Format(st("f"))],
        vec![Key(st("k4")), s(self::Scheme::Bearer)],
        vec![s(self::Scheme::Psk), Desc(st("d"))],
        vec![
            s(self::Scheme::OAuth2(st("code"))),
            Authorization(st("a")),
            Token(st("t")),
            Refresh(st("r")),
            Scope(st("s1")),
            Scope(st("s2")),
        ],
        vec![Key(st("k5")), s(self::Scheme::OAuth2(st("client"))), Scope(st("only"))],
        vec![s(self::Scheme::Custom(st("ace:ACE"))), Data(json!({"ace:x": [1, null], "ace:y": {"z": "w"}}))],
        vec![Key(st("k6")), Required, s(self::Scheme::Custom(st("x:y")))],
        vec![s(self::Scheme::Combo), AllOf(sv(&["nosec"])), Push(st("nosec"))],
        vec![s(self::Scheme::Combo), Name(st("k7")), OneOf(sv(&["nosec"])), Required],
    ]
}

/// What the references of `rich_ops` need.
pub fn rich_base() -> Vec<TOp> {
    vec![
        TOp::Security(vec![SecOp::Scheme(Scheme::NoSec)]),
        TOp::SchemaDef(st("sd"), k(Ki::Bool)),
    ]
}

/// A program with everything in it.
pub fn rich_all() -> Prog {
    post(rich_base().into_iter().chain(rich_ops()).collect())
}

// ---------------------------------------------------------------------------------------------
// Extensions

const P_ORDERS: [&str; 5] = ["iippddf", "ddfppii", "ipdipdf", "dpipidf", "ddfk"];

/// Every way of putting `rest` (in order) between and around `marks` (in order): one entry per way,
/// true where a mark goes.
pub fn merges(marks: usize, rest: usize) -> Vec<Vec<bool>> {
    if marks == 0 || rest == 0 {
        return vec![[vec![true; marks], vec![false; rest]].concat()];
    }
    let mut out = vec![];
    for (first, l) in [(true, merges(marks - 1, rest)), (false, merges(marks, rest - 1))] {
        for mut v in l {
            v.insert(0, first);
            out.push(v);
        }
    }
    out
}

pub fn merge<T>(v: Vec<T>, is_mark: impl Fn(&T) -> bool, how: &[bool]) -> Vec<T> {
    let (m, r): (Vec<T>, Vec<T>) = v.into_iter().partition(is_mark);
    let (mut m, mut r) = (m.into_iter(), r.into_iter());
    how.iter().map(|x| if *x { m.next() } else { r.next() }.expect("ill-typed program: merge")).collect()
}

/// Source of extension payloads.
pub struct Payload {
    next: u8,
    step: u8,
    order: usize,
}

impl Payload {
    pub fn new(first: u8, step: u8, order: usize) -> Self {
        Payload {
            next: first,
            step,
            order,
        }
    }

    fn get(&mut self) -> u8 {
        let p = self.next;
        self.next = (self.next + self.step) % 16;
        p
    }
}

/// The program `p` with both extensions at every place.
pub fn extify(p: &Prog, x: &mut Payload) -> Prog {
    let mut ops = Vec::new();
    let cut = p.ops.iter().position(|o| *o == TOp::Finish).unwrap_or(p.ops.len());
    // The extensions go in the middle of the early operations.
    for (i, o) in p.ops.iter().enumerate() {
        if i == cut / 2 {
            ops.push(TOp::Ext(x.get()));
        }
        if i == cut {
            ops.push(TOp::Ext(x.get()));
        }
        ops.push(match o {
            TOp::Form(f) => TOp::Form(x_form(f, x)),
            TOp::UriVar(n, s) => TOp::UriVar(n.clone(), x_schema(s, x)),
            TOp::SchemaDef(n, s) => TOp::SchemaDef(n.clone(), x_schema(s, x)),
            TOp::Property(n, s) => TOp::Property(n.clone(), x_prop(s, x)),
            TOp::Action(n, a) => TOp::Action(n.clone(), x_act(a, x)),
            TOp::Event(n, e) => TOp::Event(n.clone(), x_evt(e, x)),
            o => o.clone(),
        });
    }
    let have = ops.iter().filter(|o| matches!(o, TOp::Ext(_))).count();
    for _ in have..2 {
        ops.push(TOp::Ext(x.get()));
    }
    Prog {
        title: p.title.clone(),
        ops,
    }
}

fn x_kind(kind: &Ki, x: &mut Payload) -> Ki {
    match kind {
        Ki::Tuple => Ki::TupleExt(x.get(), x.get()),
        Ki::Vec => Ki::VecExt(x.get(), x.get()),
        Ki::Object => Ki::ObjectExt(x.get(), x.get()),
        k => k.clone(),
    }
}

fn x_sop(o: &SOp, x: &mut Payload) -> SOp {
    match o {
        SOp::Kind(k) => SOp::Kind(x_kind(k, x)),
        SOp::Append(s) => SOp::Append(x_schema(s, x)),
        SOp::Item(s) => SOp::Item(x_schema(s, x)),
        SOp::Prop(n, r, s) => SOp::Prop(n.clone(), *r, x_schema(s, x)),
        SOp::OneOf(s) => SOp::OneOf(x_schema(s, x)),
        SOp::UriVar(n, s) => SOp::UriVar(n.clone(), x_schema(s, x)),
        SOp::Form(f) => SOp::Form(x_form(f, x)),
        o => o.clone(),
    }
}

fn x_schema(s: &[SOp], x: &mut Payload) -> Schema {
    let mut out = Vec::new();
    for (i, o) in s.iter().enumerate() {
        if *o == SOp::Finish {
            // One before the early operations, one after (both after when there is none).
            if i > 0 {
                out.insert(0, SOp::Ext(x.get()));
            } else {
                out.push(SOp::Ext(x.get()));
            }
            out.push(SOp::Ext(x.get()));
        }
        out.push(x_sop(o, x));
    }
    out
}

fn x_prop(s: &[SOp], x: &mut Payload) -> Schema {
    let order = P_ORDERS[x.order % P_ORDERS.len()];
    let mut out = Vec::new();
    // The data schema members are only available once its extensions are complete.
    let cut = s.iter().position(|o| *o == SOp::Finish).expect("ill-typed program");
    for m in order.chars() {
        match m {
            'i' => out.push(SOp::ExtI(x.get())),
            'p' => out.push(SOp::ExtP(x.get())),
            'd' => out.push(SOp::Ext(x.get())),
            'f' => out.push(SOp::Finish),
            _ => {}
        }
    }
    // Place the early operations that can be early after the first marker.
    let (early, late): (Vec<SOp>, Vec<SOp>) = s[..cut]
        .iter()
        .map(|o| x_sop(o, x))
        .partition(|o| matches!(o, SOp::I(_) | SOp::Form(_) | SOp::UriVar(..) | SOp::Observable(_)));
    let tail = out.split_off(1);
    out.extend(early);
    out.extend(tail);
    out.extend(late);
    out.extend(s[cut + 1..].iter().map(|o| x_sop(o, x)));
    if order.ends_with('k') {
        out.extend([SOp::ExtP(x.get()), SOp::ExtP(x.get()), SOp::ExtI(x.get()), SOp::ExtI(x.get())]);
    }
    out
}

fn x_form(f: &[FOp], x: &mut Payload) -> Vec<FOp> {
    let mut out = Vec::new();
    let order = x.order % 3;
    for o in f {
        if matches!(o, FOp::Href(_)) {
            for _ in 0..order {
                out.push(FOp::Ext(x.get()));
            }
            out.push(o.clone());
            for _ in order..2 {
                out.push(FOp::Ext(x.get()));
            }
        } else {
            out.push(match o {
                FOp::Response(c, _, _) => FOp::Response(c.clone(), x.get(), x.get()),
                o => o.clone(),
            });
        }
    }
    out
}

fn x_act(a: &[AOp], x: &mut Payload) -> Vec<AOp> {
    let mut out: Vec<AOp> = a
        .iter()
        .map(|o| match o {
            AOp::Input(s) => AOp::Input(x_schema(s, x)),
            AOp::Output(s) => AOp::Output(x_schema(s, x)),
            AOp::UriVar(n, s) => AOp::UriVar(n.clone(), x_schema(s, x)),
            AOp::Form(f) => AOp::Form(x_form(f, x)),
            o => o.clone(),
        })
        .collect();
    let at = out.len() / 2;
    for m in ["AAII", "AIAI", "IIAA"][x.order % 3].chars() {
        let p = x.get();
        out.insert(at, if m == 'I' { AOp::ExtI(p) } else { AOp::Ext(p) });
    }
    out
}

fn x_evt(a: &[EOp], x: &mut Payload) -> Vec<EOp> {
    let mut out: Vec<EOp> = a
        .iter()
        .map(|o| match o {
            EOp::Subscription(s) => EOp::Subscription(x_schema(s, x)),
            EOp::Data(s) => EOp::Data(x_schema(s, x)),
            EOp::Cancellation(s) => EOp::Cancellation(x_schema(s, x)),
            EOp::DataResponse(s) => EOp::DataResponse(x_schema(s, x)),
            EOp::UriVar(n, s) => EOp::UriVar(n.clone(), x_schema(s, x)),
            EOp::Form(f) => EOp::Form(x_form(f, x)),
            o => o.clone(),
        })
        .collect();
    let at = out.len() / 2;
    for m in ["AAII", "AIAI", "IIAA"][x.order % 3].chars() {
        let p = x.get();
        out.insert(at, if m == 'I' { EOp::ExtI(p) } else { EOp::Ext(p) });
    }
    out
}
