//! Builder programs: the sequences of public API calls the explorer enumerates.
//!
//! A program is plain data. The driver (drive.rs) executes it on the real crate, the reference
//! model (model.rs) interprets it independently.

use serde::{Deserialize, Serialize};
use serde_json::Value;

pub type S = String;
pub type Map = Vec<(S, S)>;

/// A float whose NaN / infinities survive in a replay file.
#[derive(Clone, Copy, Debug)]
pub struct F(pub f64);

impl PartialEq for F {
    fn eq(&self, o: &F) -> bool {
        self.0.to_bits() == o.0.to_bits()
    }
}

impl Serialize for F {
    fn serialize<X: serde::Serializer>(&self, s: X) -> Result<X::Ok, X::Error> {
        s.serialize_str(&format!("{:?}", self.0))
    }
}

impl<'de> Deserialize<'de> for F {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map(F).map_err(serde::de::Error::custom)
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum IOp {
    AType(S),
    Title(S),
    Titles(Map),
    Desc(S),
    Descs(Map),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Tuple,
    Vec,
    Bool,
    Number,
    Integer,
    Object,
    Str,
    Null,
    Const(Value),
    /// The `*_ext` flavours: extension payloads for the array / object schema.
    TupleExt(u8, u8),
    VecExt(u8, u8),
    ObjectExt(u8, u8),
}

/// One step of a data schema (or property affordance) builder chain.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SOp {
    I(IOp),
    Unit(S),
    Format(S),
    Default(Value),
    /// Extension of the data schema; only before `Finish`.
    Ext(u8),
    Finish,
    Kind(Kind),
    Append(Schema),
    Item(Schema),
    MinItems(u32),
    MaxItems(u32),
    NMin(F),
    NMax(F),
    NXMin(F),
    NXMax(F),
    NMul(F),
    IMin(i64),
    IMax(i64),
    IXMin(i64),
    IXMax(i64),
    IMul(u64),
    Prop(S, bool, Schema),
    MinLen(u32),
    MaxLen(u32),
    Pattern(S),
    CEnc(S),
    CMedia(S),
    Enum(Value),
    OneOf(Schema),
    ReadOnly,
    WriteOnly,
    // Property affordances only.
    Form(Vec<FOp>),
    UriVar(S, Schema),
    Observable(bool),
    ExtI(u8),
    ExtP(u8),
}

pub type Schema = Vec<SOp>;

pub const OPS: [&str; 18] = [
    "readproperty",
    "writeproperty",
    "observeproperty",
    "unobserveproperty",
    "invokeaction",
    "queryaction",
    "cancelaction",
    "subscribeevent",
    "unsubscribeevent",
    "readallproperties",
    "writeallproperties",
    "readmultipleproperties",
    "writemultipleproperties",
    "observeallproperties",
    "unobserveallproperties",
    "subscribeallevents",
    "unsubscribeallevents",
    "queryallactions",
];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum AR {
    Success,
    CType(S),
    Schema(S),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FOp {
    Href(S),
    /// Index into OPS.
    Op(u8),
    CType(S),
    CCoding(S),
    Subproto(S),
    Security(S),
    Scope(S),
    /// content type, extension payloads (ignored without extensions)
    Response(S, u8, u8),
    ResponseDefault(S),
    AddResp(Vec<AR>),
    Ext(u8),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum LOp {
    Href(S),
    Ty(S),
    Rel(S),
    Anchor(S),
    Sizes(S),
    HrefLang(S),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Scheme {
    NoSec,
    Auto,
    Combo,
    Basic,
    Digest,
    Bearer,
    Psk,
    OAuth2(S),
    ApiKey,
    Custom(S),
}

pub const LOCATIONS: [&str; 5] = ["header", "query", "body", "cookie", "uri"];
pub const QOPS: [&str; 2] = ["auth", "auth-int"];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SecOp {
    AType(S),
    Desc(S),
    Descs(Map),
    Proxy(S),
    Key(S),
    Required,
    /// Exactly once.
    Scheme(Scheme),
    // After the scheme:
    Name(S),
    Location(u8),
    Qop(u8),
    Authorization(S),
    Alg(S),
    Format(S),
    Token(S),
    Refresh(S),
    Scope(S),
    Data(Value),
    AllOf(Vec<S>),
    OneOf(Vec<S>),
    Push(S),
    Extend(Vec<S>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum AOp {
    I(IOp),
    Input(Schema),
    Output(Schema),
    Safe,
    Idem,
    Sync(bool),
    Form(Vec<FOp>),
    UriVar(S, Schema),
    ExtI(u8),
    Ext(u8),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum EOp {
    I(IOp),
    Subscription(Schema),
    Data(Schema),
    Cancellation(Schema),
    DataResponse(Schema),
    Form(Vec<FOp>),
    UriVar(S, Schema),
    ExtI(u8),
    Ext(u8),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum TOp {
    Id(S),
    Desc(S),
    Version(S, Option<S>),
    /// Passing just the instance string.
    VersionStr(S),
    /// RFC 3339 text
    Created(S),
    Modified(S),
    Support(S),
    Base(S),
    Context(S),
    ContextMap(Map),
    AType(S),
    Titles(Map),
    Descs(Map),
    Link(S),
    LinkWith(Vec<LOp>),
    Security(Vec<SecOp>),
    Profile(S),
    /// Extension of the thing; only before `Finish`.
    Ext(u8),
    Finish,
    // After `Finish` only:
    Form(Vec<FOp>),
    UriVar(S, Schema),
    Property(S, Schema),
    Action(S, Vec<AOp>),
    Event(S, Vec<EOp>),
    SchemaDef(S, Schema),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Prog {
    pub title: S,
    pub ops: Vec<TOp>,
}

impl Prog {
    /// Number of builder calls (the transitions of the explored system).
    pub fn calls(&self) -> u64 {
        2 + self.ops.iter().map(t_calls).sum::<u64>()
    }
}

fn s_calls(s: &[SOp]) -> u64 {
    s.iter()
        .map(|o| match o {
            SOp::Append(s) | SOp::Item(s) | SOp::Prop(_, _, s) | SOp::OneOf(s) | SOp::UriVar(_, s) => {
                1 + s_calls(s)
            }
            SOp::Form(f) => 1 + f_calls(f),
            _ => 1,
        })
        .sum()
}

fn f_calls(f: &[FOp]) -> u64 {
    f.iter()
        .map(|o| match o {
            FOp::AddResp(v) => 1 + v.len() as u64,
            _ => 1,
        })
        .sum()
}

fn t_calls(t: &TOp) -> u64 {
    match t {
        TOp::LinkWith(l) => 1 + l.len() as u64,
        TOp::Security(s) => 1 + s.len() as u64,
        TOp::Form(f) => 1 + f_calls(f),
        TOp::UriVar(_, s) | TOp::Property(_, s) | TOp::SchemaDef(_, s) => 1 + s_calls(s),
        TOp::Action(_, a) => {
            1 + a
                .iter()
                .map(|o| match o {
                    AOp::Input(s) | AOp::Output(s) | AOp::UriVar(_, s) => 1 + s_calls(s),
                    AOp::Form(f) => 1 + f_calls(f),
                    _ => 1,
                })
                .sum::<u64>()
        }
        TOp::Event(_, a) => {
            1 + a
                .iter()
                .map(|o| match o {
                    EOp::Subscription(s)
                    | EOp::Data(s)
                    | EOp::Cancellation(s)
                    | EOp::DataResponse(s)
                    | EOp::UriVar(_, s) => 1 + s_calls(s),
                    EOp::Form(f) => 1 + f_calls(f),
                    _ => 1,
                })
                .sum::<u64>()
        }
        _ => 1,
    }
}
