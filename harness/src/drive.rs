//! Executes builder programs on the real crate.

use std::num::NonZeroU64;
use std::panic::{catch_unwind, AssertUnwindSafe};

use time::OffsetDateTime;
use wot_td::{
    builder::{Error, MultiLanguageBuilder, ThingBuilder},
    extend::Extend,
    hlist::Nil,
    thing::{FormOperation, QualityOfProtection, SecurityAuthenticationLocation, Thing},
};

use crate::{dump, ext::*, model::*, prog::*};

fn ml<'a>(l: &'a mut MultiLanguageBuilder<String>, m: &Map) -> &'a mut MultiLanguageBuilder<String> {
    for (k, v) in m {
        l.add(k.as_str(), v.as_str());
    }
    l
}

pub fn operation(i: u8) -> FormOperation {
    use FormOperation::*;
    [
        ReadProperty,
        WriteProperty,
        ObserveProperty,
        UnobserveProperty,
        InvokeAction,
        QueryAction,
        CancelAction,
        SubscribeEvent,
        UnsubscribeEvent,
        ReadAllProperties,
        WriteAllProperties,
        ReadMultipleProperties,
        WriteMultipleProperties,
        ObserveAllProperties,
        UnobserveAllProperties,
        SubscribeAllEvents,
        UnsubscribeAllEvents,
        QueryAllActions,
    ][i as usize]
}

fn location(i: u8) -> SecurityAuthenticationLocation {
    use SecurityAuthenticationLocation::*;
    [Header, Query, Body, Cookie, Uri][i as usize].clone()
}

fn qop(i: u8) -> QualityOfProtection {
    use QualityOfProtection::*;
    [Auth, AuthInt][i as usize].clone()
}

fn nz(x: u64) -> NonZeroU64 {
    NonZeroU64::new(x).expect("alphabet multipleOf")
}

fn odt(s: &str) -> OffsetDateTime {
    time_of(s)
}

macro_rules! info {
    ($b:expr, $i:expr) => {
        match $i {
            IOp::AType(s) => $b.attype(s.as_str()),
            IOp::Title(s) => $b.title(s.as_str()),
            IOp::Titles(m) => $b.titles(|l| ml(l, m)),
            IOp::Desc(s) => $b.description(s.as_str()),
            IOp::Descs(m) => $b.descriptions(|l| ml(l, m)),
        }
    };
}

/// Runs the operations available in a builder state until one that needs another state.
macro_rules! seg {
    ($b:ident $ops:ident $i:ident { $($extra:tt)* } { $($like:tt)* }) => {
        while let Some(op) = $ops.get($i) {
            $b = match op {
                SOp::I(i) => info!($b, i),
                SOp::Unit(s) => $b.unit(s.as_str()),
                SOp::Format(s) => $b.format(s.as_str()),
                SOp::Default(v) => $b.default_value(v.clone()),
                $($extra)*
                $($like)*
                _ => break,
            };
            $i += 1;
        }
    };
}

/// The same without the data schema members (unavailable until the schema is fully extended).
macro_rules! iseg {
    ($b:ident $ops:ident $i:ident { $($extra:tt)* } { $($like:tt)* }) => {
        while let Some(op) = $ops.get($i) {
            $b = match op {
                SOp::I(i) => info!($b, i),
                $($extra)*
                $($like)*
                _ => break,
            };
            $i += 1;
        }
    };
}

macro_rules! lateseg {
    ($b:ident $ops:ident $i:ident) => {
        seg!($b $ops $i {
            SOp::Form(f) => $b.form(|x| form(x, f)),
            SOp::UriVar(n, s) => $b.uri_variable(n.as_str(), |x| schema(x, s)),
            SOp::Observable(o) => $b.observable(*o),
        } {})
    };
}

macro_rules! done {
    // A property whose affordance is extended after its schema is complete.
    ($b:ident $ops:ident $i:ident late) => {{
        let p = mark!($ops $i SOp::ExtP);
        #[allow(unused_mut)]
        let mut $b = $b.ext_with(|| Ap::new(p));
        lateseg!($b $ops $i);
        let p = mark!($ops $i SOp::ExtP);
        #[allow(unused_mut)]
        let mut $b = $b.ext(Bp::new(p));
        lateseg!($b $ops $i);
        let p = mark!($ops $i SOp::ExtI);
        #[allow(unused_mut)]
        let mut $b = $b.ext_interaction(Ai::new(p));
        lateseg!($b $ops $i);
        let p = mark!($ops $i SOp::ExtI);
        #[allow(unused_mut)]
        let mut $b = $b.ext_interaction_with(|| Bi::new(p));
        lateseg!($b $ops $i);
        done!($b $ops $i into_usable)
    }};
    ($b:ident $ops:ident $i:ident $end:ident) => {{
        assert!($i == $ops.len(), "ill-typed program: {:?} at {}", $ops, $i);
        return $b.$end();
    }};
}

/// A specialised builder that can still be made read-only / write-only.
macro_rules! tail {
    ($b:ident $ops:ident $i:ident $end:ident $extra:tt $like:tt $rwlike:tt, $e:expr) => {{
        #[allow(unused_mut)]
        let mut $b = $e;
        seg!($b $ops $i $extra $like);
        match $ops.get($i) {
            Some(SOp::ReadOnly) => {
                $i += 1;
                let mut $b = $b.read_only();
                seg!($b $ops $i $extra $rwlike);
                done!($b $ops $i $end)
            }
            Some(SOp::WriteOnly) => {
                $i += 1;
                let mut $b = $b.write_only();
                seg!($b $ops $i $extra $rwlike);
                done!($b $ops $i $end)
            }
            _ => done!($b $ops $i $end),
        }
    }};
}

/// A specialised builder that cannot.
macro_rules! last {
    ($b:ident $ops:ident $i:ident $end:ident $extra:tt $like:tt, $e:expr) => {{
        #[allow(unused_mut)]
        let mut $b = $e;
        seg!($b $ops $i $extra $like);
        done!($b $ops $i $end)
    }};
}

macro_rules! special {
    ($b:ident $ops:ident $i:ident $end:ident $mode:ident $extra:tt $strlike:tt) => {
        seg!($b $ops $i $extra {});
        let op = $ops.get($i).expect("ill-typed program: schema without specialization");
        $i += 1;
        match op {
            SOp::Enum(v) => tail!($b $ops $i $end $extra
                { SOp::Enum(v) => $b.enumeration(v.clone()), }
                { SOp::Enum(v) => $b.enumeration(v.clone()), },
                $b.enumeration(v.clone())),
            SOp::OneOf(s) => last!($b $ops $i $end $extra
                { SOp::OneOf(s) => $b.one_of(|x| schema(x, s)), },
                $b.one_of(|x| schema(x, s))),
            SOp::Kind(k) => match k {
                Kind::Bool => tail!($b $ops $i $end $extra {} {}, $b.bool()),
                Kind::Null => tail!($b $ops $i $end $extra {} {}, $b.null()),
                Kind::Const(v) => last!($b $ops $i $end $extra {}, $b.constant(v.clone())),
                Kind::Tuple | Kind::TupleExt(..) => tail!($b $ops $i $end $extra
                    { SOp::Append(s) => $b.append(|x| schema(x, s)), }
                    { SOp::Append(s) => $b.append(|x| schema(x, s)), },
                    if let Kind::TupleExt(p, q) = k { $b.tuple_ext(|e| ext2!($mode e Ay By p q)) } else { $b.tuple() }),
                Kind::Vec | Kind::VecExt(..) => tail!($b $ops $i $end $extra
                    { SOp::Item(s) => $b.set_item(|x| schema(x, s)), SOp::MinItems(n) => $b.min_items(*n), SOp::MaxItems(n) => $b.max_items(*n), }
                    { SOp::Item(s) => $b.set_item(|x| schema(x, s)), SOp::MinItems(n) => $b.min_items(*n), SOp::MaxItems(n) => $b.max_items(*n), },
                    if let Kind::VecExt(p, q) = k { $b.vec_ext(|e| ext2!($mode e Ay By p q)) } else { $b.vec() }),
                Kind::Object | Kind::ObjectExt(..) => tail!($b $ops $i $end $extra
                    { SOp::Prop(n, r, s) => $b.property(n.as_str(), *r, |x| schema(x, s)), }
                    { SOp::Prop(n, r, s) => $b.property(n.as_str(), *r, |x| schema(x, s)), },
                    if let Kind::ObjectExt(p, q) = k { $b.object_ext(|e| ext2!($mode e Ao Bo p q)) } else { $b.object() }),
                Kind::Number => tail!($b $ops $i $end $extra
                    { SOp::NMin(F(x)) => $b.minimum(*x), SOp::NMax(F(x)) => $b.maximum(*x), SOp::NXMin(F(x)) => $b.exclusive_minimum(*x), SOp::NXMax(F(x)) => $b.exclusive_maximum(*x), SOp::NMul(F(x)) => $b.multiple_of(*x), }
                    { SOp::NMin(F(x)) => $b.minimum(*x), SOp::NMax(F(x)) => $b.maximum(*x), SOp::NXMin(F(x)) => $b.exclusive_minimum(*x), SOp::NXMax(F(x)) => $b.exclusive_maximum(*x), SOp::NMul(F(x)) => $b.multiple_of(*x), },
                    $b.number()),
                Kind::Integer => tail!($b $ops $i $end $extra
                    { SOp::IMin(x) => $b.minimum(*x), SOp::IMax(x) => $b.maximum(*x), SOp::IXMin(x) => $b.exclusive_minimum(*x), SOp::IXMax(x) => $b.exclusive_maximum(*x), SOp::IMul(x) => $b.multiple_of(nz(*x)), }
                    { SOp::IMin(x) => $b.minimum(*x), SOp::IMax(x) => $b.maximum(*x), SOp::IXMin(x) => $b.exclusive_minimum(*x), SOp::IXMax(x) => $b.exclusive_maximum(*x), SOp::IMul(x) => $b.multiple_of(nz(*x)), },
                    $b.integer()),
                Kind::Str => tail!($b $ops $i $end $extra $strlike {}, $b.string()),
            },
            o => panic!("ill-typed program: {o:?}"),
        }
    };
}

macro_rules! ext2 {
    (nil $e:ident $A:ident $B:ident $p:ident $q:ident) => {{
        let _ = ($p, $q);
        $e
    }};
    (ab $e:ident $A:ident $B:ident $p:ident $q:ident) => {
        if *$p & 8 != 0 { $e.ext_with(|| $A::new(*$p)).ext_with(|| $B::new(*$q)) } else { $e.ext($A::new(*$p)).ext($B::new(*$q)) }
    };
}

macro_rules! mark {
    ($ops:ident $i:ident $($var:tt)*) => {{
        let p = match $ops.get($i) {
            Some($($var)*(p)) => *p,
            o => panic!("ill-typed program: {o:?}"),
        };
        $i += 1;
        p
    }};
}

/// The extension steps of a property builder, in a given order.
macro_rules! psteps {
    ($b:ident $ops:ident $i:ident $mode:ident $extra:tt $ps:ident;) => {
        special!($b $ops $i into_usable $mode $extra {});
    };
    ($b:ident $ops:ident $i:ident $mode:ident $extra:tt $ps:ident; K) => {
        special!($b $ops $i late $mode $extra {});
    };
    ($b:ident $ops:ident $i:ident $mode:ident $extra:tt $ps:ident; I $T:ident $($rest:tt)*) => {
        $ps!($b $ops $i $extra {});
        let mut $b = { let p = mark!($ops $i SOp::ExtI); if p & 8 != 0 { $b.ext_interaction_with(|| $T::new(p)) } else { $b.ext_interaction($T::new(p)) } };
        psteps!($b $ops $i $mode $extra $ps; $($rest)*);
    };
    ($b:ident $ops:ident $i:ident $mode:ident $extra:tt $ps:ident; P $T:ident $($rest:tt)*) => {
        $ps!($b $ops $i $extra {});
        let mut $b = { let p = mark!($ops $i SOp::ExtP); if p & 8 != 0 { $b.ext_with(|| $T::new(p)) } else { $b.ext($T::new(p)) } };
        psteps!($b $ops $i $mode $extra $ps; $($rest)*);
    };
    ($b:ident $ops:ident $i:ident $mode:ident $extra:tt $ps:ident; D $T:ident $($rest:tt)*) => {
        $ps!($b $ops $i $extra {});
        let mut $b = { let p = mark!($ops $i SOp::Ext); if p & 8 != 0 { $b.ext_data_schema_with(|| $T::new(p)) } else { $b.ext_data_schema($T::new(p)) } };
        psteps!($b $ops $i $mode $extra $ps; $($rest)*);
    };
    ($b:ident $ops:ident $i:ident $mode:ident $extra:tt $ps:ident; F $($rest:tt)*) => {
        $ps!($b $ops $i $extra {});
        assert!($ops.get($i) == Some(&SOp::Finish), "ill-typed program: {:?}", $ops);
        $i += 1;
        let mut $b = $b.finish_extend_data_schema();
        psteps!($b $ops $i $mode $extra seg; $($rest)*);
    };
}

macro_rules! fseg {
    ($b:ident $ops:ident $i:ident $mode:ident) => {
        while let Some(op) = $ops.get($i) {
            $b = match op {
                FOp::Op(i) => $b.op(operation(*i)),
                FOp::CType(s) => $b.content_type(s.as_str()),
                FOp::CCoding(s) => $b.content_coding(s.as_str()),
                FOp::Subproto(s) => $b.subprotocol(s.as_str()),
                FOp::Security(s) => $b.security(s.as_str()),
                FOp::Scope(s) => $b.scope(s.as_str()),
                FOp::Response(c, p, q) => $b.response(c.as_str(), |e| ext2!($mode e Ar Br p q)),
                FOp::ResponseDefault(c) => $b.response_default_ext(c.as_str()),
                FOp::AddResp(v) => $b.additional_response(|r| {
                    for o in v {
                        match o {
                            AR::Success => r.success(),
                            AR::CType(s) => r.content_type(s.as_str()),
                            AR::Schema(s) => r.schema(s.as_str()),
                        };
                    }
                    r
                }),
                _ => break,
            };
            $i += 1;
        }
    };
}

macro_rules! fsteps {
    ($b:ident $ops:ident $i:ident $mode:ident;) => {
        fseg!($b $ops $i $mode);
        assert!($i == $ops.len(), "ill-typed program: {:?}", $ops);
        return $b;
    };
    ($b:ident $ops:ident $i:ident $mode:ident; H $($rest:tt)*) => {
        fseg!($b $ops $i $mode);
        #[allow(unused_mut)]
        let mut $b = match $ops.get($i) {
            Some(FOp::Href(s)) => $b.href(s.as_str()),
            o => panic!("ill-typed program: {o:?}"),
        };
        $i += 1;
        fsteps!($b $ops $i $mode; $($rest)*);
    };
    ($b:ident $ops:ident $i:ident $mode:ident; $T:ident $($rest:tt)*) => {
        fseg!($b $ops $i $mode);
        #[allow(unused_mut)]
        let mut $b = { let p = mark!($ops $i FOp::Ext); if p & 8 != 0 { $b.ext_with(|| $T::new(p)) } else { $b.ext($T::new(p)) } };
        fsteps!($b $ops $i $mode; $($rest)*);
    };
}

macro_rules! lseg {
    ($b:ident $ops:ident $i:ident) => {
        while let Some(op) = $ops.get($i) {
            $b = match op {
                LOp::Href(_) => break,
                LOp::Ty(s) => $b.ty(s.as_str()),
                LOp::Rel(s) => $b.rel(s.as_str()),
                LOp::Anchor(s) => $b.anchor(s.as_str()),
                LOp::Sizes(s) => $b.sizes(s.as_str()),
                LOp::HrefLang(s) => $b.hreflang(s.as_str()),
            };
            $i += 1;
        }
    };
}

macro_rules! secseg {
    ($b:ident $ops:ident $i:ident { $($like:tt)* }) => {
        while let Some(op) = $ops.get($i) {
            $b = match op {
                SecOp::AType(s) => $b.attype(s.as_str()),
                SecOp::Desc(s) => $b.description(s.as_str()),
                SecOp::Descs(m) => $b.descriptions(|l| ml(l, m)),
                SecOp::Proxy(s) => $b.proxy(s.as_str()),
                SecOp::Key(s) => $b.with_key(s.as_str()),
                SecOp::Required => $b.required(),
                $($like)*
                _ => break,
            };
            $i += 1;
        }
    };
}

macro_rules! sectail {
    ($t:ident $b:ident $ops:ident $i:ident $like:tt, $e:expr) => {
        $t.security(|mut $b| {
            #[allow(unused_mut)]
            let mut $b = { secseg!($b $ops $i {}); $i += 1; $e };
            secseg!($b $ops $i $like);
            assert!($i == $ops.len(), "ill-typed program: {:?}", $ops);
            $b
        })
    };
}

macro_rules! tsec {
    ($t:ident $ops:ident) => {{
        let ops = $ops;
        let scheme = ops.iter().find_map(|o| if let SecOp::Scheme(s) = o { Some(s) } else { None }).expect("ill-typed program: no scheme");
        let mut i = 0usize;
        match scheme {
            Scheme::NoSec => sectail!($t b ops i {}, b.no_sec()),
            Scheme::Auto => sectail!($t b ops i {}, b.auto()),
            Scheme::Psk => sectail!($t b ops i {}, b.psk()),
            Scheme::Basic => sectail!($t b ops i { SecOp::Name(s) => b.name(s.as_str()), SecOp::Location(l) => b.location(location(*l)), }, b.basic()),
            Scheme::ApiKey => sectail!($t b ops i { SecOp::Name(s) => b.name(s.as_str()), SecOp::Location(l) => b.location(location(*l)), }, b.apikey()),
            Scheme::Digest => sectail!($t b ops i { SecOp::Name(s) => b.name(s.as_str()), SecOp::Location(l) => b.location(location(*l)), SecOp::Qop(q) => b.qop(qop(*q)), }, b.digest()),
            Scheme::Bearer => sectail!($t b ops i { SecOp::Name(s) => b.name(s.as_str()), SecOp::Location(l) => b.location(location(*l)), SecOp::Authorization(s) => b.authorization(s.as_str()), SecOp::Alg(s) => b.alg(s.clone()), SecOp::Format(s) => b.format(s.clone()), }, b.bearer()),
            Scheme::OAuth2(flow) => sectail!($t b ops i { SecOp::Authorization(s) => b.authorization(s.as_str()), SecOp::Token(s) => b.token(s.as_str()), SecOp::Refresh(s) => b.refresh(s.as_str()), SecOp::Scope(s) => b.scope(s.as_str()), }, b.oauth2(flow.as_str())),
            Scheme::Custom(c) => sectail!($t b ops i { SecOp::Data(v) => b.data(v.clone()), }, b.custom(c.as_str())),
            Scheme::Combo => {
                let all = ops.iter().any(|o| matches!(o, SecOp::AllOf(_)));
                if all {
                    sectail!($t b ops i { SecOp::Push(s) => b.push(s.as_str()), SecOp::Extend(v) => b.extend(v.iter().map(String::as_str)), SecOp::Name(s) => b.name(s.as_str()), }, {
                        let mut b = b.combo();
                        secseg!(b ops i { SecOp::Name(s) => b.name(s.as_str()), });
                        i += 1;
                        match &ops[i - 1] { SecOp::AllOf(v) => b.all_of(v.iter().map(String::as_str)), o => panic!("ill-typed program: {o:?}") }
                    })
                } else {
                    sectail!($t b ops i { SecOp::Push(s) => b.push(s.as_str()), SecOp::Extend(v) => b.extend(v.iter().map(String::as_str)), SecOp::Name(s) => b.name(s.as_str()), }, {
                        let mut b = b.combo();
                        secseg!(b ops i { SecOp::Name(s) => b.name(s.as_str()), });
                        i += 1;
                        match &ops[i - 1] { SecOp::OneOf(v) => b.one_of(v.iter().map(String::as_str)), o => panic!("ill-typed program: {o:?}") }
                    })
                }
            }
        }
    }};
}

macro_rules! tseg {
    ($b:ident $ops:ident $i:ident { $($like:tt)* }) => {
        while let Some(op) = $ops.get($i) {
            $b = match op {
                TOp::Id(s) => $b.id(s.as_str()),
                TOp::Desc(s) => $b.description(s.as_str()),
                TOp::Version(i, m) => {
                    let mut v: wot_td::thing::VersionInfo = i.as_str().into();
                    v.model = m.clone();
                    $b.version(v)
                }
                TOp::VersionStr(i) => $b.version(i.as_str()),
                TOp::Created(s) => $b.created(odt(s)),
                TOp::Modified(s) => $b.modified(odt(s)),
                TOp::Support(s) => $b.support(s.as_str()),
                TOp::Base(s) => $b.base(s.as_str()),
                TOp::Context(s) => $b.context(s.as_str()),
                TOp::ContextMap(m) => $b.context_map(|c| {
                    for (k, v) in m {
                        c.context(k.as_str(), v.as_str());
                    }
                    c
                }),
                TOp::AType(s) => $b.attype(s.as_str()),
                TOp::Titles(m) => $b.titles(|l| ml(l, m)),
                TOp::Descs(m) => $b.descriptions(|l| ml(l, m)),
                TOp::Link(s) => $b.link(s.as_str()),
                TOp::LinkWith(l) => $b.link_with(|x| link(x, l)),
                TOp::Security(s) => tsec!($b s),
                TOp::Profile(s) => $b.profile(s.as_str()),
                $($like)*
                _ => break,
            };
            $i += 1;
        }
    };
}

fn link(mut b: wot_td::builder::LinkBuilder<()>, ops: &[LOp]) -> wot_td::builder::LinkBuilder<String> {
    let mut i = 0;
    lseg!(b ops i);
    let mut b = match ops.get(i) {
        Some(LOp::Href(s)) => b.href(s.as_str()),
        o => panic!("ill-typed program: {o:?}"),
    };
    i += 1;
    lseg!(b ops i);
    assert!(i == ops.len(), "ill-typed program: {ops:?}");
    b
}

macro_rules! driver {
    ($m:ident $mode:ident $O:ty) => {
        pub mod $m {
            use super::*;
            use wot_td::{builder::*, extend::ExtendableThing};
            type O = $O;
            type DS = <O as ExtendableThing>::DataSchema;
            type AS = <O as ExtendableThing>::ArraySchema;
            type OS = <O as ExtendableThing>::ObjectSchema;
            type IA = <O as ExtendableThing>::InteractionAffordance;
            type PA = <O as ExtendableThing>::PropertyAffordance;
            type AA = <O as ExtendableThing>::ActionAffordance;
            type EA = <O as ExtendableThing>::EventAffordance;
            type FO = <O as ExtendableThing>::Form;
            type PB = PropertyAffordanceBuilder<O, PartialDataSchemaBuilder<Nil, AS, OS, ToExtend>, Nil, Nil>;
            type UP = PropertyAffordanceBuilder<O, PartialDataSchema<DS, AS, OS>, IA, PA>;

            pub fn schema(mut b: DataSchemaBuilder<Nil, AS, OS, ToExtend>, ops: &[SOp]) -> UncheckedDataSchema<DS, AS, OS> {
                let mut i = 0usize;
                seg!(b ops i {} {});
                sext!($mode b ops i);
                assert!(ops.get(i) == Some(&SOp::Finish), "ill-typed program: {ops:?}");
                i += 1;
                let mut b = b.finish_extend();
                special!(b ops i into $mode {} {
                    SOp::MinLen(n) => b.min_length(*n),
                    SOp::MaxLen(n) => b.max_length(*n),
                    SOp::Pattern(s) => b.pattern(s.as_str()),
                    SOp::CEnc(s) => b.content_encoding(s.as_str()),
                    SOp::CMedia(s) => b.content_media_type(s.as_str()),
                });
            }

            /// The schema on its own.
            pub fn alone(ops: &[SOp]) -> Result<wot_td::thing::DataSchema<DS, AS, OS>, Error> {
                let mut b = DataSchemaBuilder::<DS, AS, OS, Extended>::default();
                let mut i = 0usize;
                assert!(ops.get(i) == Some(&SOp::Finish), "ill-typed program: {ops:?}");
                i += 1;
                special!(b ops i try_into $mode {} {
                    SOp::MinLen(n) => b.min_length(*n),
                    SOp::MaxLen(n) => b.max_length(*n),
                    SOp::Pattern(s) => b.pattern(s.as_str()),
                    SOp::CEnc(s) => b.content_encoding(s.as_str()),
                    SOp::CMedia(s) => b.content_media_type(s.as_str()),
                });
            }

            pub fn property(b: PB, ops: &[SOp]) -> UP {
                property_order!($mode b ops);
            }

            pub fn form(mut b: FormBuilder<O, (), Nil>, ops: &[FOp]) -> FormBuilder<O, String, FO> {
                let mut i = 0usize;
                form_order!($mode b ops i);
            }

            pub fn action(mut b: ActionAffordanceBuilder<O, Nil, Nil>, ops: &[AOp]) -> ActionAffordanceBuilder<O, IA, AA> {
                let mut i = 0usize;
                affordance_order!($mode aseg b ops i AOp Aa Ba);
            }

            pub fn event(mut b: EventAffordanceBuilder<O, Nil, Nil>, ops: &[EOp]) -> EventAffordanceBuilder<O, IA, EA> {
                let mut i = 0usize;
                affordance_order!($mode eseg b ops i EOp Ae Be);
            }

            pub fn thing(p: &Prog) -> Result<Thing<O>, Error> {
                let ops = &p.ops;
                let mut i = 0usize;
                let mut b = ThingBuilder::<$O, ToExtend>::new_empty(p.title.as_str());
                tseg!(b ops i {});
                text!($mode b ops i);
                if i == ops.len() {
                    return b.build();
                }
                assert!(ops[i] == TOp::Finish, "ill-typed program: {ops:?} at {i}");
                rest(b.finish_extend(), ops, i + 1)
            }

            fn rest(mut b: ThingBuilder<O, Extended>, ops: &[TOp], mut i: usize) -> Result<Thing<O>, Error> {
                tseg!(b ops i {
                    TOp::Form(f) => b.form(|x| form(x, f)),
                    TOp::UriVar(n, s) => b.uri_variable(n.as_str(), |x| schema(x, s)),
                    TOp::SchemaDef(n, s) => b.schema_definition(n.as_str(), |x| schema(x, s)),
                    TOp::Property(n, s) => property_call!($mode b n s),
                    TOp::Action(n, s) => b.action(n.as_str(), |x| action(x, s)),
                    TOp::Event(n, s) => b.event(n.as_str(), |x| event(x, s)),
                });
                assert!(i == ops.len(), "ill-typed program: {ops:?} at {i}");
                b.build()
            }

            /// From a builder that has its (default) extensions already: the extensions of the
            /// Thing in `p` are passed over.
            pub fn started(mut b: ThingBuilder<O, ToExtend>, p: &Prog) -> Result<Thing<O>, Error> {
                let ops = &p.ops;
                let mut i = 0usize;
                loop {
                    tseg!(b ops i {});
                    match ops.get(i) {
                        None => return b.build(),
                        Some(TOp::Ext(0)) => i += 1,
                        Some(TOp::Finish) => return rest(b.finish_extend(), ops, i + 1),
                        o => panic!("ill-typed program: {o:?}"),
                    }
                }
            }
        }
    };
}

macro_rules! sext {
    (nil $b:ident $ops:ident $i:ident) => {};
    (ab $b:ident $ops:ident $i:ident) => {
        let mut $b = { let p = mark!($ops $i SOp::Ext); if p & 8 != 0 { $b.ext_with(|| Ad::new(p)) } else { $b.ext(Ad::new(p)) } };
        seg!($b $ops $i {} {});
        let mut $b = { let p = mark!($ops $i SOp::Ext); if p & 8 != 0 { $b.ext_with(|| Bd::new(p)) } else { $b.ext(Bd::new(p)) } };
        seg!($b $ops $i {} {});
    };
}

macro_rules! text {
    (nil $b:ident $ops:ident $i:ident) => {};
    (ab $b:ident $ops:ident $i:ident) => {
        let mut $b = { let p = mark!($ops $i TOp::Ext); if p & 8 != 0 { $b.ext_with(|| At::new(p)) } else { $b.ext(At::new(p)) } };
        tseg!($b $ops $i {});
        let mut $b = { let p = mark!($ops $i TOp::Ext); if p & 8 != 0 { $b.ext_with(|| Bt::new(p)) } else { $b.ext(Bt::new(p)) } };
        tseg!($b $ops $i {});
    };
}

macro_rules! pfn {
    ($mode:ident $ps:ident $name:ident $($order:tt)*) => {
        fn $name(mut b: PB, ops: &[SOp]) -> UP {
            let mut i = 0usize;
            psteps!(b ops i $mode {
                SOp::Form(f) => b.form(|x| form(x, f)),
                SOp::UriVar(n, s) => b.uri_variable(n.as_str(), |x| schema(x, s)),
                SOp::Observable(o) => b.observable(*o),
            } $ps; $($order)*);
        }
    };
}

/// Hands the builder of a property to the Thing as it is after the last call, not converted before.
macro_rules! direct {
    ($b:ident $n:ident $ops:ident $like:tt $rwlike:tt, |$x:ident, $op:ident| $e:expr) => {
        match $ops.iter().find(|o| matches!(o, SOp::ReadOnly | SOp::WriteOnly)) {
            None => $b.property($n.as_str(), |$x| {
                direct_start!($x $ops i);
                let $op = &$ops[i - 1];
                #[allow(unused_mut)]
                let mut $x = $e;
                direct_seg!($x $ops i $like);
                assert!(i == $ops.len(), "ill-typed program: {:?} at {i}", $ops);
                $x
            }),
            Some(SOp::ReadOnly) => $b.property($n.as_str(), |$x| {
                direct_start!($x $ops i);
                let $op = &$ops[i - 1];
                #[allow(unused_mut)]
                let mut $x = $e;
                direct_seg!($x $ops i $like);
                i += 1;
                let mut $x = $x.read_only();
                direct_seg!($x $ops i $rwlike);
                assert!(i == $ops.len(), "ill-typed program: {:?} at {i}", $ops);
                $x
            }),
            _ => $b.property($n.as_str(), |$x| {
                direct_start!($x $ops i);
                let $op = &$ops[i - 1];
                #[allow(unused_mut)]
                let mut $x = $e;
                direct_seg!($x $ops i $like);
                i += 1;
                let mut $x = $x.write_only();
                direct_seg!($x $ops i $rwlike);
                assert!(i == $ops.len(), "ill-typed program: {:?} at {i}", $ops);
                $x
            }),
        }
    };
    ($b:ident $n:ident $ops:ident $like:tt, |$x:ident, $op:ident| $e:expr) => {
        $b.property($n.as_str(), |$x| {
            direct_start!($x $ops i);
            let $op = &$ops[i - 1];
            #[allow(unused_mut)]
            let mut $x = $e;
            direct_seg!($x $ops i $like);
            assert!(i == $ops.len(), "ill-typed program: {:?} at {i}", $ops);
            $x
        })
    };
}

macro_rules! direct_seg {
    ($x:ident $ops:ident $i:ident $like:tt) => {
        seg!($x $ops $i {
            SOp::Form(f) => $x.form(|x| form(x, f)),
            SOp::UriVar(n, s) => $x.uri_variable(n.as_str(), |x| schema(x, s)),
            SOp::Observable(o) => $x.observable(*o),
        } $like);
    };
}

macro_rules! direct_start {
    ($x:ident $ops:ident $i:ident) => {
        #[allow(unused_mut)]
        let mut $x = $x;
        let mut $i = 0usize;
        direct_seg!($x $ops $i {});
        assert!($ops.get($i) == Some(&SOp::Finish), "ill-typed program: {:?}", $ops);
        $i += 1;
        let mut $x = $x.finish_extend_data_schema();
        direct_seg!($x $ops $i {});
        $i += 1;
    };
}

thread_local! {
    /// Whether properties are converted by `into_usable` before the Thing gets them.
    static CONVERT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

macro_rules! property_call {
    (ab $b:ident $n:ident $s:ident) => {
        $b.property($n.as_str(), |x| property(x, $s))
    };
    (nil $b:ident $n:ident $s:ident) => {
        if CONVERT.get() {
            $b.property($n.as_str(), |x| property(x, $s))
        } else {
            match $s.iter().find(|o| matches!(o, SOp::Kind(_) | SOp::Enum(_) | SOp::OneOf(_))) {
                None => panic!("ill-typed program: schema without specialization"),
                Some(SOp::Enum(_)) => direct!($b $n $s
                    { SOp::Enum(v) => x.enumeration(v.clone()), }
                    { SOp::Enum(v) => x.enumeration(v.clone()), },
                    |x, op| if let SOp::Enum(v) = op { x.enumeration(v.clone()) } else { panic!() }),
                Some(SOp::OneOf(_)) => direct!($b $n $s
                    { SOp::OneOf(s) => x.one_of(|x| schema(x, s)), },
                    |x, op| if let SOp::OneOf(s) = op { x.one_of(|x| schema(x, s)) } else { panic!() }),
                Some(SOp::Kind(k)) => match k {
                    Kind::Bool => direct!($b $n $s {} {}, |x, _op| x.bool()),
                    Kind::Null => direct!($b $n $s {} {}, |x, _op| x.null()),
                    Kind::Str => direct!($b $n $s {} {}, |x, _op| x.string()),
                    Kind::Const(_) => direct!($b $n $s {},
                        |x, op| if let SOp::Kind(Kind::Const(v)) = op { x.constant(v.clone()) } else { panic!() }),
                    Kind::Tuple | Kind::TupleExt(..) => direct!($b $n $s
                        { SOp::Append(s) => x.append(|x| schema(x, s)), }
                        { SOp::Append(s) => x.append(|x| schema(x, s)), },
                        |x, _op| x.tuple()),
                    Kind::Vec | Kind::VecExt(..) => direct!($b $n $s
                        { SOp::Item(s) => x.set_item(|x| schema(x, s)), SOp::MinItems(n) => x.min_items(*n), SOp::MaxItems(n) => x.max_items(*n), }
                        { SOp::Item(s) => x.set_item(|x| schema(x, s)), SOp::MinItems(n) => x.min_items(*n), SOp::MaxItems(n) => x.max_items(*n), },
                        |x, _op| x.vec()),
                    Kind::Object | Kind::ObjectExt(..) => direct!($b $n $s
                        { SOp::Prop(n, r, s) => x.property(n.as_str(), *r, |x| schema(x, s)), }
                        { SOp::Prop(n, r, s) => x.property(n.as_str(), *r, |x| schema(x, s)), },
                        |x, _op| x.object()),
                    Kind::Number => direct!($b $n $s
                        { SOp::NMin(F(v)) => x.minimum(*v), SOp::NMax(F(v)) => x.maximum(*v), SOp::NXMin(F(v)) => x.exclusive_minimum(*v), SOp::NXMax(F(v)) => x.exclusive_maximum(*v), SOp::NMul(F(v)) => x.multiple_of(*v), }
                        { SOp::NMin(F(v)) => x.minimum(*v), SOp::NMax(F(v)) => x.maximum(*v), SOp::NXMin(F(v)) => x.exclusive_minimum(*v), SOp::NXMax(F(v)) => x.exclusive_maximum(*v), SOp::NMul(F(v)) => x.multiple_of(*v), },
                        |x, _op| x.number()),
                    Kind::Integer => direct!($b $n $s
                        { SOp::IMin(v) => x.minimum(*v), SOp::IMax(v) => x.maximum(*v), SOp::IXMin(v) => x.exclusive_minimum(*v), SOp::IXMax(v) => x.exclusive_maximum(*v), SOp::IMul(v) => x.multiple_of(nz(*v)), }
                        { SOp::IMin(v) => x.minimum(*v), SOp::IMax(v) => x.maximum(*v), SOp::IXMin(v) => x.exclusive_minimum(*v), SOp::IXMax(v) => x.exclusive_maximum(*v), SOp::IMul(v) => x.multiple_of(nz(*v)), },
                        |x, _op| x.integer()),
                },
                Some(o) => panic!("ill-typed program: {o:?}"),
            }
        }
    };
}

macro_rules! property_order {
    (nil $b:ident $ops:ident) => {
        pfn!(nil seg f F);
        return f($b, $ops);
    };
    (ab $b:ident $ops:ident) => {
        pfn!(ab iseg iippddf I Ai I Bi P Ap P Bp D Ad D Bd F);
        pfn!(ab iseg ddfppii D Ad D Bd F P Ap P Bp I Ai I Bi);
        pfn!(ab iseg ipdipdf I Ai P Ap D Ad I Bi P Bp D Bd F);
        pfn!(ab iseg dpipidf D Ad P Ap I Ai P Bp I Bi D Bd F);
        pfn!(ab iseg ddfkppii D Ad D Bd F K);
        let mut order: Vec<char> = $ops
            .iter()
            .filter_map(|o| match o {
                SOp::Kind(_) | SOp::Enum(_) | SOp::OneOf(_) => Some('k'),
                SOp::ExtI(_) => Some('i'),
                SOp::ExtP(_) => Some('p'),
                SOp::Ext(_) => Some('d'),
                SOp::Finish => Some('f'),
                _ => None,
            })
            .collect();
        order.dedup_by(|a, b| a == b && *a == 'k');
        if order.last() == Some(&'k') {
            order.pop();
        }
        let order: String = order.into_iter().collect();
        return match order.as_str() {
            "iippddf" => iippddf($b, $ops),
            "ddfppii" => ddfppii($b, $ops),
            "ipdipdf" => ipdipdf($b, $ops),
            "dpipidf" => dpipidf($b, $ops),
            "ddfkppii" => ddfkppii($b, $ops),
            o => panic!("ill-typed program: order {o}"),
        };
    };
}

macro_rules! form_order {
    (nil $b:ident $ops:ident $i:ident) => {
        fsteps!($b $ops $i nil; H);
    };
    (ab $b:ident $ops:ident $i:ident) => {
        let order: Vec<bool> = $ops
            .iter()
            .filter_map(|o| match o {
                FOp::Href(_) => Some(true),
                FOp::Ext(_) => Some(false),
                _ => None,
            })
            .collect();
        if order == [true, false, false] {
            fsteps!($b $ops $i ab; H Af Bf);
        } else if order == [false, true, false] {
            fsteps!($b $ops $i ab; Af H Bf);
        } else {
            fsteps!($b $ops $i ab; Af Bf H);
        }
    };
}

macro_rules! aseg {
    ($b:ident $ops:ident $i:ident) => {
        while let Some(op) = $ops.get($i) {
            $b = match op {
                AOp::I(i) => info!($b, i),
                AOp::Input(s) => $b.input(|x| schema(x, s)),
                AOp::Output(s) => $b.output(|x| schema(x, s)),
                AOp::Safe => $b.safe(),
                AOp::Idem => $b.idempotent(),
                AOp::Sync(v) => $b.synchronous(*v),
                AOp::Form(f) => $b.form(|x| form(x, f)),
                AOp::UriVar(n, s) => $b.uri_variable(n.as_str(), |x| schema(x, s)),
                _ => break,
            };
            $i += 1;
        }
    };
}

macro_rules! eseg {
    ($b:ident $ops:ident $i:ident) => {
        while let Some(op) = $ops.get($i) {
            $b = match op {
                EOp::I(i) => info!($b, i),
                EOp::Subscription(s) => $b.subscription(|x| schema(x, s)),
                EOp::Data(s) => $b.data(|x| schema(x, s)),
                EOp::Cancellation(s) => $b.cancellation(|x| schema(x, s)),
                EOp::DataResponse(s) => $b.data_response(|x| schema(x, s)),
                EOp::Form(f) => $b.form(|x| form(x, f)),
                EOp::UriVar(n, s) => $b.uri_variable(n.as_str(), |x| schema(x, s)),
                _ => break,
            };
            $i += 1;
        }
    };
}

macro_rules! asteps {
    ($seg:ident $b:ident $ops:ident $i:ident $E:ident;) => {
        $seg!($b $ops $i);
        assert!($i == $ops.len(), "ill-typed program: {:?}", $ops);
        return $b;
    };
    ($seg:ident $b:ident $ops:ident $i:ident $E:ident; I $T:ident $($rest:tt)*) => {
        $seg!($b $ops $i);
        let mut $b = { let p = mark!($ops $i $E::ExtI); if p & 8 != 0 { $b.ext_interaction_with(|| $T::new(p)) } else { $b.ext_interaction($T::new(p)) } };
        asteps!($seg $b $ops $i $E; $($rest)*);
    };
    ($seg:ident $b:ident $ops:ident $i:ident $E:ident; A $T:ident $($rest:tt)*) => {
        $seg!($b $ops $i);
        let mut $b = { let p = mark!($ops $i $E::Ext); if p & 8 != 0 { $b.ext_with(|| $T::new(p)) } else { $b.ext($T::new(p)) } };
        asteps!($seg $b $ops $i $E; $($rest)*);
    };
}

macro_rules! affordance_order {
    (nil $seg:ident $b:ident $ops:ident $i:ident $E:ident $A:ident $B:ident) => {
        asteps!($seg $b $ops $i $E;);
    };
    (ab $seg:ident $b:ident $ops:ident $i:ident $E:ident $A:ident $B:ident) => {
        // true: interaction
        let order: Vec<bool> = $ops
            .iter()
            .filter_map(|o| match o {
                $E::ExtI(_) => Some(true),
                $E::Ext(_) => Some(false),
                _ => None,
            })
            .collect();
        if order == [true, true, false, false] {
            asteps!($seg $b $ops $i $E; I Ai I Bi A $A A $B);
        } else if order == [true, false, true, false] {
            asteps!($seg $b $ops $i $E; I Ai A $A I Bi A $B);
        } else {
            asteps!($seg $b $ops $i $E; A $A A $B I Ai I Bi);
        }
    };
}

driver!(nil nil Nil);
driver!(ab ab AB);

/// Outcome of a program on the real crate.
#[derive(Clone, Debug)]
pub enum Real<T> {
    Built(T),
    Rejected(S),
    Panicked(S),
}

pub fn err_key(e: &Error) -> S {
    use Error::*;
    match e {
        DuplicatedSecurityDefinition(n) => format!("DuplicatedSecurityDefinition({n:?})"),
        MissingOpInForm => "MissingOpInForm".into(),
        InvalidOpInForm { context, operation } => {
            format!("InvalidOpInForm({context:?}, {})", dump::op_name(*operation))
        }
        UndefinedSecurity(n) => format!("UndefinedSecurity({n:?})"),
        InvalidMinMax => "InvalidMinMax".into(),
        NanMinMax => "NanMinMax".into(),
        DuplicatedAffordance { ty, name } => format!("DuplicatedAffordance({ty:?}, {name:?})"),
        InvalidMultipleOf => "InvalidMultipleOf".into(),
        MissingSchemaDefinition(n) => format!("MissingSchemaDefinition({n:?})"),
        InvalidUriVariables => "InvalidUriVariables".into(),
        InvalidLanguageTag(t) => format!("InvalidLanguageTag({t:?})"),
        SizesWithRelNotIcon => "SizesWithRelNotIcon".into(),
        #[allow(unreachable_patterns)]
        e => format!("{e:?}"),
    }
}

/// Runs `f`, turning a panic of the crate into a value. Errors of the harness itself
/// ("ill-typed program") are not absorbed.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, S> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if m.contains("ill-typed program") || m.contains("alphabet") {
            eprintln!("harness error: {m}");
            std::process::exit(70);
        }
        m
    })
}

fn real<T>(f: impl FnOnce() -> Result<T, Error>) -> Real<T> {
    match guard(f) {
        Ok(Ok(t)) => Real::Built(t),
        Ok(Err(e)) => Real::Rejected(err_key(&e)),
        Err(m) => Real::Panicked(m),
    }
}

pub fn run(p: &Prog) -> Real<Thing<Nil>> {
    real(|| nil::thing(p))
}

/// The same, properties being converted by `into_usable` before the Thing gets them.
pub fn run_converted(p: &Prog) -> Real<Thing<Nil>> {
    CONVERT.set(true);
    let r = run(p);
    CONVERT.set(false);
    r
}

pub fn run_ext(p: &Prog) -> Real<Thing<AB>> {
    real(|| ab::thing(p))
}

/// The same, the builder being made in another way.
pub fn run_started(p: &Prog, shorthand: bool) -> Real<Thing<Nil>> {
    real(|| {
        let title = p.title.as_str();
        nil::started(if shorthand { Thing::builder(title) } else { ThingBuilder::<Nil, _>::new(title) }, p)
    })
}

pub fn run_started_ext(p: &Prog) -> Real<Thing<AB>> {
    real(|| ab::started(ThingBuilder::<AB, _>::new(p.title.clone()), p))
}

/// The error a program is rejected with.
pub fn error(p: &Prog) -> Option<Error> {
    guard(|| nil::thing(p)).ok().and_then(Result::err)
}

pub fn alone(s: &[SOp]) -> Real<wot_td::thing::DataSchema<Nil, Nil, Nil>> {
    real(|| nil::alone(s))
}
