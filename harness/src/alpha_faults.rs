//! Faulty elements among others: at any position of lists of any length, beside any neighbours, and
//! with any other members.

use std::sync::Arc;

use serde_json::json;

use crate::{
    alpha::*,
    checks_build::{uri_at, widths},
    gen::*,
    prog::{Kind as Ki, *},
};

/// A description with a list of the given length whose element at the given position is at fault.
pub type Fault = Arc<dyn Fn(usize, usize) -> Prog + Send + Sync>;

fn fault(f: impl Fn(usize, usize) -> Prog + Send + Sync + 'static) -> Fault {
    Arc::new(f)
}

/// The faults at the first, the last and inner positions.
pub fn anywhere(faults: Vec<Fault>, th: bool) -> Gen<Prog> {
    of(faults).x(&of(widths(th))).x(&range(5)).map(|((f, c), p)| {
        let c = c.max(1);
        f(c, [0, 1.min(c - 1), c / 2, c.saturating_sub(2), c - 1][p as usize])
    })
}

fn nm(i: usize) -> S {
    format!("n{i}")
}

fn names(c: usize) -> impl Iterator<Item = S> {
    (0..c).map(nm)
}

fn leaf(i: usize) -> Schema {
    use SOp::*;
    match i % 5 {
        0 => k(Ki::Bool),
        1 => kw(Ki::Integer, &[IMin(i as i64)]),
        2 => kw(Ki::Str, &[MaxLen(i as u32)]),
        3 => k(Ki::Null),
        _ => kw(Ki::Number, &[NMax(F(i as f64))]),
    }
}

fn empty_range(i: usize) -> Schema {
    use SOp::*;
    match i % 4 {
        0 => kw(Ki::Integer, &[IMin(2), IMax(1)]),
        1 => kw(Ki::Number, &[NMul(F(0.0))]),
        2 => kw(Ki::Str, &[MinLen(2), MaxLen(1)]),
        _ => kw(Ki::Vec, &[MinItems(2), MaxItems(1)]),
    }
}

pub fn schema_faults() -> Vec<Fault> {
    use SOp::*;
    let pick = |i: usize, at: usize| if i == at { empty_range(at) } else { leaf(i) };
    let mut v = vec![];
    for site in [0u64, 1, 4, 11] {
        v.push(fault(move |c, at| {
            let mut s = k(Ki::Tuple);
            s.extend((0..c).map(|i| Append(pick(i, at))));
            post(vec![at_schema(site, "x", s)])
        }));
        v.push(fault(move |c, at| {
            let mut s = k(Ki::Object);
            s.extend((0..c).map(|i| Prop(nm(i), i % 3 == 0, pick(i, at))));
            post(vec![at_schema(site, "x", s)])
        }));
        v.push(fault(move |c, at| post(vec![at_schema(site, "x", sch((0..c).map(|i| OneOf(pick(i, at))).collect()))])));
    }
    // One container inside another.
    v.push(fault(move |c, at| {
        let mut s = k(Ki::Tuple);
        s.extend((0..c).map(|i| Append(wrap(i as u64 % CONTAINERS, pick(i, at)))));
        post(vec![at_schema(0, "x", s)])
    }));
    v.push(fault(move |c, at| {
        let inner = |j: usize| {
            let mut s = k(Ki::Object);
            s.extend((0..3).map(|i| Prop(nm(i), false, if j == at && i == at % 3 { empty_range(at) } else { leaf(i) })));
            s
        };
        post(vec![at_schema(2, "x", sch((0..c).map(|i| OneOf(inner(i))).collect()))])
    }));
    // A list inside a container.
    for list in 0..3 {
        for c1 in 0..CONTAINERS {
            v.push(fault(move |c, at| {
                let each = |i: usize| match list {
                    0 => Append(pick(i, at)),
                    1 => Prop(nm(i), i % 3 == 0, pick(i, at)),
                    _ => OneOf(pick(i, at)),
                };
                let mut s = match list {
                    0 => k(Ki::Tuple),
                    1 => k(Ki::Object),
                    _ => sch(vec![]),
                };
                s.extend((0..c).map(each));
                let site = OPEN_SITES[(c1 as usize + list) % OPEN_SITES.len()];
                post(vec![at_schema(site, "x", wrap(c1, s))])
            }));
        }
    }
    // URI variables of the Thing and of affordances
    for site in 0..4 {
        v.push(fault(move |c, at| post(uri_at(site, "x", (0..c).map(|i| (nm(i), uri_pick(i, at))).collect()))));
        v.push(fault(move |c, at| {
            post(
                (0..c)
                    .flat_map(|i| uri_at(site, &nm(i), vec![(nm(2 * i), leaf(i)), (nm(2 * i + 1), uri_pick(i, at))]))
                    .collect(),
            )
        }));
    }
    // Declarations
    v.push(fault(move |c, at| post((0..c).map(|i| TOp::SchemaDef(nm(i), pick(i, at))).collect())));
    v.push(fault(move |c, at| post((0..c).map(|i| at_schema([0, 1, 4][i % 3], &nm(i), pick(i, at))).collect())));
    v.push(fault(move |c, at| {
        post(
            (0..c)
                .map(|i| TOp::UriVar(nm(i), if i == at { kw(Ki::Integer, &[IMin(2), IMax(1)]) } else { leaf(i) }))
                .collect(),
        )
    }));
    v
}

fn uri_pick(i: usize, at: usize) -> Schema {
    use SOp::*;
    match at % 3 {
        _ if i != at => leaf(i),
        0 => kw(Ki::Integer, &[IMin(2), IMax(1)]),
        1 => kw(Ki::Number, &[NMul(F(0.0))]),
        _ => kw(Ki::Str, &[MinLen(2), MaxLen(1)]),
    }
}

/// URI variables of which one is an array or an object.
pub fn uri_faults() -> Vec<Fault> {
    let mut v = vec![];
    let pick = |i: usize, at: usize| match at % 3 {
        _ if i != at => leaf(i),
        0 => k(Ki::Object),
        1 => k(Ki::Tuple),
        _ => k(Ki::Vec),
    };
    for site in 0..4u64 {
        v.push(fault(move |c, at| post(uri_at(site, "x", (0..c).map(|i| (nm(i), pick(i, at))).collect()))));
        // Many declarations
        v.push(fault(move |c, at| {
            post(
                (0..c)
                    .flat_map(|i| uri_at(site, &nm(i), vec![(nm(2 * i), leaf(i)), (nm(2 * i + 1), pick(i, at))]))
                    .collect(),
            )
        }));
        // Of all sorts
        v.push(fault(move |c, at| {
            post(
                (0..c)
                    .flat_map(|i| {
                        let s = if i == at { site } else { i as u64 % 4 };
                        uri_at(s, &nm(i), vec![(nm(2 * i), leaf(i)), (nm(2 * i + 1), pick(i, at))])
                    })
                    .collect(),
            )
        }));
    }
    v
}

pub fn op_faults() -> Vec<Fault> {
    let mut v = vec![];
    for site in 0..4u64 {
        v.push(fault(move |c, at| {
            let forms = (0..c).map(|i| {
                vec![FOp::Href(nm(i)), FOp::Op(legal_op(if i == at { (site + 1) % 4 } else { site }))]
            });
            post(at_forms(site, "x", forms.collect()))
        }));
        v.push(fault(move |c, at| {
            let mut f = vec![FOp::Href(st("h"))];
            f.extend((0..c).map(|i| FOp::Op(legal_op(if i == at { (site + 1) % 4 } else { site }))));
            post(at_forms(site, "x", vec![f]))
        }));
        v.push(fault(move |c, at| {
            post(
                (0..c)
                    .flat_map(|i| {
                        let op = legal_op(if i == at { (site + 1) % 4 } else { site });
                        at_forms(site, &nm(i), vec![vec![FOp::Href(st("h")), FOp::Op(op)]])
                    })
                    .collect(),
            )
        }));
    }
    // A form of the Thing without operation
    v.push(fault(|c, at| {
        let forms = (0..c).map(|i| {
            let mut f = vec![FOp::Href(nm(i))];
            f.extend((i != at).then_some(FOp::Op(9)));
            f
        });
        post(at_forms(0, "x", forms.collect()))
    }));
    v
}

/// An undefined name in the list that `f` makes of names, the defined ones being declared by `def`.
fn name_faults(def: fn(&str) -> TOp, refer: fn(S) -> FOp) -> Vec<Fault> {
    let mut v = vec![];
    let name = |i: usize, at: usize| if i == at { format!("m{i}") } else { nm(i) };
    for site in 0..4u64 {
        v.push(fault(move |c, at| {
            let mut f = ok_form(site);
            f.extend((0..c).map(|i| refer(name(i, at))));
            let mut ops: Vec<TOp> = names(c).map(|n| def(&n)).collect();
            ops.push(form1(site, f));
            post(ops)
        }));
        v.push(fault(move |c, at| {
            let forms = (0..c).map(|i| {
                let mut f = ok_form(site);
                f.push(refer(name(i, at)));
                f
            });
            let mut ops = at_forms(site, "x", forms.collect());
            ops.extend(names(c).map(|n| def(&n)));
            post(ops)
        }));
        v.push(fault(move |c, at| {
            let mut ops: Vec<TOp> = names(c).map(|n| def(&n)).collect();
            ops.extend((0..c).flat_map(|i| {
                let mut f = ok_form(site);
                f.push(refer(name(i, at)));
                at_forms(site, &nm(i), vec![f])
            }));
            post(ops)
        }));
    }
    v
}

pub fn security_faults() -> Vec<Fault> {
    let mut v = name_faults(basic, FOp::Security);
    let name = |i: usize, at: usize| if i == at { format!("m{i}") } else { nm(i) };
    for all in [true, false] {
        v.push(fault(move |c, at| {
            let mut ops: Vec<TOp> = names(c).map(|n| basic(&n)).collect();
            let refs = (0..c).map(|i| name(i, at)).collect();
            ops.insert(c / 2, TOp::Security(vec![SecOp::Scheme(Scheme::Combo), if all { SecOp::AllOf(refs) } else { SecOp::OneOf(refs) }]));
            post(ops)
        }));
        v.push(fault(move |c, at| {
            let mut ops: Vec<TOp> = names(c).map(|n| basic(&n)).collect();
            ops.extend((0..c).map(|i| {
                let refs = vec![name(i, at), nm(0)];
                TOp::Security(vec![
                    SecOp::Key(format!("c{i}")),
                    SecOp::Scheme(Scheme::Combo),
                    if all { SecOp::AllOf(refs) } else { SecOp::OneOf(refs) },
                ])
            }));
            if at == 0 && c > 1 {
                ops.reverse();
            }
            post(ops)
        }));
    }
    v
}

pub fn response_faults() -> Vec<Fault> {
    name_faults(|n| TOp::SchemaDef(st(n), k(Ki::Bool)), |n| FOp::AddResp(vec![AR::Schema(n)]))
}

/// A name declared once more at the end.
pub fn duplicate_faults() -> Vec<Fault> {
    let mut v = vec![];
    for kind in 0..3u64 {
        v.push(fault(move |c, at| post(names(c).chain([nm(at)]).map(|n| affordance(kind, &n)).collect())));
        v.push(fault(move |c, at| {
            let mut ops: Vec<TOp> = names(c).map(|n| affordance(kind, &n)).collect();
            ops.insert(0, affordance(kind, &nm(at)));
            post(ops)
        }));
    }
    v
}

pub fn duplicate_security_faults() -> Vec<Fault> {
    vec![
        fault(|c, at| post(names(c).chain([nm(at)]).map(|n| basic(&n)).collect())),
        fault(|c, at| {
            let mut ops: Vec<TOp> = names(c).map(|n| basic(&n)).collect();
            ops.insert(0, TOp::Security(vec![SecOp::Scheme(Scheme::NoSec), SecOp::Key(nm(at)), SecOp::Required]));
            post(ops)
        }),
    ]
}

pub fn link_faults() -> Vec<Fault> {
    vec![
        fault(|c, at| {
            post(
                (0..c)
                    .map(|i| {
                        TOp::LinkWith(vec![
                            LOp::Href(nm(i)),
                            LOp::Rel(st(if i == at { "item" } else { "icon" })),
                            LOp::Sizes(st("1x1")),
                        ])
                    })
                    .collect(),
            )
        }),
        fault(|c, at| {
            post(
                (0..c)
                    .map(|i| {
                        let mut l = vec![LOp::Href(nm(i)), LOp::Rel(st("item"))];
                        l.extend((i == at).then_some(LOp::Sizes(st("1x1"))));
                        TOp::LinkWith(l)
                    })
                    .collect(),
            )
        }),
    ]
}

/// An ill-formed language tag in a list of them.
pub fn tag_faults(sites: u64, lang_at: fn(u64, Map) -> Prog) -> Vec<Fault> {
    let mut v = vec![];
    for site in 0..sites {
        v.push(fault(move |c, at| {
            let m = (0..c).map(|i| {
                let tag = if i == at { format!("en-{i}-") } else { format!("en-x-{i}") };
                (tag, nm(i))
            });
            lang_at(site, m.collect())
        }));
    }
    v.push(fault(|c, at| {
        let mut l = vec![LOp::Href(st("h"))];
        l.extend((0..c).map(|i| LOp::HrefLang(if i == at { st("en-") } else { st("en") })));
        post(vec![TOp::LinkWith(l)])
    }));
    v.push(fault(|c, at| {
        post(
            (0..c)
                .map(|i| TOp::LinkWith(vec![LOp::Href(nm(i)), LOp::HrefLang(st(if i == at { "e" } else { "en" }))]))
                .collect(),
        )
    }));
    v
}

// ---------------------------------------------------------------------------------------------

/// Declarations the forms below may refer to.
fn declared() -> Vec<TOp> {
    vec![basic("a"), basic("b"), TOp::SchemaDef(st("d"), k(Ki::Bool)), TOp::SchemaDef(st("e"), k(Ki::Object))]
}

/// The members (in addition to the target) of valid and faulty forms.
fn faults_of_forms(site: u64) -> Vec<Vec<FOp>> {
    let bad = legal_op((site + 1) % 4);
    let good = legal_op(site);
    let def = |s: &str| FOp::AddResp(vec![AR::Schema(st(s))]);
    let mut v = vec![
        vec![],
        vec![FOp::Op(good)],
        vec![FOp::Op(bad)],
        vec![FOp::Op(good), FOp::Op(bad)],
        vec![FOp::Op(bad), FOp::Op(good)],
    ];
    for o in [vec![], vec![FOp::Op(good)]] {
        for f in [
            vec![FOp::Security(st("u"))],
            vec![FOp::Security(st("a")), FOp::Security(st("u"))],
            vec![FOp::Security(st("u")), FOp::Security(st("a"))],
            vec![def("u")],
            vec![def("d"), def("u")],
            vec![def("u"), def("d")],
            vec![FOp::AddResp(vec![AR::Success]), def("u")],
            vec![FOp::AddResp(vec![AR::Success, AR::CType(st("x")), AR::Schema(st("u"))])],
        ] {
            v.push([o.clone(), f].concat());
        }
    }
    v
}

fn neighbours(site: u64) -> Vec<Vec<FOp>> {
    let op = FOp::Op(legal_op(site));
    let mut v = vec![vec![op.clone()], rich_form(site).into_iter().filter(|o| !matches!(o, FOp::Href(_))).collect()];
    if site != 0 {
        v.push(vec![]);
    }
    for more in [
        vec![FOp::Security(st("a"))],
        vec![FOp::Scope(st("s"))],
        vec![FOp::ResponseDefault(st("r"))],
        vec![FOp::AddResp(vec![AR::Schema(st("d"))])],
        vec![FOp::AddResp(vec![])],
        vec![FOp::Subproto(st("p")), FOp::CType(st("c"))],
    ] {
        if site != 0 {
            v.push(more.clone());
        }
        v.push([vec![op.clone()], more].concat());
    }
    v
}

fn with_target(mut f: Vec<FOp>, at: usize) -> Vec<FOp> {
    f.insert(at.min(f.len()), FOp::Href(st("h")));
    f
}

/// A form, valid or not, beside up to `n` other forms of every sort.
pub fn g_form_neighbours(n: u32) -> Gen<Prog> {
    let mut g: Option<Gen<Prog>> = None;
    for site in 0..4u64 {
        let s = of(faults_of_forms(site)).x(&of(neighbours(site)).upto(n)).x(&range(n as u64 + 1)).map(
            move |((f, others), at)| {
                let mut forms: Vec<_> = others.into_iter().map(|f| with_target(f, 0)).collect();
                forms.insert((at as usize).min(forms.len()), with_target(f, 0));
                let mut ops = rich_names();
                ops.extend(at_forms(site, "x", forms));
                post(ops)
            },
        );
        g = Some(match g {
            Some(g) => g.or(&s),
            None => s,
        });
    }
    g.unwrap()
}

/// The declarations, with those the rich forms refer to.
fn rich_names() -> Vec<TOp> {
    let mut v = declared();
    for o in rich_base() {
        let known = v.iter().any(|x| match (x, &o) {
            (TOp::SchemaDef(a, _), TOp::SchemaDef(b, _)) => a == b,
            (TOp::Security(a), TOp::Security(b)) => a.iter().any(|x| matches!(x, SecOp::Key(_)) && b.contains(x)),
            _ => false,
        });
        if !known {
            v.push(o);
        }
    }
    v
}

/// A form, valid or not, with every subset of the other members, given before or after.
pub fn g_form_decorated() -> Gen<Prog> {
    let more = vec![
        FOp::CType(st("c")),
        FOp::CCoding(st("g")),
        FOp::Subproto(st("p")),
        FOp::Scope(st("s")),
        FOp::Response(st("r"), 1, 2),
        FOp::AddResp(vec![AR::Success, AR::Schema(st("e"))]),
        FOp::Security(st("b")),
    ];
    let subsets: Vec<Vec<FOp>> = (0..1u32 << more.len())
        .map(|m| more.iter().enumerate().filter(|(i, _)| m >> i & 1 != 0).map(|(_, o)| o.clone()).collect())
        .collect();
    of((0..4u64).flat_map(|s| faults_of_forms(s).into_iter().map(move |f| (s, f))).collect::<Vec<_>>())
        .x(&of(subsets))
        .x(&range(4))
        .map(|(((site, f), more), how)| {
            let f = if how & 1 == 0 { [f, more].concat() } else { [more, f].concat() };
            let n = f.len();
            let f = with_target(f, if how & 2 == 0 { 0 } else { n });
            let mut ops = declared();
            ops.push(form1(site, f));
            post(ops)
        })
}

/// A schema, valid or not, with every subset of the members all kinds have.
pub fn g_schema_decorated(schemas: Vec<Schema>, sites: Vec<u64>) -> Gen<Prog> {
    use SOp::*;
    let more = vec![
        I(IOp::AType(st("T"))),
        I(IOp::Title(st("t"))),
        I(IOp::Titles(mp(&[("en", "x")]))),
        I(IOp::Desc(st("d"))),
        Unit(st("u")),
        Format(st("f")),
        Default(json!([])),
    ];
    let subsets: Vec<Vec<SOp>> = (0..1u32 << more.len())
        .map(|m| more.iter().enumerate().filter(|(i, _)| m >> i & 1 != 0).map(|(_, o)| o.clone()).collect())
        .collect();
    of(schemas).x(&of(subsets)).x(&of(sites)).map(|((s, more), site)| {
        let mut s = s;
        let at = s.iter().position(|o| *o == Finish).map_or(0, |i| i + 1);
        for (i, o) in more.into_iter().enumerate() {
            s.insert(at + i, o);
        }
        post(vec![at_schema(site, "x", s)])
    })
}
