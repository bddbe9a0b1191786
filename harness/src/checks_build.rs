//! Checks of the builder: what is accepted, what is rejected, what the result holds.

use serde_json::json;

use crate::{
    alpha::*,
    atoms::*,
    alpha_faults::*,
    engine::{Check, Space},
    gen::*,
    judge::{build, build_converted, build_ext, build_twice},
    prog::{Kind as Ki, *},
};

const ASSUME: &[&str] = &[
    "programs are well-typed call sequences (ill-typed ones do not compile)",
    "each program runs single-threaded; the builder holds no shared state",
];

fn space(name: &str, g: Gen<Prog>) -> Space {
    Space::new(name, g, build)
}

/// Every place of `places` with every value of `values`.
pub fn places<T: Clone + Send + Sync + 'static>(places: Vec<Place<T>>, values: Vec<T>) -> Gen<Prog> {
    of(places).x(&of(values)).map(|(p, v)| p(v))
}

pub fn widths(th: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if th { 70 } else { 20 }).collect();
    v.extend([31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000, 1025]);
    if th {
        v.extend([127, 128, 129, 300, 511, 512, 513, 1023, 1024]);
    }
    v
}

pub fn wide(places: Vec<Place<usize>>, th: bool) -> Gen<Prog> {
    of(places).x(&of(widths(th))).map(|(p, v)| p(v))
}

/// Operations that need the extension phase of the thing to be over.
fn late(o: &TOp) -> bool {
    matches!(
        o,
        TOp::Form(_) | TOp::UriVar(..) | TOp::Property(..) | TOp::Action(..) | TOp::Event(..) | TOp::SchemaDef(..)
    )
}

/// Declarations of every sort that do not interfere with others.
fn environment() -> Vec<TOp> {
    vec![
        TOp::Link(st("env l")),
        basic("env s"),
        form1(0, ok_form(0)),
        TOp::SchemaDef(st("env d"), k(Ki::Integer)),
        TOp::UriVar(st("env u"), k(Ki::Str)),
        affordance(0, "env p"),
        affordance(1, "env a"),
        affordance(2, "env e"),
    ]
}

/// The same operations with the extension phase ending early or late, alone or among others.
pub fn surrounded(g: &Gen<Prog>) -> Gen<Prog> {
    g.x(&range(5)).map(|(mut p, how)| {
        let known = p.ops.len();
        p.ops.retain(|o| *o != TOp::Finish);
        let had = p.ops.len() < known;
        let first = p.ops.iter().position(late).unwrap_or(p.ops.len());
        match how {
            0 if !had => {}
            0 | 1 => p.ops.insert(first, TOp::Finish),
            2 => p.ops.insert(0, TOp::Finish),
            3 => {
                p.ops.insert(first, TOp::Finish);
                p.ops.extend(environment());
            }
            _ => {
                let mut ops = environment();
                ops.insert(0, TOp::Finish);
                ops.append(&mut p.ops);
                p.ops = ops;
            }
        }
        p
    })
}

/// The sequences of declarations, with the builder finishing its extension phase before or in the
/// middle of the operations that allow both.
fn sequences(alphabet: Vec<TOp>, n: u32) -> Gen<Prog> {
    of(alphabet).upto(n).map(|v| {
        // Half of the programs finish as late as they can
        let first = v.iter().position(late).unwrap_or(v.len());
        let at = if v.len() % 2 == 0 { 0 } else { first };
        let mut ops = v;
        ops.insert(at, TOp::Finish);
        prog(ops)
    })
}

// ---------------------------------------------------------------------------------------------
// S01

fn combo(key: Option<&str>, all: bool, refs: &[&str]) -> TOp {
    let mut v = vec![SecOp::Scheme(Scheme::Combo)];
    if let Some(k) = key {
        v.push(SecOp::Name(st(k)));
    }
    v.push(if all { SecOp::AllOf(sv(refs)) } else { SecOp::OneOf(sv(refs)) });
    TOp::Security(v)
}

fn sec_form(site: u64, refs: &[&str]) -> TOp {
    let mut f = ok_form(site);
    f.extend(refs.iter().map(|r| FOp::Security(st(r))));
    TOp::clone(&form1(site, f))
}

/// A form at an affordance named after its reference, so that several can be declared.
fn named_sec_form(site: u64, refs: &[&str], name: &str) -> TOp {
    let mut f = ok_form(site);
    f.extend(refs.iter().map(|r| FOp::Security(st(r))));
    at_forms(site, name, vec![f]).remove(0)
}

pub fn g_security_refs(th: bool) -> Gen<Prog> {
    let mut a = vec![
        basic("a"),
        TOp::Security(vec![SecOp::Key(st("b")), SecOp::Required, SecOp::Scheme(Scheme::ApiKey)]),
        TOp::Security(vec![SecOp::Scheme(Scheme::NoSec), SecOp::Required]),
        TOp::Security(vec![SecOp::Scheme(Scheme::Custom(st("x:y")))]),
        combo(None, true, &["a", "b"]),
        combo(Some("c"), false, &["b"]),
        combo(Some("d"), false, &["d"]),
        combo(Some("e"), true, &["combo", "nosec"]),
        combo(Some("f"), true, &[]),
    ];
    for (site, r) in [(0, "a"), (0, "nosec"), (1, "a"), (1, "x:y"), (2, "a"), (2, "b"), (3, "a"), (3, "c")] {
        a.push(named_sec_form(site, &[r], &format!("{site}{r}")));
    }
    a.push(named_sec_form(0, &["b", "a"], "m"));
    a.push(named_sec_form(1, &["a", "b"], "m"));
    a.push(named_sec_form(2, &["c", "combo"], "m"));
    a.push(named_sec_form(3, &["A"], "m"));
    sequences(a, if th { 5 } else { 4 })
}

/// One reference, at one place among correct ones.
fn g_ref_positions() -> Gen<Prog> {
    let names = sv(&["", "a", "A", "b", "a ", "ab", "basic", "nosec", "x", "é"]);
    // (sites before, site, forms before / after in the same place, references before / after, name)
    range(4)
        .x(&range(3))
        .x(&range(3))
        .x(&range(3))
        .x(&range(3))
        .x(&range(3))
        .x(&of(names))
        .map(|((((((site, others), fb), fa), rb), ra), name)| {
            let mut ops = vec![basic("a"), TOp::Security(vec![SecOp::Scheme(Scheme::Basic)]), basic("b")];
            let good = |n: u64| {
                let mut f = ok_form(site);
                for i in 0..n {
                    f.push(FOp::Security(st(["a", "basic"][i as usize % 2])));
                }
                f
            };
            let mut forms: Vec<_> = (0..fb).map(good).collect();
            let mut f = good(rb);
            f.push(FOp::Security(name));
            f.extend((0..ra).map(|_| FOp::Security(st("b"))));
            forms.push(f);
            forms.extend((0..fa).map(good));
            // Affordances whose names sort before and after.
            if others > 0 {
                ops.extend(at_forms((site + 1) % 4, "aa", vec![ok_form((site + 1) % 4)]));
                if site != 0 {
                    ops.extend(at_forms(site, "aa", vec![good(1)]));
                }
            }
            ops.extend(at_forms(site, "mm", forms));
            if others > 1 {
                ops.extend(at_forms((site + 2) % 4, "zz", vec![ok_form((site + 2) % 4)]));
                if site != 0 {
                    ops.extend(at_forms(site, "zz", vec![good(2)]));
                }
            }
            post(ops)
        })
}

/// Combinations: every list of up to `n` references, built in every way, declared first or last.
fn g_combos(n: u32) -> Gen<Prog> {
    of(sv(&["a", "b", "combo", "u", "A"]))
        .upto(n)
        .x(&range(4))
        .x(&range(3))
        .x(&range(2))
        .map(|(((refs, how), place), all)| {
            let cut = match how {
                0 => refs.len(),
                1 => 0,
                2 => refs.len() / 2,
                _ => refs.len().min(1),
            };
            let head = refs[..cut].to_vec();
            let mut v = vec![SecOp::Scheme(Scheme::Combo)];
            v.push(if all == 0 { SecOp::AllOf(head) } else { SecOp::OneOf(head) });
            if how % 2 == 1 {
                v.extend(refs[cut..].iter().cloned().map(SecOp::Push));
            } else if cut < refs.len() {
                v.push(SecOp::Extend(refs[cut..].to_vec()));
            }
            let mut ops = vec![basic("a"), basic("b")];
            ops.insert(place as usize, TOp::Security(v));
            prog(ops)
        })
}

pub fn s01(th: bool) -> Check {
    Check {
        id: "S01",
        spaces: vec![
            space("declaration sequences", g_security_refs(th)),
            space("one reference among others", g_ref_positions()),
            space("combinations", g_combos(if th { 6 } else { 4 })),
            space("words close to the vocabulary", surrounded(&places(sec_strings(), near_vocabulary())).or(&surrounded(&places(form_strings(), near_vocabulary())))),
            space("odd names", surrounded(&places(sec_strings(), odd_strings())).or(&surrounded(&places(form_strings(), odd_strings())))),
            space(
                "odd undefined names",
                of(odd_strings()).x(&range(6)).map(|(s, i)| {
                    let mut ops = vec![basic("defined name")];
                    match i {
                        0..=3 => ops.push(form1(i, {
                            let mut f = ok_form(i);
                            f.push(FOp::Security(s));
                            f
                        })),
                        4 => ops.push(TOp::Security(vec![SecOp::Scheme(Scheme::Combo), SecOp::AllOf(vec![s])])),
                        _ => ops.push(TOp::Security(vec![
                            SecOp::Scheme(Scheme::Combo),
                            SecOp::OneOf(sv(&["defined name"])),
                            SecOp::Push(s),
                        ])),
                    }
                    post(ops)
                }),
            ),
            // Names close to a defined one
            space(
                "near misses",
                of(near("token"))
                    .x(&range(6))
                    .map(|(s, i)| {
                        let mut ops = vec![basic("token"), basic("other")];
                        match i {
                            0..=3 => ops.push(sec_form(i, &["token", &s])),
                            4 => ops.push(combo(None, true, &["other", &s])),
                            _ => ops.push(combo(Some("k"), false, &[&s, "other"])),
                        }
                        post(ops)
                    }),
            ),
            space("similar names", places(sec_miss_pairs(), similar_pairs(true))),
            space("two members anywhere", g_member_pairs(th)),
            space("texts of any member", g_member_texts(odd_texts())),
            space("any members of a part", g_part_subsets(th)),
            space("three members anywhere", g_member_triples(th)),
            space("a fault beside any member", g_fault_beside("S01", false)),
            space("a fault beside any two members", g_fault_beside("S01", true)),
            space("faults anywhere", anywhere(security_faults(), th)),
            space("neighbouring forms", g_form_neighbours(if th { 2 } else { 1 })),
            space("forms with other members", g_form_decorated()),
            space("long lists", wide(sec_wide(), th).or(&wide(form_wide(), th))),
            Space::new(
                "declaration sequences, extended things",
                g_security_refs(false).map(|p| extify(&p, &mut Payload::new(3, 5, 1))),
                build_ext,
            ),
        ],
        assumptions: ASSUME.to_vec(),
        bounds: "declaration sequences of length <= 4 (thorough 5) over 21 declarations; combinations of <= 4 (6) references; <= 3 forms x <= 5 references x 4 sites; lists up to 1025",
    }
}

/// Strings at edit distance one of `s`, `s` included.
fn near(s: &str) -> Vec<S> {
    let mut v = vec![st(s), s.to_uppercase()];
    for i in 0..s.len() {
        let mut t = st(s);
        t.remove(i);
        v.push(t);
        for c in ["x", " ", "T"] {
            let mut t = st(s);
            t.insert_str(i, c);
            v.push(t.clone());
            let mut t = st(s);
            t.replace_range(i..=i, c);
            v.push(t);
        }
    }
    for c in ["x", " ", "n", "\u{0}", "1"] {
        v.push(format!("{s}{c}"));
    }
    v
}

// ---------------------------------------------------------------------------------------------
// S02

fn sec_common() -> Vec<SecOp> {
    vec![
        SecOp::AType(st("T1")),
        SecOp::AType(st("T2")),
        SecOp::Desc(st("d1")),
        SecOp::Desc(st("d2")),
        SecOp::Descs(mp(&[("en", "x"), ("fr", "y")])),
        SecOp::Proxy(st("p1")),
        SecOp::Key(st("k1")),
        SecOp::Key(st("basic")),
        SecOp::Required,
    ]
}

fn schemes() -> Vec<(Scheme, Vec<SecOp>)> {
    use SecOp::*;
    let nl = || vec![Name(st("n1")), Name(st("n2")), Location(0), Location(1), Location(2), Location(3), Location(4)];
    let with = |mut a: Vec<SecOp>, b: Vec<SecOp>| {
        a.extend(b);
        a
    };
    vec![
        (self::Scheme::NoSec, vec![]),
        (self::Scheme::Auto, vec![]),
        (self::Scheme::Psk, vec![]),
        (self::Scheme::Basic, nl()),
        (self::Scheme::ApiKey, nl()),
        (self::Scheme::Digest, with(nl(), vec![Qop(0), Qop(1)])),
        (
            self::Scheme::Bearer,
            with(
                nl(),
                vec![
                    Authorization(st("a1")),
                    Authorization(st("a2")),
                    Alg(st("l1")),
                    Alg(st("l2")),
                    Format(st("f1")),
                    Format(st("f2")),
                ],
            ),
        ),
        (
            self::Scheme::OAuth2(st("code")),
            vec![
                Authorization(st("a1")),
                Authorization(st("a2")),
                Token(st("t1")),
                Token(st("t2")),
                Refresh(st("r1")),
                Refresh(st("r2")),
                Scope(st("s1")),
                Scope(st("s2")),
            ],
        ),
        (
            self::Scheme::Custom(st("x:y")),
            vec![Data(json!({"a": 1})), Data(json!({})), Data(json!({"b": [null, {"c": "d"}]}))],
        ),
    ]
}

/// One declaration: setters before and after the choice of the scheme.
pub fn g_scheme_setters(before: u32, after: u32) -> Gen<Vec<SecOp>> {
    let mut g: Option<Gen<Vec<SecOp>>> = None;
    for (s, like) in schemes() {
        let mut a = sec_common();
        a.extend(like);
        let h = of(sec_common())
            .upto(before)
            .x(&of(a).upto(after))
            .map(move |(mut b, a)| {
                b.push(SecOp::Scheme(s.clone()));
                b.extend(a);
                b
            });
        g = Some(match g {
            None => h,
            Some(g) => g.or(&h),
        });
    }
    // Combinations: the name may come before or after the list.
    let mut mid = sec_common();
    mid.push(SecOp::Name(st("m1")));
    let mut end = mid.clone();
    end.extend([SecOp::Name(st("m2")), SecOp::Push(st("z")), SecOp::Extend(sv(&["z", "z2"])), SecOp::Extend(vec![])]);
    let lists = of(vec![
        SecOp::AllOf(vec![]),
        SecOp::AllOf(sv(&["z"])),
        SecOp::AllOf(sv(&["z", "z2"])),
        SecOp::OneOf(vec![]),
        SecOp::OneOf(sv(&["z2", "z"])),
        SecOp::OneOf(sv(&["z"])),
    ]);
    let h = of(sec_common())
        .upto(1)
        .x(&of(mid).upto(1))
        .x(&lists)
        .x(&of(end).upto(after.min(3)))
        .map(|(((b, m), l), e)| {
            let mut v = b;
            v.push(SecOp::Scheme(Scheme::Combo));
            v.extend(m);
            v.push(l);
            v.extend(e);
            v
        });
    g.unwrap().or(&h)
}

fn with_refs(s: Vec<SecOp>) -> Prog {
    let mut ops = vec![TOp::Security(s)];
    if matches!(&ops[0], TOp::Security(s) if s.contains(&SecOp::Scheme(Scheme::Combo))) {
        ops.insert(0, basic("z"));
        ops.push(basic("z2"));
    }
    prog(ops)
}

pub fn g_sec_setters(th: bool) -> Gen<Prog> {
    g_scheme_setters(1, if th { 3 } else { 2 })
        .or(&g_scheme_setters(if th { 3 } else { 2 }, 1))
        .map(with_refs)
}

pub fn s02(th: bool) -> Check {
    let mut decls: Vec<TOp> = sec_ops().into_iter().map(TOp::Security).collect();
    for k in ["nosec", "a", "basic", "Basic", ""] {
        decls.push(basic(k));
    }
    decls.push(TOp::Security(vec![SecOp::Scheme(Scheme::NoSec), SecOp::Required]));
    decls.push(TOp::Security(vec![SecOp::Scheme(Scheme::NoSec)]));
    decls.push(TOp::Security(vec![SecOp::Scheme(Scheme::Custom(st("a")))]));
    decls.push(TOp::AType(st("x")));
    decls.push(form1(0, ok_form(0)));
    Check {
        id: "S02",
        spaces: vec![
            space("setters", g_sec_setters(th)),
            space("declaration sequences", sequences(decls.clone(), if th { 4 } else { 3 })),
            space("words close to the vocabulary", surrounded(&places(sec_strings(), near_vocabulary()))),
            space("odd strings", surrounded(&places(sec_strings(), odd_strings()))),
            space(
                "odd data",
                of(odd_values()).map(|v| {
                    prog(vec![
                        TOp::Security(vec![SecOp::Scheme(Scheme::Custom(st("x:y"))), SecOp::Data(v)]),
                        basic("a"),
                    ])
                }),
            ),
            // The same name declared twice, in all pairs of schemes and with others between.
            space(
                "repeated names",
                of(schemes()).x(&of(schemes())).x(&range(4)).x(&range(4)).map(|(((a, b), gap), req)| {
                    let d = |s: Scheme, r: bool| {
                        let mut v = vec![SecOp::Key(st("same")), SecOp::Scheme(s)];
                        if r {
                            v.push(SecOp::Required);
                        }
                        TOp::Security(v)
                    };
                    let mut ops = vec![d(a.0, req & 1 != 0)];
                    ops.extend((0..gap).map(|i| basic(&format!("g{i}"))));
                    ops.push(d(b.0, req & 2 != 0));
                    prog(ops)
                }),
            ),
            space("similar strings", places(sec_pairs(), similar_pairs(true))),
            space("two members anywhere", g_member_pairs(th)),
            space("texts of any member", g_member_texts(odd_texts())),
            space("any members of a part", g_part_subsets(th)),
            space("a fault beside any member", g_fault_beside("S02", false)),
            space("a fault beside any two members", g_fault_beside("S02", true)),
            space("repeated anywhere", anywhere(duplicate_security_faults(), th)),
            space("long lists", wide(sec_wide(), th)),
            Space::new(
                "setters, extended things",
                g_scheme_setters(1, 1)
                    .map(with_refs)
                    .map(|p| extify(&p, &mut Payload::new(1, 3, 0))),
                build_ext,
            ),
        ],
        assumptions: ASSUME.to_vec(),
        bounds: "10 schemes; setter sequences <= 3 per declaration (thorough 4) over 9 common and up to 13 scheme setters; <= 3 (4) declarations of 29; lists up to 1025",
    }
}

// ---------------------------------------------------------------------------------------------
// F01 / F02

/// Operation lists at one form of a site, among other forms.
pub fn g_form_ops(n: u32) -> Gen<Prog> {
    of((0..18u8).collect::<Vec<_>>())
        .upto(n)
        .x(&range(4))
        .x(&range(2))
        .map(|((ops, site), early)| {
            let mut f: Vec<FOp> = ops.into_iter().map(FOp::Op).collect();
            let at = if early == 0 { 0 } else { f.len() };
            f.insert(at, FOp::Href(st("h")));
            post(vec![form1(site, f)])
        })
}

fn g_op_positions() -> Gen<Prog> {
    range(18)
        .x(&range(4))
        .x(&range(3))
        .x(&range(3))
        .x(&range(3))
        .x(&range(2))
        .map(|(((((op, site), fb), fa), ob), others)| {
            let good = || ok_form(site);
            let mut forms: Vec<_> = (0..fb).map(|_| good()).collect();
            let mut f = vec![FOp::Href(st("h"))];
            f.extend((0..ob).map(|_| FOp::Op(legal_op(site))));
            f.push(FOp::Op(op as u8));
            forms.push(f);
            forms.extend((0..fa).map(|_| good()));
            let mut ops = vec![];
            if others > 0 {
                for s in 0..4 {
                    if s != site || s != 0 {
                        ops.extend(at_forms(s, "aa", vec![ok_form(s), ok_form(s)]));
                    }
                }
            }
            ops.extend(at_forms(site, "mm", forms));
            if others > 0 {
                for s in 0..4 {
                    if s != site || s != 0 {
                        ops.extend(at_forms(s, "zz", vec![ok_form(s)]));
                    }
                }
            }
            post(ops)
        })
}

/// Forms without operations, with operations, at several sites.
fn g_form_sequences(n: u32) -> Gen<Prog> {
    let mut a = vec![];
    for site in 0..4u64 {
        for (i, op) in [None, Some(legal_op(site)), Some(legal_op((site + 1) % 4))].into_iter().enumerate() {
            let mut f = vec![FOp::Href(st("h"))];
            f.extend(op.map(FOp::Op));
            a.push((site, i, f));
        }
    }
    of(a).upto(n).map(|v| {
        post(
            v.into_iter()
                .enumerate()
                .flat_map(|(i, (site, _, f))| at_forms(site, &format!("x{i}"), vec![f]))
                .collect(),
        )
    })
}

pub fn f01(th: bool) -> Check {
    Check {
        id: "F01",
        spaces: vec![
            space("operation lists", g_form_ops(if th { 4 } else { 3 })),
            space("one operation among others", g_op_positions()),
            space("form sequences", g_form_sequences(if th { 6 } else { 5 })),
            space("two members anywhere", g_member_pairs(th)),
            space("a fault beside any member", g_fault_beside("F01", false)),
            space("a fault beside any two members", g_fault_beside("F01", true)),
            space("faults anywhere", anywhere(op_faults(), th)),
            space("neighbouring forms", g_form_neighbours(if th { 2 } else { 1 })),
            space("forms with other members", g_form_decorated()),
            space("long lists", wide(form_wide(), th)),
            // One form holding operations of a rich form and one more
            space(
                "rich forms",
                range(4).x(&range(18)).x(&range(14)).map(|((site, op), at)| {
                    let mut f = rich_form(site);
                    f.insert((at as usize).min(f.len()), FOp::Op(op as u8));
                    let mut ops = rich_base();
                    ops.push(form1(site, f));
                    post(ops)
                }),
            ),
            space(
                "property kinds",
                range(18).x(&of(rich_leaves())).map(|(op, s)| {
                    let mut s = as_property(&s);
                    s.push(SOp::Form(vec![FOp::Op(op as u8), FOp::Href(st("h"))]));
                    post(vec![TOp::Property(st("p"), s)])
                }),
            ),
            Space::new(
                "operation lists, extended things",
                g_form_ops(2).x(&range(3)).map(|(p, o)| extify(&p, &mut Payload::new(1, 3, o as usize))),
                build_ext,
            ),
        ],
        assumptions: ASSUME.to_vec(),
        bounds: "all lists of <= 3 (thorough 4) of the 18 operations x 4 sites; <= 5 (6) forms; <= 5 forms x <= 3 operations in the same place; lists up to 1025",
    }
}

pub fn form_alphabet() -> Vec<FOp> {
    vec![
        FOp::CType(st("c1")),
        FOp::CType(st("c2")),
        FOp::CCoding(st("g1")),
        FOp::CCoding(st("g2")),
        FOp::Subproto(st("p1")),
        FOp::Subproto(st("p2")),
        FOp::Security(st("a")),
        FOp::Security(st("b")),
        FOp::Scope(st("s1")),
        FOp::Scope(st("s2")),
        FOp::Response(st("r1"), 1, 2),
        FOp::ResponseDefault(st("r2")),
        FOp::AddResp(vec![]),
        FOp::AddResp(vec![AR::Success, AR::CType(st("x")), AR::Schema(st("d"))]),
        FOp::AddResp(vec![AR::CType(st("x")), AR::CType(st("y"))]),
    ]
}

pub fn g_form_setters(n: u32) -> Gen<Prog> {
    of(form_alphabet()).upto(n).x(&range(4)).x(&range(3)).map(|((ops, site), at)| {
        let mut f = ops;
        let n = f.len();
        f.insert([0, n / 2, n][at as usize], FOp::Href(st("h")));
        f.push(FOp::Op(legal_op(site)));
        let mut ops = vec![basic("a"), TOp::SchemaDef(st("d"), k(Ki::Bool)), basic("b")];
        ops.push(form1(site, f));
        post(ops)
    })
}

fn g_addresp(n: u32) -> Gen<Prog> {
    of(vec![AR::Success, AR::CType(st("x")), AR::CType(st("y")), AR::Schema(st("d")), AR::Schema(st("e"))])
        .upto(n)
        .upto(2)
        .x(&range(4))
        .map(|(rs, site)| {
            let mut f = ok_form(site);
            f.extend(rs.into_iter().map(FOp::AddResp));
            post(vec![
                TOp::SchemaDef(st("d"), k(Ki::Bool)),
                TOp::SchemaDef(st("e"), k(Ki::Null)),
                form1(site, f),
            ])
        })
}

/// Several different forms in one place: their order and contents.
fn g_form_lists(n: u32) -> Gen<Prog> {
    range(6).upto(n).x(&range(4)).map(|(v, site)| {
        let forms = v
            .into_iter()
            .map(|i| match i {
                0 => ok_form(site),
                1 => rich_form(site),
                2 => vec![FOp::Href(st("x")), FOp::Op(legal_op(site)), FOp::CType(st("c"))],
                3 => vec![FOp::Scope(st("c")), FOp::Href(st("x")), FOp::Op(legal_op(site))],
                4 => vec![FOp::Href(st("")), FOp::Op(legal_op(site)), FOp::Op(legal_op(site))],
                _ => vec![FOp::Subproto(st("x")), FOp::Href(st("y")), FOp::Op(legal_op(site))],
            })
            .collect();
        let mut ops = rich_base();
        ops.extend(at_forms(site, "x", forms));
        post(ops)
    })
}

pub fn f02(th: bool) -> Check {
    Check {
        id: "F02",
        spaces: vec![
            space("setters", g_form_setters(if th { 5 } else { 4 })),
            space("operation lists", g_form_ops(3)),
            space("additional responses", g_addresp(if th { 4 } else { 3 })),
            space("form lists", g_form_lists(if th { 6 } else { 5 })),
            space("words close to the vocabulary", surrounded(&places(form_strings(), near_vocabulary()))),
            space("similar strings", places(form_pairs(), similar_pairs(true))),
            space("two members anywhere", g_member_pairs(th)),
            space("texts of any member", g_member_texts(odd_texts())),
            space("any members of a part", g_part_subsets(th)),
            space("three members anywhere", g_member_triples(th)),
            space("odd strings", surrounded(&places(form_strings(), odd_strings()))),
            space("long lists", wide(form_wide(), th)),
            Space::new(
                "setters, extended things",
                g_form_setters(3).map(|p| extify(&p, &mut Payload::new(2, 5, p.ops.len() + p.calls() as usize))),
                build_ext,
            ),
        ],
        assumptions: ASSUME.to_vec(),
        bounds: "setter sequences <= 4 (thorough 5) over 15 setters x 3 positions of the target x 4 sites; <= 5 (6) forms per place; lists up to 1025",
    }
}

// ---------------------------------------------------------------------------------------------
// A01

fn g_affordance_sequences(n: u32) -> Gen<Prog> {
    let mut a = vec![];
    for kind in 0..3 {
        for name in ["a", "b", "A", ""] {
            a.push(affordance(kind, name));
        }
    }
    sequences(a, n)
}

/// Contents: each affordance with one of several contents.
fn g_affordance_contents(n: u32) -> Gen<Prog> {
    let a = affordance_bodies();
    of(a).upto(n).map(|v| {
        let mut ops = rich_base();
        for (i, o) in v.into_iter().enumerate() {
            let name = format!("{}", ["m", "z", "a", "k"][i % 4]);
            ops.push(match o {
                TOp::Property(_, s) => TOp::Property(name, s),
                TOp::Action(_, s) => TOp::Action(name, s),
                TOp::Event(_, s) => TOp::Event(name, s),
                o => o,
            });
        }
        post(ops)
    })
}

pub fn affordance_bodies() -> Vec<TOp> {
    rich_ops()
        .into_iter()
        .filter(|o| matches!(o, TOp::Property(..) | TOp::Action(..) | TOp::Event(..)))
        .chain((0..3).map(|i| affordance(i, "x")))
        .collect()
}

pub fn action_alphabet() -> Vec<AOp> {
    let mut a: Vec<AOp> = info_ops().into_iter().map(AOp::I).collect();
    a.extend([
        AOp::Input(k(Ki::Bool)),
        AOp::Input(k(Ki::Object)),
        AOp::Output(k(Ki::Null)),
        AOp::Output(kw(Ki::Integer, &[SOp::IMin(1)])),
        AOp::Safe,
        AOp::Idem,
        AOp::Sync(true),
        AOp::Sync(false),
        AOp::Form(vec![FOp::Href(st("h"))]),
        AOp::Form(ok_form(2)),
        AOp::UriVar(st("u"), k(Ki::Bool)),
        AOp::UriVar(st("u"), k(Ki::Str)),
        AOp::UriVar(st("v"), k(Ki::Str)),
    ]);
    a
}

pub fn event_alphabet() -> Vec<EOp> {
    let mut a: Vec<EOp> = info_ops().into_iter().map(EOp::I).collect();
    a.extend([
        EOp::Subscription(k(Ki::Bool)),
        EOp::Subscription(k(Ki::Object)),
        EOp::Data(k(Ki::Null)),
        EOp::Data(kw(Ki::Integer, &[SOp::IMin(1)])),
        EOp::Cancellation(k(Ki::Bool)),
        EOp::Cancellation(k(Ki::Vec)),
        EOp::DataResponse(k(Ki::Str)),
        EOp::DataResponse(k(Ki::Number)),
        EOp::Form(vec![FOp::Href(st("h"))]),
        EOp::Form(ok_form(3)),
        EOp::UriVar(st("u"), k(Ki::Bool)),
        EOp::UriVar(st("u"), k(Ki::Str)),
        EOp::UriVar(st("v"), k(Ki::Str)),
    ]);
    a
}

pub fn property_alphabet() -> Vec<SOp> {
    let mut a: Vec<SOp> = info_ops().into_iter().map(SOp::I).collect();
    a.extend([
        SOp::Observable(true),
        SOp::Observable(false),
        SOp::Form(vec![FOp::Href(st("h"))]),
        SOp::Form(ok_form(1)),
        SOp::UriVar(st("u"), k(Ki::Bool)),
        SOp::UriVar(st("u"), k(Ki::Str)),
        SOp::UriVar(st("v"), k(Ki::Str)),
        SOp::Unit(st("u")),
        SOp::Format(st("f")),
        SOp::Default(json!(1)),
    ]);
    a
}

pub fn g_affordance_setters(n: u32) -> Gen<Prog> {
    let actions = of(action_alphabet()).upto(n).map(|v| post(vec![TOp::Action(st("x"), v)]));
    let events = of(event_alphabet()).upto(n).map(|v| post(vec![TOp::Event(st("x"), v)]));
    // The schema's kind is chosen at each position, and access may be restricted at the end.
    let props = of(property_alphabet())
        .upto(n)
        .x(&range(6))
        .map(|(mut v, i)| {
            let n = v.len();
            match i {
                0 => v.splice(0..0, vec![SOp::Finish, SOp::Kind(Ki::Integer)]),
                1 => v.splice(n / 2..n / 2, vec![SOp::Finish, SOp::Kind(Ki::Object)]),
                2 => v.splice(n..n, vec![SOp::Finish, SOp::Kind(Ki::Bool), SOp::ReadOnly]),
                3 => v.splice(n / 2..n / 2, vec![SOp::Finish, SOp::Kind(Ki::Vec), SOp::WriteOnly]),
                4 => v.splice(n / 2..n / 2, vec![SOp::Finish, SOp::Enum(json!(1))]),
                _ => v.splice(n / 2..n / 2, vec![SOp::Finish, SOp::OneOf(k(Ki::Null))]),
            };
            post(vec![TOp::Property(st("x"), v)])
        });
    actions.or(&events).or(&props)
}

pub fn a01(th: bool) -> Check {
    Check {
        id: "A01",
        spaces: vec![
            space("names", g_affordance_sequences(if th { 6 } else { 5 })),
            space("contents", g_affordance_contents(4)),
            space("setters", g_affordance_setters(if th { 4 } else { 3 })),
            space("stages of properties", g_property_setters(1, 1, 1)),
            space("late setters of properties", g_property_setters(0, 1, 2)),
            space("early setters of properties", g_property_setters(2, 0, 0).or(&g_property_setters(0, 2, 0))),
            space("words close to the vocabulary", surrounded(&places(name_strings(), near_vocabulary()))),
            space("odd names", surrounded(&places(name_strings(), odd_strings()))),
            space(
                "near misses",
                of(near("state")).x(&range(9)).map(|(s, i)| post(vec![affordance(i / 3, "state"), affordance(i % 3, &s)])),
            ),
            space("similar names", places(name_pairs(), similar_pairs(true))),
            space("two members anywhere", g_member_pairs(th)),
            space("texts of any member", g_member_texts(odd_texts())),
            space("any members of a part", g_part_subsets(th)),
            space("three members anywhere", g_member_triples(th)),
            space("a fault beside any member", g_fault_beside("A01", false)),
            space("a fault beside any two members", g_fault_beside("A01", true)),
            space("repeated anywhere", anywhere(duplicate_faults(), th)),
            space("long lists", wide(name_wide(), th)),
            // A repeated name whose two declarations are different / equal
            space(
                "repeated names",
                of(affordance_bodies()).x(&of(affordance_bodies())).x(&range(3)).map(|((a, b), gap)| {
                    let ren = |o, n: &str| match o {
                        TOp::Property(_, s) => TOp::Property(st(n), s),
                        TOp::Action(_, s) => TOp::Action(st(n), s),
                        TOp::Event(_, s) => TOp::Event(st(n), s),
                        o => o,
                    };
                    let mut ops = rich_base();
                    ops.push(ren(a, "same"));
                    for g in 0..gap {
                        for kind in 0..3 {
                            ops.push(affordance(kind, &format!("g{g}")));
                        }
                    }
                    ops.push(ren(b, "same"));
                    post(ops)
                }),
            ),
            Space::new(
                "properties converted first",
                g_affordance_contents(2)
                    .or(&g_property_setters(1, 0, 1))
                    .or(&g_property_setters(0, 1, 1))
                    .or(&g_property_setters(0, 0, 2)),
                build_converted,
            ),
            Space::new(
                "names and contents, extended things",
                g_affordance_sequences(4)
                    .or(&g_affordance_contents(2))
                    .or(&g_affordance_setters(2))
                    .or(&g_property_setters(1, 0, 1))
                    .or(&g_property_setters(0, 1, 1))
                    .map(|p| extify(&p, &mut Payload::new(1, 3, p.calls() as usize))),
                build_ext,
            ),
        ],
        assumptions: ASSUME.to_vec(),
        bounds: "declaration sequences <= 5 (thorough 6) over 3 kinds x 4 names; <= 4 affordances of 16 contents; setter sequences <= 3 (4) over 19-22 setters per kind; lists up to 1025",
    }
}

// ---------------------------------------------------------------------------------------------
// D01

fn ints() -> Vec<i64> {
    vec![
        i64::MIN,
        i64::MIN + 1,
        i32::MIN as i64 - 1,
        i32::MIN as i64,
        -1,
        0,
        1,
        2,
        255,
        256,
        i32::MAX as i64,
        u32::MAX as i64,
        u32::MAX as i64 + 1,
        (1 << 53) + 1,
        i64::MAX - 1,
        i64::MAX,
    ]
}

fn floats() -> Vec<f64> {
    vec![
        f64::NEG_INFINITY,
        f64::MIN,
        -1e39,
        -1.0,
        -f64::MIN_POSITIVE,
        -0.0,
        0.0,
        5e-324,
        1e-46,
        0.1 + 0.2,
        0.3,
        1.0,
        1.0 + f64::EPSILON,
        2.0,
        16777216.0,
        16777217.0,
        f64::MAX,
        f64::INFINITY,
        f64::NAN,
    ]
}

fn lens() -> Vec<u32> {
    vec![0, 1, 2, 3, 255, 256, 65535, 65536, 1 << 31, u32::MAX - 1, u32::MAX]
}

/// All combinations of bounds of every kind of schema.
pub fn bound_leaves() -> Gen<Schema> {
    use SOp::*;
    // kinds of lower and upper bound x values
    let opt3 = |n: usize| -> Vec<Option<(bool, usize)>> {
        let mut v = vec![None];
        for i in 0..n {
            v.push(Some((false, i)));
            v.push(Some((true, i)));
        }
        v
    };
    let i = of(opt3(ints().len()))
        .x(&of(opt3(ints().len())))
        .x(&of(vec![None, Some(1), Some(u64::MAX)]))
        .x(&range(2))
        .map(|(((lo, hi), mul), swap)| {
            let mut v = vec![];
            if let Some((x, n)) = lo {
                v.push(if x { IXMin(ints()[n]) } else { IMin(ints()[n]) });
            }
            if let Some((x, n)) = hi {
                v.push(if x { IXMax(ints()[n]) } else { IMax(ints()[n]) });
            }
            v.extend(mul.map(IMul));
            if swap == 1 {
                v.reverse();
            }
            kw(Ki::Integer, &v)
        });
    let f = of(opt3(floats().len()))
        .x(&of(opt3(floats().len())))
        .x(&range(2))
        .map(|((lo, hi), swap)| {
            let mut v = vec![];
            if let Some((x, n)) = lo {
                v.push(if x { NXMin(F(floats()[n])) } else { NMin(F(floats()[n])) });
            }
            if let Some((x, n)) = hi {
                v.push(if x { NXMax(F(floats()[n])) } else { NMax(F(floats()[n])) });
            }
            if swap == 1 {
                v.reverse();
            }
            kw(Ki::Number, &v)
        });
    let m = of(floats())
        .x(&of(vec![None, Some(0.0), Some(f64::NAN)]))
        .x(&of(vec![None, Some(-1.0)]))
        .map(|((m, lo), hi)| {
            let mut v = vec![NMul(F(m))];
            v.extend(lo.map(|x| NMin(F(x))));
            v.extend(hi.map(|x| NXMax(F(x))));
            kw(Ki::Number, &v)
        });
    let l = of(lens()).opt().x(&of(lens()).opt()).x(&range(4)).map(|((lo, hi), how)| {
        let mut v = vec![];
        let string = how & 1 != 0;
        v.extend(lo.map(|n| if string { MinLen(n) } else { MinItems(n) }));
        v.extend(hi.map(|n| if string { MaxLen(n) } else { MaxItems(n) }));
        if how & 2 != 0 {
            v.reverse();
        }
        kw(if string { Ki::Str } else { Ki::Vec }, &v)
    });
    i.or(&f).or(&m).or(&l)
}

/// Numbers at and around those that have something special.
fn dense() -> Vec<i64> {
    let mut v = vec![];
    for n in [0, 4, 7, 10, 12, 16, 24, 32, 50, 64, 100, 128, 256, 365, 500, 512, 1000, 1024, 1440, 2000, 3600, 4096, 9999, 10000, 86400] {
        v.extend([n - 1, n, n + 1]);
    }
    for n in [1 << 15, 1 << 16, 100_000, 1_000_000, 1 << 24, 1_000_000_000, 1 << 31, 1 << 32] {
        v.extend([n - 1, n]);
    }
    v.sort();
    v.dedup();
    v
}

/// Each two bounds, with each other member of the schema and with all of them.
fn g_bounds_with_members() -> Gen<Prog> {
    use SOp::*;
    let signed: Vec<i64> = dense().into_iter().flat_map(|n| if n % 4 == 0 { vec![n, -n] } else { vec![n] }).collect();
    let two = |v: &[i64]| -> Vec<(i64, i64)> { v.iter().flat_map(|a| v.iter().map(move |b| (*a, *b))).collect() };
    let lens: Vec<i64> = dense().into_iter().filter(|n| (0..=u32::MAX as i64).contains(n)).collect();
    let (lens, signed) = (two(&lens), two(&signed));
    let base: Vec<SOp> = vec![
        I(IOp::AType(st("T"))),
        I(IOp::Title(st("t"))),
        I(IOp::Titles(mp(&[("en", "x")]))),
        I(IOp::Desc(st("d"))),
        I(IOp::Descs(mp(&[("de", "x")]))),
        Unit(st("u")),
        Format(st("f")),
        Default(json!(1)),
    ];
    let with = move |kind: Ki, bounds: Vec<SOp>, own: Vec<SOp>, n: u64| {
        let mut s = vec![Finish, Kind(kind)];
        s.extend(bounds);
        let (b, o) = (base.len() as u64, own.len() as u64);
        match n {
            0 => {}
            n if n <= b => s.insert((n & 1) as usize, base[n as usize - 1].clone()),
            n if n <= b + o => s.insert(2 + (n & 1) as usize, own[(n - b - 1) as usize].clone()),
            n if n == b + o + 1 => s.push(ReadOnly),
            n if n == b + o + 2 => s.push(WriteOnly),
            _ => {
                s.splice(1..1, base.clone());
                s.extend(own);
                s.push(ReadOnly);
            }
        }
        post(vec![at_schema([0, 1, 4, 7, 11][(n % 5) as usize], "x", s)])
    };
    let (wi, wl) = (with.clone(), with.clone());
    let i = of(signed.clone()).x(&range(8)).x(&range(13)).map(move |(((a, b), how), n)| {
        let lo = if how & 1 == 0 { IMin(a) } else { IXMin(a) };
        let hi = if how & 2 == 0 { IMax(b) } else { IXMax(b) };
        wi(Ki::Integer, if how & 4 == 0 { vec![lo, hi] } else { vec![hi, lo] }, vec![IMul(2)], n)
    });
    let f = of(signed).x(&range(8)).x(&range(13)).map(move |(((a, b), how), n)| {
        let x = |v: i64| F(v as f64 * 0.1);
        let lo = if how & 1 == 0 { NMin(x(a)) } else { NXMin(x(a)) };
        let hi = if how & 2 == 0 { NMax(x(b)) } else { NXMax(x(b)) };
        with(Ki::Number, if how & 4 == 0 { vec![lo, hi] } else { vec![hi, lo] }, vec![NMul(F(0.1))], n)
    });
    let l = of(lens).x(&range(2)).x(&range(17)).map(move |(((a, b), string), n)| {
        let (a, b) = (a as u32, b as u32);
        if string == 1 {
            wl(Ki::Str, vec![MinLen(a), MaxLen(b)], vec![Pattern(st("p")), CEnc(st("e")), CMedia(st("m")), Pattern(st(""))], n)
        } else {
            let item = |s| Item(s);
            wl(
                Ki::Vec,
                vec![MinItems(a), MaxItems(b)],
                vec![item(k(Ki::Bool)), item(k(Ki::Vec)), item(kw(Ki::Vec, &[MinItems(b), MaxItems(b)])), item(kw(Ki::Str, &[MinLen(a)]))],
                n,
            )
        }
    });
    i.or(&f).or(&l)
}

/// Sequences of bound setters: later calls replace earlier ones.
fn g_bound_sequences(n: u32) -> Gen<Prog> {
    use SOp::*;
    let seq = |kind: Ki, a: Vec<SOp>| {
        of(a).upto(n).x(&of(vec![0u64, 4, 11])).map(move |(v, site)| {
            let mut s = k(kind.clone());
            s.extend(v);
            post(vec![at_schema(site, "x", s)])
        })
    };
    seq(
        Ki::Integer,
        vec![IMin(0), IMin(2), IMax(0), IMax(2), IXMin(0), IXMin(2), IXMax(0), IXMax(2), IMul(3), ReadOnly]
            .into_iter()
            .filter(|o| *o != ReadOnly)
            .collect(),
    )
    .or(&seq(
        Ki::Number,
        vec![
            NMin(F(0.0)),
            NMin(F(2.5)),
            NMax(F(0.0)),
            NMax(F(2.5)),
            NXMin(F(0.0)),
            NXMin(F(2.5)),
            NXMax(F(0.0)),
            NXMax(F(2.5)),
            NMul(F(1.0)),
            NMul(F(0.0)),
            NMin(F(f64::NAN)),
        ],
    ))
    .or(&seq(Ki::Vec, vec![MinItems(0), MinItems(2), MaxItems(0), MaxItems(2), Item(k(Ki::Bool))]))
    .or(&of(vec![MinLen(0), MinLen(2), MaxLen(0), MaxLen(2), Pattern(st("p"))]).upto(n).x(&of(vec![2u64, 5, 7])).map(
        |(v, site)| {
            let mut s = k(Ki::Str);
            s.extend(v);
            post(vec![at_schema(site, "x", s)])
        },
    ))
}

/// Representative valid and invalid schemas of every kind.
fn bound_samples() -> Vec<Schema> {
    use SOp::*;
    vec![
        kw(Ki::Integer, &[IMin(2), IMax(1)]),
        kw(Ki::Integer, &[IXMin(1), IMax(1)]),
        kw(Ki::Integer, &[IMin(1), IMax(1), ReadOnly]),
        kw(Ki::Number, &[NMin(F(2.0)), NMax(F(1.0)), WriteOnly]),
        kw(Ki::Number, &[NXMin(F(1.0)), NXMax(F(1.0))]),
        kw(Ki::Number, &[NMin(F(0.5)), NMax(F(1.0))]),
        kw(Ki::Number, &[NMin(F(f64::NAN))]),
        kw(Ki::Number, &[NXMax(F(f64::NAN))]),
        kw(Ki::Number, &[NMul(F(0.0))]),
        kw(Ki::Number, &[NMul(F(-0.5))]),
        kw(Ki::Number, &[NMul(F(0.5))]),
        kw(Ki::Vec, &[MinItems(2), MaxItems(1), Item(k(Ki::Bool))]),
        kw(Ki::Vec, &[MinItems(1), MaxItems(1)]),
        kw(Ki::Str, &[MinLen(2), MaxLen(1)]),
        kw(Ki::Str, &[MinLen(1), MaxLen(1)]),
    ]
}

/// A bounded schema inside chains of containers, at every site.
fn g_bound_positions(depth: u32) -> Gen<Prog> {
    of(bound_samples())
        .x(&range(CONTAINERS).upto(depth))
        .x(&range(SCHEMA_SITES))
        .map(|((leaf, chain), site)| {
            let s = chain.into_iter().fold(leaf, |s, c| wrap(c, s));
            post(vec![at_schema(site, "x", s)])
        })
}

/// One bad schema among declarations.
fn g_bound_among() -> Gen<Prog> {
    of(bound_samples())
        .x(&range(SCHEMA_SITES))
        .x(&range(SCHEMA_SITES))
        .x(&range(SCHEMA_SITES))
        .map(|(((s, a), b), c)| {
            post(vec![
                at_schema(a, "a", kw(Ki::Integer, &[SOp::IMin(1)])),
                at_schema(b, "m", s),
                at_schema(c, "z", k(Ki::Str)),
            ])
        })
}

/// Both schemas of an affordance; only one of them is wrong.
fn g_bound_pairs() -> Gen<Prog> {
    let mut s = bound_samples();
    s.push(k(Ki::Bool));
    s.push(k(Ki::Object));
    of(s.clone()).x(&of(s)).x(&range(9)).map(|((a, b), how)| {
        post(vec![match how {
            0 => TOp::Action(st("x"), vec![AOp::Input(a), AOp::Output(b)]),
            1 => TOp::Event(st("x"), vec![EOp::Subscription(a), EOp::Data(b)]),
            2 => TOp::Event(st("x"), vec![EOp::Cancellation(a), EOp::DataResponse(b)]),
            3 => TOp::Event(st("x"), vec![EOp::Data(a), EOp::Cancellation(b)]),
            4 => TOp::Property(st("x"), {
                let mut p = as_property(&a);
                p.push(SOp::UriVar(st("u"), b));
                p
            }),
            5 => TOp::SchemaDef(st("x"), kw(Ki::Tuple, &[SOp::Append(a), SOp::Append(b)])),
            6 => TOp::SchemaDef(st("x"), kw(Ki::Object, &[SOp::Prop(st("a"), true, a), SOp::Prop(st("b"), false, b)])),
            7 => TOp::SchemaDef(st("x"), sch(vec![SOp::OneOf(a), SOp::OneOf(b)])),
            // A replaced declaration does not count.
            _ => TOp::SchemaDef(st("x"), kw(Ki::Vec, &[SOp::Item(a), SOp::Item(b)])),
        }])
    })
}

pub fn d01(th: bool) -> Check {
    let sites = |g: &Gen<Schema>, v: Vec<u64>| {
        g.x(&of(v)).map(|(s, site)| post(vec![at_schema(site, "x", s)]))
    };
    Check {
        id: "D01",
        spaces: vec![
            space(
                "bound values",
                sites(&bound_leaves(), if th { (0..SCHEMA_SITES).collect() } else { vec![0, 1, 4, 7, 11] }),
            ),
            space(
                "bound values in containers",
                bound_leaves().x(&range(CONTAINERS)).map(|(s, c)| post(vec![at_schema(2, "x", wrap(c, s))])),
            ),
            space("setter sequences", g_bound_sequences(if th { 6 } else { 5 })),
            space("positions", g_bound_positions(if th { 4 } else { 3 })),
            space("among declarations", g_bound_among()),
            space("pairs", g_bound_pairs()),
            space("two members anywhere", g_member_pairs(th)),
            space("a fault beside any member", g_fault_beside("D01", false)),
            space("a fault beside any two members", g_fault_beside("D01", true)),
            space("faults anywhere", anywhere(schema_faults(), th)),
            space("any bounds with other members", g_bounds_with_members()),
            space("bounds with other members", g_schema_decorated(bound_samples(), vec![0, 1, 2, 4, 7, 11])),
            space("long lists and deep nesting", wide(schema_wide(), th)),
            Space::new(
                "positions, extended things",
                g_bound_positions(1).x(&range(4)).map(|(p, o)| extify(&p, &mut Payload::new(1, 3, o as usize))),
                build_ext,
            ),
        ],
        assumptions: ASSUME.to_vec(),
        bounds: "16 integers, 19 floats (NaN, infinities, subnormal, signed zeros), 11 lengths, in every pair of bound kinds; setter sequences <= 5 (thorough 6); container chains <= 3 (4) of 10 containers x 12 sites; 12^3 surroundings",
    }
}

// ---------------------------------------------------------------------------------------------
// D02

pub fn base_ops() -> Vec<SOp> {
    let mut v: Vec<SOp> = info_ops().into_iter().map(SOp::I).collect();
    v.extend([
        SOp::Unit(st("u1")),
        SOp::Unit(st("u2")),
        SOp::Format(st("f1")),
        SOp::Format(st("f2")),
        SOp::Default(json!(1)),
        SOp::Default(json!(null)),
        SOp::Default(json!([{"a": "b"}])),
    ]);
    v
}

/// The kinds with their own setters, and whether access can be restricted.
fn kinds() -> Vec<(SOp, Vec<SOp>, bool, bool)> {
    use SOp::*;
    let b = || k(Ki::Bool);
    let i = || kw(Ki::Integer, &[IMin(3)]);
    let tup = || kw(Ki::Tuple, &[Append(k(Ki::Bool)), Append(k(Ki::Str))]);
    vec![
        (Kind(Ki::Bool), vec![], true, true),
        (Kind(Ki::Null), vec![], true, true),
        (Kind(Ki::Const(json!("c"))), vec![], false, true),
        (
            Kind(Ki::Number),
            vec![NMin(F(-1.0)), NMin(F(-2.0)), NMax(F(3.0)), NXMin(F(-4.0)), NXMax(F(5.0)), NMul(F(0.5)), NMul(F(2.0))],
            true,
            true,
        ),
        (
            Kind(Ki::Integer),
            vec![IMin(-1), IMin(-2), IMax(3), IXMin(-4), IXMax(5), IMul(2), IMul(9)],
            true,
            true,
        ),
        (
            Kind(Ki::Str),
            vec![MinLen(1), MinLen(2), MaxLen(3), MaxLen(4), Pattern(st("p1")), Pattern(st("p2")), CEnc(st("e")), CMedia(st("m"))],
            true,
            false,
        ),
        (Kind(Ki::Vec), vec![Item(b()), Item(tup()), MinItems(1), MinItems(2), MaxItems(3), MaxItems(4)], true, true),
        (Kind(Ki::Tuple), vec![Append(b()), Append(i()), Append(tup())], true, true),
        (
            Kind(Ki::Object),
            vec![
                Prop(st("a"), true, b()),
                Prop(st("b"), true, i()),
                Prop(st("a"), false, i()),
                Prop(st("c"), false, tup()),
                Prop(st("A"), true, b()),
            ],
            true,
            true,
        ),
        (Enum(json!("x")), vec![Enum(json!(null)), Enum(json!("x")), Enum(json!([1]))], true, true),
        (OneOf(b()), vec![OneOf(i()), OneOf(b()), OneOf(tup())], false, true),
    ]
}

/// Schema builder chains of each kind: `before` steps around the end of the extension phase, `own`
/// steps after the choice of kind, then possibly an access restriction and `after` more.
pub fn g_schema_setters(before: u32, own: u32, after: u32) -> Gen<Schema> {
    g_setters_of(base_ops, before, own, after)
}

/// The builder of a property: members of the affordance and of the schema in every stage of it.
pub fn g_property_setters(before: u32, own: u32, after: u32) -> Gen<Prog> {
    g_setters_of(property_alphabet, before, own, after).map(|s| post(vec![TOp::Property(st("x"), as_property(&s))]))
}

fn g_setters_of(base: fn() -> Vec<SOp>, before: u32, own: u32, after: u32) -> Gen<Schema> {
    let mut g: Option<Gen<Schema>> = None;
    for (kind, like, rw, rwlike) in kinds() {
        let pre = of(base()).upto(before);
        let mut a = like.clone();
        a.extend(base());
        let own = of(a).upto(own);
        let mut c = if rwlike { like } else { vec![] };
        c.extend(base());
        let tail = if rw {
            one_with(Vec::new).or(&of(vec![SOp::ReadOnly, SOp::WriteOnly]).x(&of(c).upto(after)).map(|(x, mut v)| {
                v.insert(0, x);
                v
            }))
        } else {
            one_with(Vec::new)
        };
        let h = pre.x(&range(2)).x(&own).x(&tail).map(move |(((p, fin), o), t)| {
            let mut v = p;
            let at = if fin == 0 { 0 } else { v.len() };
            v.insert(at, SOp::Finish);
            v.push(kind.clone());
            v.extend(o);
            v.extend(t);
            v
        });
        g = Some(match g {
            None => h,
            Some(g) => g.or(&h),
        });
    }
    g.unwrap()
}

pub fn at_sites(g: &Gen<Schema>, sites: &[u64]) -> Gen<Prog> {
    g.x(&of(sites.to_vec())).map(|(s, site)| post(vec![at_schema(site, "x", s)]))
}

/// Rich leaves in chains of containers.
pub fn g_schema_nesting(depth: u32) -> Gen<Schema> {
    of(rich_leaves())
        .x(&range(CONTAINERS).upto(depth))
        .map(|(l, chain)| chain.into_iter().fold(l, |s, c| wrap(c, s)))
}

/// Containers with several different children.
pub fn g_schema_children(n: u32) -> Gen<Schema> {
    use SOp::*;
    of(rich_leaves()).upto(n).x(&range(4)).map(|(c, how)| match how {
        0 => {
            let mut s = k(Ki::Tuple);
            s.extend(c.into_iter().map(Append));
            s
        }
        1 => {
            let mut s = k(Ki::Object);
            s.extend(c.into_iter().enumerate().map(|(i, x)| Prop(format!("p{}", (7 * i) % 5), i % 2 == 0, x)));
            s
        }
        2 if !c.is_empty() => sch(c.into_iter().map(OneOf).collect()),
        _ => {
            let mut s = k(Ki::Vec);
            s.extend(c.into_iter().map(Item));
            s
        }
    })
}

pub fn d02(th: bool) -> Check {
    let all: Vec<u64> = (0..SCHEMA_SITES).collect();
    Check {
        id: "D02",
        spaces: vec![
            space("early setters", at_sites(&g_schema_setters(2, 0, 0), &OPEN_SITES)),
            space("own setters", at_sites(&g_schema_setters(0, if th { 4 } else { 3 }, 0), &[0, 4, 11])),
            space(
                "setters around an access restriction",
                at_sites(&g_schema_setters(1, if th { 2 } else { 1 }, 1), &[0, 2]),
            ),
            space("setters after an access restriction", at_sites(&g_schema_setters(0, 1, 2), &[0, 2])),
            space("nesting", at_sites(&g_schema_nesting(if th { 4 } else { 3 }), &[0, 3, 5, 11])),
            space("children", at_sites(&g_schema_children(if th { 4 } else { 3 }), &[0, 1, 6])),
            space("sites", at_sites(&g_schema_setters(1, 1, 0), &all)),
            space("words close to the vocabulary", surrounded(&places(schema_strings(), near_vocabulary()))),
            space("similar strings", places(schema_pairs(), similar_pairs(true))),
            space("two members anywhere", g_member_pairs(th)),
            space("texts of any member", g_member_texts(odd_texts())),
            space("any members of a part", g_part_subsets(th)),
            space("three members anywhere", g_member_triples(th)),
            space("odd strings", surrounded(&places(schema_strings(), odd_strings()))),
            space("odd values", surrounded(&places(schema_values(), odd_values()))),
            space("long lists and deep nesting", wide(schema_wide(), th)),
            Space::new(
                "setters and nesting, extended things",
                at_sites(&g_schema_setters(1, 1, 1).or(&g_schema_nesting(2)), &[0, 2])
                    .map(|p| extify(&p, &mut Payload::new(1, 3, p.calls() as usize))),
                build_ext,
            ),
        ],
        assumptions: ASSUME.to_vec(),
        bounds: "11 kinds; setter sequences <= 3 (thorough 4) per kind over 16 common and <= 8 own setters, before / between / after each builder stage; container chains <= 3 (4); <= 3 (4) children of 19; 12 sites",
    }
}

// ---------------------------------------------------------------------------------------------
// D03

pub fn d03(th: bool) -> Check {
    use crate::{dump, engine::Bad, judge, model::MSchema};
    /// Every schema of the dump, with a look at the two flags.
    fn judge(p: &Prog) -> crate::engine::Res {
        fn go(s: &MSchema) -> Result<(), Bad> {
            if s.ro && s.wo {
                return judge::bad("a schema is both read-only and write-only");
            }
            if s.constant.is_some() && !s.ro {
                return judge::bad("a constant is not read-only");
            }
            for c in s.one_of.iter().flatten() {
                go(c)?;
            }
            use crate::model::{Items, MSub};
            match &s.sub {
                Some(MSub::Array { items: Some(Items::One(i)), .. }) => go(i),
                Some(MSub::Array { items: Some(Items::Many(v)), .. }) => v.iter().try_for_each(go),
                Some(MSub::Object { props, .. }) => props.iter().flatten().try_for_each(|(_, s)| go(s)),
                _ => Ok(()),
            }
        }
        let seen = build(p)?;
        if let crate::drive::Real::Built(t) = crate::drive::run(p) {
            let t = dump::thing(&t);
            for p in t.properties.iter().flatten() {
                go(&p.1.schema)?;
            }
            for s in t.schemadefs.iter().chain(&t.urivars).flatten() {
                go(s.1)?;
            }
            for a in t.actions.iter().flatten() {
                for s in a.1.input.iter().chain(&a.1.output) {
                    go(s)?;
                }
            }
            for e in t.events.iter().flatten() {
                let e = e.1;
                for s in e.data.iter().chain(&e.subscription).chain(&e.cancellation).chain(&e.data_response) {
                    go(s)?;
                }
            }
        }
        Ok(seen)
    }
    let sp = |n: &str, g: Gen<Prog>| Space::new(n, g, judge);
    // Restricted schemas inside restricted schemas
    let leaf = || {
        let mut v = vec![];
        for l in leaves() {
            v.push(l.clone());
            if !matches!(l[1], SOp::OneOf(_) | SOp::Kind(Ki::Const(_))) {
                for o in [SOp::ReadOnly, SOp::WriteOnly] {
                    let mut x = l.clone();
                    x.push(o);
                    v.push(x);
                }
            }
        }
        v
    };
    fn restrict(s: Schema, how: u64) -> Schema {
        let mut s = s;
        let can = !s.iter().any(|o| matches!(o, SOp::OneOf(_) | SOp::ReadOnly | SOp::WriteOnly));
        if can {
            match how {
                1 => s.push(SOp::ReadOnly),
                2 => s.push(SOp::WriteOnly),
                _ => {}
            }
        }
        s
    }
    let nested = of(leaf()).x(&range(CONTAINERS * 3).upto(if th { 3 } else { 2 })).map(|(l, chain)| {
        chain.into_iter().fold(l, |s, c| restrict(wrap(c / 3, s), c % 3))
    });
    Check {
        id: "D03",
        spaces: vec![
            sp("two members anywhere", g_member_pairs(th)),
            sp("any members of a part", g_part_subsets(th)),
            sp("setters", at_sites(&g_schema_setters(0, if th { 3 } else { 2 }, 1), &[0, 4])),
            sp("setters after", at_sites(&g_schema_setters(1, 0, if th { 3 } else { 2 }), &[0, 1, 7])),
            sp("early setters", at_sites(&g_schema_setters(2, 0, 0), &OPEN_SITES)),
            sp("nested restrictions", at_sites(&nested, &OPEN_SITES)),
            sp("stages of properties", g_property_setters(1, 0, 1).or(&g_property_setters(0, 1, 1))),
            sp("late setters of properties", g_property_setters(0, 0, 2)),
            sp("children", at_sites(&g_schema_children(2), &OPEN_SITES)),
            sp("constants", surrounded(&places(schema_values(), odd_values()))),
            Space::new(
                "nested restrictions, extended things",
                at_sites(&of(leaf()).x(&range(CONTAINERS * 3)).map(|(l, c)| restrict(wrap(c / 3, l), c % 3)), &OPEN_SITES)
                    .map(|p| extify(&p, &mut Payload::new(1, 3, p.calls() as usize))),
                build_ext,
            ),
        ],
        assumptions: ASSUME.to_vec(),
        bounds: "11 kinds with every access restriction; setter sequences <= 3; nesting <= 2 (thorough 3) of 10 containers x 3 restrictions; every JSON value of a 150 value alphabet as constant",
    }
}

// ---------------------------------------------------------------------------------------------
// U01

pub fn uri_at(site: u64, name: &str, vars: Vec<(S, Schema)>) -> Vec<TOp> {
    let n = st(name);
    match site {
        0 => vars.into_iter().map(|(n, s)| TOp::UriVar(n, s)).collect(),
        1 => vec![TOp::Property(n, {
            let mut s = k(Ki::Object);
            s.extend(vars.into_iter().map(|(n, s)| SOp::UriVar(n, s)));
            s
        })],
        2 => vec![TOp::Action(n, vars.into_iter().map(|(n, s)| AOp::UriVar(n, s)).collect())],
        _ => vec![TOp::Event(n, vars.into_iter().map(|(n, s)| EOp::UriVar(n, s)).collect())],
    }
}

pub fn u01(th: bool) -> Check {
    let mut schemas = leaves();
    schemas.extend(rich_leaves());
    schemas.extend((0..CONTAINERS).map(|c| wrap(c, k(Ki::Object))));
    schemas.push(kw(Ki::Integer, &[SOp::IMin(2), SOp::IMax(1)]));
    let names = sv(&["a", "b", "a"]);
    let vars = {
        let s: Vec<Schema> = leaves();
        of(s).x(&of(sv(&["a", "b", "A"])))
    };
    Check {
        id: "U01",
        spaces: vec![
            space(
                "one variable",
                of(schemas.clone()).x(&range(4)).x(&range(3)).map(|((s, site), others)| {
                    let mut ops = vec![];
                    if others > 0 {
                        for i in 0..4 {
                            ops.extend(uri_at(i, "aa", vec![(st("ok"), k(Ki::Str))]));
                        }
                    }
                    ops.extend(uri_at(site, "mm", vec![(st("x"), s)]));
                    if others > 1 {
                        for i in 0..4 {
                            ops.extend(uri_at(i, "zz", vec![(st("ok2"), k(Ki::Integer))]));
                        }
                    }
                    post(ops)
                }),
            ),
            space(
                "variable sequences",
                vars.upto(if th { 3 } else { 2 }).x(&range(4)).map(|(v, site)| {
                    post(uri_at(site, "x", v.into_iter().map(|(s, n)| (n, s)).collect()))
                }),
            ),
            space(
                "nested and restricted",
                g_schema_nesting(2).x(&range(4)).map(|(s, site)| post(uri_at(site, "x", vec![(st("u"), s)]))),
            ),
            space(
                "setters",
                g_schema_setters(1, 1, 0)
                    .or(&g_schema_setters(0, 1, 1))
                    .x(&range(4))
                    .map(|(s, site)| post(uri_at(site, "x", vec![(st("u"), s)]))),
            ),
            space("schemas with other members", g_schema_decorated(leaves(), vec![7, 8, 9, 10])),
            space(
                "every site at once",
                of(leaves()).exact(4).map(move |v| {
                    let mut ops = vec![];
                    for (i, s) in v.into_iter().enumerate() {
                        ops.extend(uri_at(i as u64, "x", vec![(names[i % 3].clone(), s)]));
                    }
                    post(ops)
                }),
            ),
            space("words close to the vocabulary", surrounded(&places(name_strings(), near_vocabulary()))),
            space("odd names", surrounded(&places(name_strings(), odd_strings()))),
            space("similar names", places(variable_pairs(), similar_pairs(true))),
            space("two members anywhere", g_member_pairs(th)),
            space("texts of any member", g_member_texts(odd_texts())),
            space("any members of a part", g_part_subsets(th)),
            space("a fault beside any member", g_fault_beside("U01", false)),
            space("a fault beside any two members", g_fault_beside("U01", true)),
            space("faults anywhere", anywhere(uri_faults(), th)),
            space(
                "long lists",
                of(widths(th)).x(&range(4)).x(&range(3)).map(|((c, site), bad)| {
                    let mut v: Vec<_> = (0..c).map(|i| (format!("n{i}"), k(Ki::Integer))).collect();
                    if bad > 0 && c > 0 {
                        v[if bad == 1 { c / 2 } else { c - 1 }].1 = k(Ki::Object);
                    }
                    post(uri_at(site, "x", v))
                }),
            ),
            Space::new(
                "extended things",
                of(schemas).x(&range(4)).x(&range(4)).map(|((s, site), o)| {
                    extify(&post(uri_at(site, "mm", vec![(st("x"), s)])), &mut Payload::new(1, 3, o as usize))
                }),
                build_ext,
            ),
        ],
        assumptions: ASSUME.to_vec(),
        bounds: "41 schemas of every kind and nesting x 4 sites x surroundings; sequences of <= 2 (thorough 3) variables of 11 kinds x 3 names; 11^4 kinds over the four sites; lists up to 1025",
    }
}

// ---------------------------------------------------------------------------------------------
// R01

pub fn r01(th: bool) -> Check {
    let resp = |s: &str| FOp::AddResp(vec![AR::Schema(st(s))]);
    let mut a = vec![
        TOp::SchemaDef(st("a"), k(Ki::Bool)),
        TOp::SchemaDef(st("b"), k(Ki::Object)),
        TOp::SchemaDef(st("a"), k(Ki::Str)),
        TOp::UriVar(st("c"), k(Ki::Bool)),
        affordance(0, "c"),
    ];
    for site in 0..4 {
        for r in ["a", "b", "c"] {
            let mut f = ok_form(site);
            f.push(resp(r));
            a.push(at_forms(site, &format!("{site}{r}"), vec![f]).remove(0));
        }
    }
    let mut f = ok_form(1);
    f.extend([resp("a"), FOp::AddResp(vec![AR::Success]), resp("b")]);
    a.push(at_forms(1, "mm", vec![f]).remove(0));
    Check {
        id: "R01",
        spaces: vec![
            space("declaration sequences", sequences(a, if th { 5 } else { 4 })),
            space(
                "one response among others",
                range(4)
                    .x(&range(3))
                    .x(&range(3))
                    .x(&range(3))
                    .x(&range(3))
                    .x(&of(sv(&["d", "u", "D", "", "e", "de", "p"])))
                    .map(|(((((site, fb), fa), rb), ra), name)| {
                        let good = |n: u64| {
                            let mut f = ok_form(site);
                            for i in 0..n {
                                f.push(FOp::AddResp(vec![AR::Schema(st(["d", "e"][i as usize % 2])), AR::CType(st("c"))]));
                            }
                            f
                        };
                        let mut forms: Vec<_> = (0..fb).map(good).collect();
                        let mut f = good(rb);
                        f.push(FOp::AddResp(vec![AR::CType(st("x")), AR::Schema(name)]));
                        f.extend((0..ra).map(|_| FOp::AddResp(vec![AR::Success, AR::Schema(st("e"))])));
                        forms.push(f);
                        forms.extend((0..fa).map(good));
                        let mut ops = vec![TOp::SchemaDef(st("d"), k(Ki::Bool)), affordance(0, "p")];
                        ops.extend(at_forms((site + 1) % 4, "aa", vec![ok_form((site + 1) % 4)]));
                        ops.extend(at_forms(site, "mm", forms));
                        ops.extend(at_forms((site + 2) % 4, "zz", vec![ok_form((site + 2) % 4)]));
                        ops.push(TOp::SchemaDef(st("e"), k(Ki::Null)));
                        post(ops)
                    }),
            ),
            space("responses", g_addresp(if th { 4 } else { 3 })),
            // No schema definitions at all
            space(
                "nothing declared",
                of(vec![
                    vec![],
                    vec![AR::Success],
                    vec![AR::CType(st("x"))],
                    vec![AR::Schema(st("x"))],
                    vec![AR::Schema(st(""))],
                    vec![AR::Schema(st("x")), AR::Success],
                ])
                .upto(3)
                .x(&range(4))
                .map(|(rs, site)| {
                    let mut f = ok_form(site);
                    f.extend(rs.into_iter().map(FOp::AddResp));
                    post(vec![form1(site, f)])
                }),
            ),
            space(
                "near misses",
                of(near("state")).x(&range(4)).x(&range(2)).map(|((s, site), last)| {
                    let mut f = ok_form(site);
                    f.push(FOp::AddResp(vec![AR::Schema(s)]));
                    let d = TOp::SchemaDef(st("state"), k(Ki::Bool));
                    post(if last == 0 { vec![d, form1(site, f)] } else { vec![form1(site, f), d] })
                }),
            ),
            space(
                "odd names",
                surrounded(&places(form_strings(), odd_strings())).or(&of(odd_strings()).x(&range(4)).map(|(s, site)| {
                    let mut f = ok_form(site);
                    f.push(FOp::AddResp(vec![AR::Schema(s)]));
                    post(vec![TOp::SchemaDef(st("only"), k(Ki::Bool)), form1(site, f)])
                })),
            ),
            space("words close to the vocabulary", surrounded(&places(form_strings(), near_vocabulary()))),
            space("similar names", places(response_miss_pairs(), similar_pairs(true)).or(&places(form_pairs(), similar_pairs(true)))),
            space("two members anywhere", g_member_pairs(th)),
            space("texts of any member", g_member_texts(odd_texts())),
            space("any members of a part", g_part_subsets(th)),
            space("a fault beside any member", g_fault_beside("R01", false)),
            space("a fault beside any two members", g_fault_beside("R01", true)),
            space("faults anywhere", anywhere(response_faults(), th)),
            space("neighbouring forms", g_form_neighbours(if th { 2 } else { 1 })),
            space("forms with other members", g_form_decorated()),
            space("long lists", wide(form_wide(), th)),
            Space::new(
                "extended things",
                g_addresp(2).x(&range(3)).map(|(p, o)| {
                    let mut p = p;
                    if o == 2 {
                        p.ops.retain(|o| !matches!(o, TOp::SchemaDef(n, _) if n == "e"));
                    }
                    extify(&p, &mut Payload::new(1, 3, o as usize))
                }),
                build_ext,
            ),
        ],
        assumptions: ASSUME.to_vec(),
        bounds: "declaration sequences <= 4 (thorough 5) over 18 declarations; <= 5 forms x <= 5 responses x 4 sites; lists up to 1025",
    }
}

// ---------------------------------------------------------------------------------------------
// L01 / L02

fn subtags() -> Vec<S> {
    sv(&[
        "en", "EN", "e", "eng", "engl", "engli", "abcdefgh", "abcdefghi", "a1", "1", "12", "419", "1abc", "1996", "ab12c",
        "Latn", "US", "x", "X", "u", "a", "i", "", "é", "e n", "en_US",
    ])
}

pub const LANG_SITES: u64 = 14;

pub fn lang_at(site: u64, m: Map) -> Prog {
    let hl = |m: &Map| -> Vec<LOp> {
        std::iter::once(LOp::Href(st("h")))
            .chain(m.iter().map(|(k, _)| LOp::HrefLang(k.clone())))
            .collect()
    };
    let s = |o| sch(vec![SOp::I(o), SOp::Kind(Ki::Bool)]);
    match site {
        0 => prog(vec![TOp::Titles(m)]),
        1 => prog(vec![TOp::Descs(m)]),
        2 => prog(vec![TOp::LinkWith(hl(&m))]),
        3 => prog(vec![basic("a"), TOp::Security(vec![SecOp::Descs(m), SecOp::Scheme(Scheme::NoSec)])]),
        4 => post(vec![affordance(0, "a"), TOp::Property(st("p"), s(IOp::Titles(m)))]),
        5 => post(vec![TOp::Property(st("p"), s(IOp::Descs(m)))]),
        6 => post(vec![TOp::Action(st("p"), vec![AOp::I(IOp::Titles(m))])]),
        7 => post(vec![TOp::Action(st("p"), vec![AOp::I(IOp::Descs(m))]), affordance(1, "z")]),
        8 => post(vec![TOp::Event(st("p"), vec![EOp::I(IOp::Titles(m))])]),
        9 => post(vec![TOp::Event(st("p"), vec![EOp::I(IOp::Descs(m))])]),
        10 => post(vec![TOp::Action(st("p"), vec![AOp::Output(s(IOp::Titles(m)))])]),
        11 => post(vec![TOp::Event(st("p"), vec![EOp::Data(wrap(2, s(IOp::Descs(m))))])]),
        12 => post(vec![TOp::SchemaDef(st("p"), wrap(5, s(IOp::Titles(m))))]),
        13 => post(vec![TOp::UriVar(st("p"), wrap(8, s(IOp::Descs(m))))]),
        _ => unreachable!(),
    }
}

pub fn l01(th: bool) -> Check {
    let tags = of(subtags()).exact(1).or(&of(subtags()).exact(2)).or(&of(subtags()).exact(3)).map(|v| v.join("-"));
    let some = if th {
        of(subtags()).exact(4).map(|v| v.join("-"))
    } else {
        // Only the plausible heads for the longest tags
        of(sv(&["en", "eng", "x", "zh-min", "en-Latn", "i"]))
            .x(&of(subtags()).exact(3))
            .map(|(h, v)| format!("{h}-{}", v.join("-")))
    };
    let special = sv(&[
        "i-klingon", "I-KLINGON", "en-GB-oed", "sgn-BE-FR", "zh-min-nan", "art-lojban", "i-nothing", "x-a", "x", "zh-cmn-Hans-CN",
        "de-CH-1901", "sl-rozaj-biske-1994", "de-CH-x-phonebk", "en-a-myext-b-another", "en-u-co-phonebk", "-en", "en-", "en--US",
        " en", "en ", "english", "e", "a-DE", "ar-a-aaa-b-bbb-a-ccc", "de-419-DE", "en-US-US", "zh-yue-cmn-abc-def", "aaaaaaaaa",
        "en-x", "en-a", "x-abcdefghi", "i", "i-en", "no-bok", "zh-xiang", "日本", "en\u{0}", "*", "en-*", "",
    ]);
    let words = sv(&["en", "EN", "eN", "fr", "it-IT", "it-it", "bad tag", "en-US"]);
    let all: Vec<u64> = (0..LANG_SITES).collect();
    Check {
        id: "L01",
        spaces: vec![
            space(
                "tags",
                tags.x(&of(if th { all.clone() } else { vec![0, 2, 3, 5, 11] })).map(|(t, site)| lang_at(site, vec![(t, st("v"))])),
            ),
            space("longer tags", some.x(&of(vec![1u64, 2])).map(|(t, site)| lang_at(site, vec![(t, st("v"))]))),
            space(
                "special tags",
                of(special.clone()).x(&of(all.clone())).map(|(t, site)| lang_at(site, vec![(t, st("v"))])),
            ),
            space(
                "translations",
                of(words.clone())
                    .upto(if th { 5 } else { 4 })
                    .x(&of(all.clone()))
                    .map(|(v, site)| {
                        lang_at(site, v.into_iter().enumerate().map(|(i, t)| (t, format!("v{i}"))).collect())
                    }),
            ),
            space(
                "odd texts and tags",
                surrounded(&places(meta_strings(), odd_strings()))
                    .or(&surrounded(&places(schema_strings(), odd_strings())))
                    .or(&of(odd_strings()).x(&of(all)).map(|(t, site)| lang_at(site, vec![(st("en"), st("v")), (t, st("w"))]))),
            ),
            space("two members anywhere", g_member_pairs(th)),
            space("a fault beside any member", g_fault_beside("L01", false)),
            space("a fault beside any two members", g_fault_beside("L01", true)),
            space("faults anywhere", anywhere(tag_faults(LANG_SITES, lang_at), th)),
            // Two places at once
            space(
                "pairs of places",
                range(LANG_SITES)
                    .x(&range(LANG_SITES))
                    .x(&of(sv(&["en", "x y"])))
                    .x(&of(sv(&["fr", "_"])))
                    .map(|(((a, b), t), u)| {
                        let (p, q) = (lang_at(a, vec![(t, st("v"))]), lang_at(b, vec![(u, st("w"))]));
                        // Affordances of the second are renamed.
                        let mut early = vec![];
                        let mut late = vec![];
                        for (i, o) in p.ops.into_iter().chain(q.ops).enumerate() {
                            match o {
                                TOp::Finish => {}
                                TOp::Property(_, s) => late.push(TOp::Property(format!("p{i}"), s)),
                                TOp::Action(_, s) => late.push(TOp::Action(format!("p{i}"), s)),
                                TOp::Event(_, s) => late.push(TOp::Event(format!("p{i}"), s)),
                                TOp::UriVar(_, s) => late.push(TOp::UriVar(format!("p{i}"), s)),
                                TOp::SchemaDef(_, s) => late.push(TOp::SchemaDef(format!("p{i}"), s)),
                                TOp::Security(mut s) => {
                                    s.insert(0, SecOp::Key(format!("k{i}")));
                                    s.retain(|o| !matches!(o, SecOp::Key(k) if k == "a"));
                                    early.push(TOp::Security(s))
                                }
                                o => early.push(o),
                            }
                        }
                        early.push(TOp::Finish);
                        early.extend(late);
                        prog(early)
                    }),
            ),
            space("long lists", wide(meta_wide(), th).or(&wide(link_wide(), th))),
            Space::new(
                "extended things",
                of(special).x(&range(LANG_SITES)).map(|(t, site)| {
                    extify(&lang_at(site, vec![(st("de"), st("u")), (t, st("v"))]), &mut Payload::new(1, 3, site as usize))
                }),
                build_ext,
            ),
        ],
        assumptions: {
            let mut v = ASSUME.to_vec();
            v.push("well-formedness is RFC 5646 section 2.1 (no registry lookup)");
            v
        },
        bounds: "all tags of <= 3 subtags (thorough 4) over 26 subtags, 40 special tags x 14 places; translation lists <= 4 (5) over 8 tags",
    }
}

pub fn link_alphabet() -> Vec<LOp> {
    vec![
        LOp::Ty(st("t1")),
        LOp::Ty(st("t2")),
        LOp::Rel(st("icon")),
        LOp::Rel(st("other")),
        LOp::Rel(st("ICON")),
        LOp::Rel(st("icon ")),
        LOp::Anchor(st("a1")),
        LOp::Anchor(st("a2")),
        LOp::Sizes(st("1x1")),
        LOp::Sizes(st("")),
        LOp::HrefLang(st("en")),
        LOp::HrefLang(st("it-IT")),
        LOp::HrefLang(st("bad tag")),
    ]
}

pub fn g_link_setters(n: u32) -> Gen<Prog> {
    of(link_alphabet()).upto(n).x(&range(3)).map(|(v, at)| {
        let mut l = v;
        let n = l.len();
        l.insert([0, n / 2, n][at as usize], LOp::Href(st("h")));
        prog(vec![TOp::LinkWith(l)])
    })
}

pub fn g_link_lists(n: u32) -> Gen<Prog> {
    let h = |v: &[LOp]| {
        let mut l = vec![LOp::Href(st("h"))];
        l.extend(v.iter().cloned());
        TOp::LinkWith(l)
    };
    of(vec![
        TOp::Link(st("l1")),
        TOp::Link(st("l2")),
        h(&[]),
        h(&[LOp::Rel(st("icon")), LOp::Sizes(st("1x1"))]),
        h(&[LOp::Sizes(st("1x1"))]),
        h(&[LOp::Rel(st("manifest")), LOp::Sizes(st("1x1"))]),
        h(&[LOp::Rel(st("icon"))]),
        h(&[LOp::HrefLang(st("en")), LOp::HrefLang(st("fr"))]),
        h(&[LOp::HrefLang(st("en")), LOp::HrefLang(st("_"))]),
        h(&[LOp::Ty(st("t")), LOp::Anchor(st("a"))]),
    ])
    .upto(n)
    .map(|mut v| {
        let at = v.len() / 2;
        v.insert(at, TOp::Finish);
        prog(v)
    })
}

pub fn l02(th: bool) -> Check {
    Check {
        id: "L02",
        spaces: vec![
            space("setters", g_link_setters(if th { 5 } else { 4 })),
            space("link lists", g_link_lists(if th { 6 } else { 5 })),
            space("words close to the vocabulary", surrounded(&places(link_strings(), near_vocabulary()))),
            space("similar strings", places(link_pairs(), similar_pairs(true))),
            space("two members anywhere", g_member_pairs(th)),
            space("texts of any member", g_member_texts(odd_texts())),
            space("any members of a part", g_part_subsets(th)),
            space("a fault beside any member", g_fault_beside("L02", false)),
            space("a fault beside any two members", g_fault_beside("L02", true)),
            space("odd strings", surrounded(&places(link_strings(), odd_strings()))),
            space(
                "near misses of icon",
                of(near("icon")).x(&range(3)).map(|(s, n)| {
                    let mut ops: Vec<TOp> = (0..n).map(|i| TOp::Link(format!("l{i}"))).collect();
                    ops.push(TOp::LinkWith(vec![LOp::Sizes(st("1x1")), LOp::Href(st("h")), LOp::Rel(s)]));
                    prog(ops)
                }),
            ),
            space("faults anywhere", anywhere(link_faults(), th)),
            space("long lists", wide(link_wide(), th)),
            Space::new(
                "extended things",
                g_link_setters(2).or(&g_link_lists(3)).map(|p| extify(&p, &mut Payload::new(1, 3, 0))),
                build_ext,
            ),
        ],
        assumptions: ASSUME.to_vec(),
        bounds: "setter sequences <= 4 (thorough 5) over 13 setters x 3 positions of the target; <= 5 (6) links of 10; lists up to 1025",
    }
}

// ---------------------------------------------------------------------------------------------
// T01

pub fn meta_alphabet() -> Vec<TOp> {
    vec![
        TOp::Id(st("i1")),
        TOp::Id(st("i2")),
        TOp::Desc(st("d1")),
        TOp::Desc(st("d2")),
        TOp::Version(st("v1"), Some(st("m1"))),
        TOp::Version(st("v2"), None),
        TOp::VersionStr(st("v3")),
        TOp::Created(st("2022-01-02T03:04:05Z")),
        TOp::Created(st("1970-01-01T00:00:00.000000001+23:59")),
        TOp::Modified(st("0001-01-01T00:00:00Z")),
        TOp::Modified(st("9999-12-31T23:59:59.999999999-05:30")),
        TOp::Support(st("s1")),
        TOp::Support(st("s2")),
        TOp::Base(st("b1")),
        TOp::Base(st("b2")),
        TOp::Context(st("c1")),
        TOp::Context(st("c2")),
        TOp::Context(st(crate::model::CTX11)),
        TOp::Context(st("https://www.w3.org/2019/wot/td/v1")),
        TOp::ContextMap(mp(&[("k", "v"), ("l", "w")])),
        TOp::ContextMap(mp(&[("k", "v"), ("k", "w")])),
        TOp::ContextMap(mp(&[])),
        TOp::AType(st("T1")),
        TOp::AType(st("T2")),
        TOp::Titles(mp(&[("en", "a"), ("fr", "b")])),
        TOp::Titles(mp(&[])),
        TOp::Descs(mp(&[("de", "c")])),
        TOp::Profile(st("p1")),
        TOp::Profile(st("p2")),
    ]
}

pub fn g_meta(n: u32) -> Gen<Prog> {
    of(meta_alphabet()).upto(n).x(&range(3)).map(|(mut v, fin)| {
        match fin {
            0 => {}
            1 => v.insert(0, TOp::Finish),
            _ => {
                let n = v.len();
                v.insert(n.div_ceil(2), TOp::Finish)
            }
        }
        prog(v)
    })
}

pub fn times() -> Vec<S> {
    let mut v = vec![];
    for d in ["0001-01-01", "1899-12-31", "1969-12-31", "1970-01-01", "2000-02-29", "2022-06-15", "2038-01-19", "9998-12-31"] {
        for t in ["00:00:00", "12:34:56.7", "23:59:59.999999999", "03:14:07.000001", "12:00:00.120"] {
            for z in ["Z", "+00:00", "-00:01", "+05:30", "-11:45", "+14:00", "+23:59", "-23:59"] {
                v.push(format!("{d}T{t}{z}"));
            }
        }
    }
    v
}

pub fn g_times() -> Gen<Prog> {
    of(times()).x(&range(3)).map(|(t, how)| {
        prog(match how {
            0 => vec![TOp::Created(t)],
            1 => vec![TOp::Modified(t)],
            _ => vec![TOp::Modified(t.clone()), TOp::Created(t)],
        })
    })
}

pub fn t01(th: bool) -> Check {
    Check {
        id: "T01",
        spaces: vec![
            space("setters", g_meta(if th { 4 } else { 3 })),
            space("date-times", g_times()),
            space("words close to the vocabulary", surrounded(&places(meta_strings(), near_vocabulary()))),
            space("similar strings", places(meta_pairs(), similar_pairs(true))),
            space("two members anywhere", g_member_pairs(th)),
            space("texts of any member", g_member_texts(odd_texts())),
            space("any members of a part", g_part_subsets(th)),
            space("three members anywhere", g_member_triples(th)),
            space("odd strings", surrounded(&places(meta_strings(), odd_strings()))),
            space(
                "contexts",
                of(vec![
                    TOp::Context(st("c1")),
                    TOp::Context(st("c2")),
                    TOp::Context(st(crate::model::CTX11)),
                    TOp::ContextMap(mp(&[("k", "v")])),
                    TOp::ContextMap(mp(&[])),
                ])
                .upto(if th { 7 } else { 6 })
                .map(prog),
            ),
            // Metadata is independent from what else is declared.
            space(
                "metadata and declarations",
                of(meta_alphabet())
                    .upto(2)
                    .x(&of(rich_ops()).upto(1))
                    .map(|(m, r)| {
                        let mut ops = rich_base();
                        ops.extend(m);
                        ops.push(TOp::Finish);
                        let at = ops.iter().position(|o| matches!(o, TOp::SchemaDef(..))).unwrap();
                        let sd = ops.remove(at);
                        ops.push(sd);
                        ops.extend(r);
                        prog(ops)
                    }),
            ),
            space("long lists", wide(meta_wide(), th)),
            Space::new(
                "setters, extended things",
                g_meta(2).map(|p| extify(&p, &mut Payload::new(1, 3, 0))),
                build_ext,
            ),
        ],
        assumptions: ASSUME.to_vec(),
        bounds: "setter sequences <= 3 (thorough 4) over 29 setters x 3 positions of the end of the extension phase; 320 date-times; context lists <= 6 (7) over 5 entries; lists up to 1025",
    }
}

// ---------------------------------------------------------------------------------------------
// B01

/// Permutations of independent operations: the model gives the same Thing for all of them.
fn perm_space(name: &str, sets: Vec<Vec<TOp>>) -> Space {
    let mut g: Option<Gen<Prog>> = None;
    for set in sets {
        let h = perms(set).map(post);
        g = Some(match g {
            None => h,
            Some(g) => g.or(&h),
        });
    }
    let g = g.unwrap();
    Space::new(name, g, build_twice)
}

/// All pairs a <= b <= n.
fn subset_pairs(n: usize) -> Gen<(usize, usize)> {
    of((0..=n).flat_map(|a| (a..=n).map(move |b| (a, b))).collect::<Vec<_>>())
}

pub fn b01(th: bool) -> Check {
    use AOp as A;
    let n = if th { 8 } else { 7 };
    // Independent: at most one operation of each list-like member.
    let full = vec![
        TOp::Security(vec![SecOp::Scheme(Scheme::NoSec), SecOp::Required]),
        TOp::SchemaDef(st("sd"), k(Ki::Bool)),
        TOp::Form(rich_form(0)),
        at_forms(1, "p", vec![rich_form(1)]).remove(0),
        at_forms(2, "a", vec![rich_form(2)]).remove(0),
        at_forms(3, "e", vec![rich_form(3)]).remove(0),
        TOp::UriVar(st("u"), k(Ki::Str)),
        TOp::LinkWith(vec![LOp::Href(st("h")), LOp::Rel(st("icon")), LOp::Sizes(st("1x1"))]),
    ];
    let meta = vec![
        TOp::Id(st("i")),
        TOp::Desc(st("d")),
        TOp::Version(st("v"), Some(st("m"))),
        TOp::Created(st("2022-01-02T03:04:05Z")),
        TOp::Support(st("s")),
        TOp::Base(st("b")),
        TOp::Titles(mp(&[("en", "a")])),
        TOp::AType(st("T")),
        TOp::Profile(st("p")),
    ];
    let names = vec![
        affordance(0, "a"),
        affordance(0, "b"),
        affordance(1, "a"),
        affordance(1, "b"),
        affordance(2, "a"),
        affordance(2, "b"),
        basic("a"),
        basic("b"),
    ];
    let sets: Vec<Vec<TOp>> = [&full, &meta, &names].iter().flat_map(|s| subsets(s, n.min(s.len()))).collect();
    // Faulty descriptions: the order does not turn a rejection into an acceptance.
    let faults = {
        let mut bad_form = ok_form(1);
        bad_form.push(FOp::Security(st("undefined")));
        let mut bad_resp = ok_form(2);
        bad_resp.push(FOp::AddResp(vec![AR::Schema(st("undeclared"))]));
        vec![
            at_forms(1, "p1", vec![bad_form]).remove(0),
            at_forms(2, "a1", vec![bad_resp]).remove(0),
            TOp::Form(vec![FOp::Href(st("h"))]),
            TOp::Form(ok_form(1)),
            TOp::LinkWith(vec![LOp::Href(st("h")), LOp::Sizes(st("1x1"))]),
            TOp::UriVar(st("u"), k(Ki::Object)),
            TOp::Titles(mp(&[("not a tag", "x")])),
            TOp::Event(st("e1"), vec![EOp::Data(kw(Ki::Integer, &[SOp::IMin(2), SOp::IMax(1)]))]),
            combo(None, true, &["undefined"]),
        ]
    };
    let mut fault_sets = vec![];
    for f in &faults {
        for g in &faults {
            let mut s = vec![f.clone(), TOp::Security(vec![SecOp::Scheme(Scheme::NoSec)]), affordance(0, "ok"), TOp::AType(st("T"))];
            if f != g {
                s.push(g.clone());
            }
            fault_sets.push(s);
        }
    }
    fault_sets.push(vec![affordance(0, "x"), affordance(0, "x"), affordance(1, "x"), affordance(1, "x"), basic("k"), basic("k")]);
    // Within one declaration
    let action = perms(vec![
        A::I(IOp::Title(st("t"))),
        A::I(IOp::Desc(st("d"))),
        A::Input(k(Ki::Bool)),
        A::Output(k(Ki::Object)),
        A::Safe,
        A::Sync(true),
        A::Form(ok_form(2)),
        A::UriVar(st("u"), k(Ki::Null)),
    ])
    .map(|v| post(vec![TOp::Action(st("a"), v)]));
    let event = perms(vec![
        EOp::I(IOp::Title(st("t"))),
        EOp::I(IOp::Titles(mp(&[("en", "x")]))),
        EOp::Subscription(k(Ki::Bool)),
        EOp::Data(k(Ki::Object)),
        EOp::Cancellation(k(Ki::Null)),
        EOp::DataResponse(k(Ki::Str)),
        EOp::Form(ok_form(3)),
        EOp::UriVar(st("u"), k(Ki::Null)),
    ])
    .map(|v| post(vec![TOp::Event(st("a"), v)]));
    // The choice of kind separates two phases.
    let property = perms(vec![
        SOp::I(IOp::Title(st("t"))),
        SOp::I(IOp::AType(st("T"))),
        SOp::Unit(st("u")),
        SOp::Format(st("f")),
        SOp::Default(json!(1)),
        SOp::Form(ok_form(1)),
        SOp::UriVar(st("u"), k(Ki::Null)),
        SOp::Observable(true),
    ])
    .x(&range(9))
    .map(|(mut v, at)| {
        v.splice(at as usize..at as usize, [SOp::Finish, SOp::Kind(Ki::Integer)]);
        post(vec![TOp::Property(st("a"), v)])
    });
    let form = perms(vec![
        FOp::Href(st("h")),
        FOp::CType(st("c")),
        FOp::CCoding(st("g")),
        FOp::Subproto(st("s")),
        FOp::Security(st("k")),
        FOp::Scope(st("x")),
        FOp::ResponseDefault(st("r")),
        FOp::AddResp(vec![AR::CType(st("y"))]),
    ])
    .x(&range(4))
    .map(|(mut v, site)| {
        v.push(FOp::Op(legal_op(site)));
        post(vec![form1(site, v), basic("k")])
    });
    let number = perms(vec![
        SOp::NXMin(F(1.0)),
        SOp::NMax(F(2.0)),
        SOp::NMul(F(0.5)),
        SOp::Unit(st("u")),
        SOp::I(IOp::Title(st("t"))),
        SOp::Default(json!(1.5)),
    ])
    .x(&range(7))
    .map(|(mut v, ro)| {
        if ro < 6 {
            v.insert(ro as usize, SOp::ReadOnly);
        }
        let mut s = k(Ki::Number);
        s.extend(v);
        post(vec![at_schema(2, "x", s)])
    });
    let sec = perms(vec![
        SecOp::Key(st("k")),
        SecOp::Required,
        SecOp::AType(st("T")),
        SecOp::Desc(st("d")),
        SecOp::Proxy(st("p")),
        SecOp::Descs(mp(&[("en", "x")])),
    ])
    .x(&range(7))
    .map(|(mut v, at)| {
        v.insert(at as usize, SecOp::Scheme(Scheme::Digest));
        v.push(SecOp::Qop(1));
        prog(vec![TOp::Security(v)])
    });
    let object = perms(vec![
        SOp::Prop(st("a"), false, k(Ki::Bool)),
        SOp::Prop(st("b"), false, k(Ki::Str)),
        SOp::Prop(st("c"), true, k(Ki::Null)),
        SOp::Prop(st("d"), false, k(Ki::Object)),
        SOp::Format(st("f")),
    ])
    .x(&of(OPEN_SITES.to_vec()))
    .map(|(v, site)| {
        let mut s = k(Ki::Object);
        s.extend(v);
        post(vec![at_schema(site, "x", s)])
    });
    // Every scheme, every kind of schema: one setter of each sort.
    fn sorts<T: Clone>(v: &[T]) -> Vec<T> {
        let mut seen = vec![];
        v.iter().filter(|o| {
            let d = std::mem::discriminant(*o);
            !seen.contains(&d) && { seen.push(d); true }
        }).cloned().collect()
    }
    let mut all_schemes: Option<Gen<Prog>> = None;
    for (s, like) in schemes() {
        let common = vec![SecOp::Key(st("k")), SecOp::Required, SecOp::Desc(st("d")), SecOp::Proxy(st("p"))];
        let (before, scheme) = (common.clone(), s.clone());
        let mut after = sorts(&like);
        after.extend(common[..2].iter().cloned());
        let g = perms(before).x(&range(5)).map(move |(mut v, at)| {
            v.insert(at as usize, SecOp::Scheme(scheme.clone()));
            with_refs(v)
        });
        let h = perms(after).map(move |v| {
            let mut o = vec![SecOp::Scheme(s.clone())];
            o.extend(v);
            with_refs(o)
        });
        let g = g.or(&h);
        all_schemes = Some(match all_schemes {
            None => g,
            Some(a) => a.or(&g),
        });
    }
    // Combinations: a list after the scheme, the rest anywhere.
    let combos = perms(vec![SecOp::Key(st("k")), SecOp::Required, SecOp::Desc(st("d")), SecOp::AType(st("T"))])
        .x(&subset_pairs(4))
        .x(&range(2))
        .map(|((v, (a, b)), all)| {
            let mut o: Vec<SecOp> = v[..a].to_vec();
            o.push(SecOp::Scheme(Scheme::Combo));
            o.extend(v[a..b].iter().cloned());
            o.push(if all == 0 { SecOp::AllOf(sv(&["z", "z2"])) } else { SecOp::OneOf(sv(&["z2", "z"])) });
            o.extend(v[b..].iter().cloned());
            with_refs(o)
        });
    let all_schemes = all_schemes.unwrap().or(&combos);
    let mut all_kinds: Option<Gen<Prog>> = None;
    for (kind, like, rw, rwlike) in kinds() {
        let mut own = sorts(&like);
        own.extend([SOp::Unit(st("u")), SOp::I(IOp::Title(st("t")))]);
        if rwlike {
            own.truncate(6);
        }
        let n = own.len() as u64;
        let g = perms(own).x(&range(if rw && rwlike { n + 1 } else { 1 })).x(&range(2)).map(move |((mut v, at), site)| {
            if rw && rwlike {
                v.insert(at as usize, SOp::WriteOnly);
            }
            v.splice(0..0, [SOp::Finish, kind.clone()]);
            post(vec![at_schema([1, 3][site as usize], "x", v)])
        });
        all_kinds = Some(match all_kinds {
            None => g,
            Some(a) => a.or(&g),
        });
    }
    let links = perms(vec![
        LOp::Href(st("h")),
        LOp::Ty(st("t")),
        LOp::Rel(st("icon")),
        LOp::Anchor(st("a")),
        LOp::Sizes(st("1x1")),
        LOp::HrefLang(st("en")),
        LOp::HrefLang(st("fr")),
    ])
    .map(|v| prog(vec![TOp::LinkWith(v)]));
    // The calls that make a list keep their order, all others come between them anywhere.
    let long = if th { 3 } else { 2 };
    let lists_of_forms = of(vec![0u64, 1, 2, 3]).sum(move |site| {
        let ops = [[9u8, 10, 11], [0, 1, 2], [4, 4, 4], [7, 8, 7]][site as usize];
        interleaved(vec![
            ops[..long].iter().map(|o| FOp::Op(*o)).collect(),
            vec![FOp::Security(st("k")), FOp::Security(st("k2"))],
            vec![FOp::Scope(st("y")), FOp::Scope(st("x"))],
            vec![FOp::AddResp(vec![AR::CType(st("y"))]), FOp::AddResp(vec![AR::Success])],
            vec![FOp::Href(st("h"))],
        ])
        .or(&interleaved(vec![
            ops.iter().map(|o| FOp::Op(*o)).collect(),
            vec![FOp::Security(st("k")), FOp::Security(st("k2"))],
            vec![FOp::Href(st("h"))],
            vec![FOp::CType(st("c"))],
            vec![FOp::ResponseDefault(st("r"))],
        ]))
        .map(move |v| post(vec![form1(site, v), basic("k"), basic("k2")]))
    });
    let forms_of = |site: u64| {
        let op = legal_op(site);
        (0..long + 1).map(|i| vec![FOp::Href(format!("h{i}")), FOp::Op(op), FOp::CType(format!("c{}", 7 - i))]).collect::<Vec<_>>()
    };
    let lists_of_affordances = interleaved(vec![
        forms_of(2).into_iter().map(A::Form).collect(),
        vec![A::UriVar(st("v"), k(Ki::Null)), A::UriVar(st("u"), k(Ki::Bool))],
        vec![A::Input(k(Ki::Bool))],
        vec![A::Safe],
        vec![A::I(IOp::Title(st("t")))],
    ])
    .map(|v| post(vec![TOp::Action(st("a"), v)]))
    .or(&interleaved(vec![
        forms_of(3).into_iter().map(EOp::Form).collect(),
        vec![EOp::UriVar(st("v"), k(Ki::Null)), EOp::UriVar(st("u"), k(Ki::Bool))],
        vec![EOp::Data(k(Ki::Bool))],
        vec![EOp::Cancellation(k(Ki::Str))],
        vec![EOp::I(IOp::Title(st("t")))],
    ])
    .map(|v| post(vec![TOp::Event(st("a"), v)])))
    .or(&interleaved(vec![
        forms_of(1).into_iter().map(SOp::Form).collect(),
        vec![SOp::UriVar(st("v"), k(Ki::Null)), SOp::UriVar(st("u"), k(Ki::Bool))],
        vec![SOp::Finish, SOp::Kind(Ki::Bool)],
        vec![SOp::Observable(true)],
        vec![SOp::I(IOp::Title(st("t")))],
    ])
    .map(|v| post(vec![TOp::Property(st("a"), v)])));
    let lists_of_schemas = of(vec![0usize, 1, 2, 3]).x(&of(vec![0u64, 1, 4, 11])).sum(move |(what, site)| {
        let sub = |i: usize| if i % 2 == 0 { kw(Ki::Integer, &[SOp::IMin(i as i64)]) } else { kw(Ki::Tuple, &[SOp::Append(k(Ki::Null))]) };
        let list: Vec<SOp> = (0..4)
            .map(|i| match what {
                0 => SOp::Append(sub(i)),
                1 => SOp::OneOf(sub(i)),
                2 => SOp::Enum(json!(3 - i)),
                _ => SOp::Prop(format!("n{}", 3 - i), i % 2 == 0, sub(i)),
            })
            .collect();
        // The first choice makes the kind.
        let head = match what {
            0 => vec![SOp::Finish, SOp::Kind(Ki::Tuple)],
            3 => vec![SOp::Finish, SOp::Kind(Ki::Object)],
            _ => vec![SOp::Finish],
        };
        let mut main = head;
        main.extend(list);
        let mut lists = vec![main, vec![SOp::I(IOp::Title(st("t"))), SOp::I(IOp::Title(st("t2")))], vec![SOp::Unit(st("u"))]];
        if site == 0 {
            lists.push(vec![SOp::Form(ok_form(1))]);
        } else {
            lists.push(vec![SOp::Default(json!(1))]);
        }
        interleaved(lists).map(move |v| {
            post(vec![match site {
                0 => TOp::Property(st("x"), v),
                _ => at_schema(site, "x", v),
            }])
        })
    });
    let lists_of_security = of(vec![
        vec![
            vec![
                SecOp::Scheme(Scheme::OAuth2(st("code"))),
                SecOp::Scope(st("c")),
                SecOp::Scope(st("a")),
                SecOp::Scope(st("b")),
            ],
            vec![SecOp::Key(st("k"))],
            vec![SecOp::Required],
            vec![SecOp::Desc(st("d")), SecOp::Desc(st("e"))],
            vec![SecOp::Proxy(st("p"))],
        ],
        vec![
            vec![
                SecOp::Scheme(Scheme::Combo),
                SecOp::AllOf(sv(&["z2"])),
                SecOp::Push(st("z")),
                SecOp::Extend(sv(&["z2", "z"])),
                SecOp::Push(st("z2")),
            ],
            vec![SecOp::Key(st("k"))],
            vec![SecOp::Required],
            vec![SecOp::Desc(st("d"))],
        ],
        vec![
            vec![SecOp::Scheme(Scheme::Combo), SecOp::OneOf(sv(&["z2", "z"])), SecOp::Push(st("z")), SecOp::Extend(sv(&["z"]))],
            vec![SecOp::AType(st("T")), SecOp::AType(st("S")), SecOp::AType(st("U"))],
            vec![SecOp::Required],
        ],
    ])
    .sum(|lists| interleaved(lists).map(with_refs));
    let things = [
        vec![TOp::Form(rich_form(0)), TOp::Form(vec![FOp::Href(st("z")), FOp::Op(9)]), TOp::Form(vec![FOp::Href(st("b")), FOp::Op(10)])],
        vec![TOp::Link(st("z")), TOp::LinkWith(vec![LOp::Href(st("y")), LOp::Rel(st("r"))]), TOp::Link(st("a"))],
        vec![
            TOp::Security(vec![SecOp::Scheme(Scheme::NoSec), SecOp::Required]),
            TOp::Security(vec![SecOp::Key(st("b")), SecOp::Scheme(Scheme::Basic), SecOp::Required]),
            TOp::Security(vec![SecOp::Key(st("a")), SecOp::Scheme(Scheme::NoSec), SecOp::Required]),
        ],
        vec![TOp::Context(st("http://z")), TOp::ContextMap(mp(&[("p", "http://m")])), TOp::Context(st("http://a"))],
        vec![TOp::Profile(st("z")), TOp::Profile(st("p")), TOp::Profile(st("a"))],
        vec![TOp::AType(st("Z")), TOp::AType(st("B")), TOp::AType(st("A"))],
        vec![affordance(0, "z"), affordance(1, "z"), affordance(0, "a")],
        vec![TOp::UriVar(st("z"), k(Ki::Str)), TOp::SchemaDef(st("sd"), k(Ki::Bool)), TOp::UriVar(st("a"), k(Ki::Bool))],
    ];
    let pairs: Vec<(usize, usize)> = (0..things.len()).flat_map(|a| (0..a).map(move |b| (a, b))).collect();
    let lists_of_things = of(pairs).sum(move |(a, b)| {
        let (x, y) = (things[a].clone(), things[b].clone());
        interleaved(vec![x, y, vec![TOp::Id(st("i"))], vec![TOp::Desc(st("d"))]])
            .x(&range(2))
            .map(|(mut v, sec)| {
                if !v.iter().any(|o| matches!(o, TOp::SchemaDef(..))) {
                    v.push(TOp::SchemaDef(st("sd"), k(Ki::Bool)));
                }
                if sec == 0 && !v.iter().any(|o| matches!(o, TOp::Security(s) if s.contains(&SecOp::Scheme(Scheme::NoSec)))) {
                    v.push(TOp::Security(vec![SecOp::Scheme(Scheme::NoSec), SecOp::Required]));
                }
                post(v)
            })
    });
    let inner = |n: &str, g: Gen<Prog>| Space::new(n, g, build_twice);
    Check {
        id: "B01",
        spaces: vec![
            perm_space("orders of thing level calls", sets),
            perm_space("orders of faulty declarations", fault_sets),
            inner("orders within an action", action),
            inner("orders within an event", event),
            inner("orders within a property", property),
            inner("orders within a form", form),
            inner("orders within a number schema", number),
            inner("orders within an object schema", object),
            inner("orders within a security scheme", sec),
            inner("orders within every scheme", all_schemes),
            inner("orders within every kind of schema", all_kinds.unwrap()),
            inner("orders within a link", links),
            inner("lists and other members of forms", lists_of_forms),
            inner("lists and other members of affordances", lists_of_affordances),
            inner("lists and other members of schemas", lists_of_schemas),
            inner("lists and other members of security schemes", lists_of_security),
            inner("lists and other members of things", lists_of_things),
        ],
        assumptions: ASSUME.to_vec(),
        bounds: "all permutations of every 7 (thorough 8) of 8-9 independent thing level calls, of 4-6 declarations with one or two faults, and of 5-8 independent setters of each kind of declaration",
    }
}
