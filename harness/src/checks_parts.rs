//! The parts of a Thing on their own: the public serialization, parsing, default and conversion
//! interfaces of every type below a Thing.

use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use wot_td::{
    extend::ExtendableThing,
    hlist::Nil,
    thing::*,
};

use crate::{
    alpha::similar_pairs,
    atoms::g_member_pairs, atoms::g_member_texts, atoms::g_part_subsets, atoms::odd_texts,
    checks_build::places,
    checks_json::{corpus, ext_corpus, pair_places, ASSUME, BOUNDS},
    dump,
    engine::{digest, Bad, Check, Res, Seen, Space},
    ext::AB,
    judge::*,
    model::with_ext,
    prog::*,
};

/// What is known of the part at `at` of a document.
struct Walk {
    steps: u64,
    parts: u64,
}

/// The `i`th value of a list, which may be written as its only value.
fn nth<'a>(v: &'a Value, name: &str, i: usize) -> Result<&'a Value, Bad> {
    match &v[name] {
        Value::Array(a) => a.get(i),
        Value::Null => None,
        x => (i == 0).then_some(x),
    }
    .ok_or_else(|| Bad::new(format!("{name}/{i} is not in the document {v}")))
}

fn member<'a>(v: &'a Value, name: &str) -> Result<&'a Value, Bad> {
    v.get(name).ok_or_else(|| Bad::new(format!("{name} is not in the document {v}")))
}

impl Walk {
    /// `part` is written as `doc`, and `doc` is read as `part`.
    fn part<T, D>(&mut self, what: &str, part: &T, doc: &Value, dump: impl Fn(&T) -> D) -> Result<(), Bad>
    where
        T: Serialize + DeserializeOwned + PartialEq,
        D: Serialize + PartialEq,
    {
        let v = to_value(part)?;
        if v != *doc {
            return bad(format!("{what}: alone it is written differently: {}", diff(&v, doc)));
        }
        self.reads(what, part, doc, dump)
    }

    /// `doc` (maybe with members that are not its own) is read as `part`.
    fn reads<T, D>(&mut self, what: &str, part: &T, doc: &Value, dump: impl Fn(&T) -> D) -> Result<(), Bad>
    where
        T: Serialize + DeserializeOwned + PartialEq,
        D: Serialize + PartialEq,
    {
        let want = dump(part);
        for (how, r) in [
            ("value", from_value::<T>(doc.clone())),
            ("text", from_text::<T>(&doc.to_string())),
            ("pretty text", from_text::<T>(&format!("{doc:#}"))),
        ] {
            match r {
                Err(e) => return bad(format!("{what}: alone ({how}) it is not parsed: {e}: {doc}")),
                Ok(back) => {
                    let got = dump(&back);
                    if got != want {
                        return bad(format!("{what}: alone ({how}) it is parsed differently: {}", diff(&got, &want)));
                    }
                    if back != *part {
                        return bad(format!("{what}: alone ({how}) it is parsed as something unequal: {doc}"));
                    }
                }
            }
        }
        self.steps += 4;
        self.parts += 1;
        Ok(())
    }

    /// `part` is written as members of `doc`, and `doc` is read as `part`.
    fn within<T, D>(&mut self, what: &str, part: &T, doc: &Value, dump: impl Fn(&T) -> D) -> Result<(), Bad>
    where
        T: Serialize + DeserializeOwned + PartialEq,
        D: Serialize + PartialEq,
    {
        let v = to_value(part)?;
        for (k, x) in v.as_object().into_iter().flatten() {
            if doc.get(k) != Some(x) {
                return bad(format!("{what}: {k} is {x} alone, and not so in {doc}"));
            }
        }
        self.reads(what, part, doc, &dump)?;
        self.reads(what, part, &v, dump)
    }
}

macro_rules! walks {
    ($name:ident, $other:ty) => {
        pub mod $name {
            use super::*;
            type O = $other;
            type Ds = DataSchema<
                <O as ExtendableThing>::DataSchema,
                <O as ExtendableThing>::ArraySchema,
                <O as ExtendableThing>::ObjectSchema,
            >;

            fn schema(w: &mut Walk, s: &Ds, doc: &Value) -> Result<(), Bad> {
                w.part("data schema", s, doc, dump::schema)?;
                inside(w, s, doc)
            }

            fn inside(w: &mut Walk, s: &Ds, doc: &Value) -> Result<(), Bad> {
                for (i, s) in s.one_of.iter().flatten().enumerate() {
                    schema(w, s, nth(doc, "oneOf", i)?)?;
                }
                match &s.subtype {
                    Some(DataSchemaSubtype::Array(a)) => {
                        w.within("array", a, doc, |a| dump::schema(&of_sub(DataSchemaSubtype::Array(a.clone()))))?;
                        match &a.items {
                            Some(BoxedElemOrVec::Elem(s)) => schema(w, s, member(doc, "items")?)?,
                            Some(BoxedElemOrVec::Vec(v)) => {
                                for (i, s) in v.iter().enumerate() {
                                    schema(w, s, nth(doc, "items", i)?)?;
                                }
                            }
                            None => {}
                        }
                    }
                    Some(DataSchemaSubtype::Object(o)) => {
                        w.within("object", o, doc, |o| dump::schema(&of_sub(DataSchemaSubtype::Object(o.clone()))))?;
                        for (n, s) in o.properties.iter().flatten() {
                            schema(w, s, member(member(doc, "properties")?, n)?)?;
                        }
                    }
                    Some(DataSchemaSubtype::Number(n)) => {
                        w.within("number", n, doc, |n| dump::schema(&of_sub(DataSchemaSubtype::Number(n.clone()))))?
                    }
                    Some(DataSchemaSubtype::Integer(n)) => {
                        w.within("integer", n, doc, |n| dump::schema(&of_sub(DataSchemaSubtype::Integer(n.clone()))))?
                    }
                    Some(DataSchemaSubtype::String(n)) => {
                        w.within("string", n, doc, |n| dump::schema(&of_sub(DataSchemaSubtype::String(n.clone()))))?
                    }
                    Some(DataSchemaSubtype::Boolean | DataSchemaSubtype::Null) | None => {}
                }
                if let Some(sub) = &s.subtype {
                    w.within("subtype", sub, doc, |s| dump::schema(&of_sub(s.clone())))?;
                }
                Ok(())
            }

            fn of_sub(
                sub: DataSchemaSubtype<
                    <O as ExtendableThing>::DataSchema,
                    <O as ExtendableThing>::ArraySchema,
                    <O as ExtendableThing>::ObjectSchema,
                >,
            ) -> Ds {
                Ds { subtype: Some(sub), ..Default::default() }
            }

            fn form(w: &mut Walk, f: &Form<O>, doc: &Value) -> Result<(), Bad> {
                w.part("form", f, doc, dump::form)?;
                let copy = f.clone();
                if copy != *f || dump::form(&copy) != dump::form(f) {
                    return bad(format!("form: its copy differs: {}", diff(&dump::form(&copy), &dump::form(f))));
                }
                if f.op.is_default() != doc.get("op").is_none() {
                    return bad(format!("form: default operations and {doc}"));
                }
                for (i, o) in match &f.op {
                    DefaultedFormOperations::Custom(v) => v.iter().enumerate(),
                    DefaultedFormOperations::Default => [].iter().enumerate(),
                } {
                    w.part("operation", o, nth(doc, "op", i)?, |o| dump::op_name(*o))?;
                    if nth(doc, "op", i)?.as_str() != Some(&o.to_string()) {
                        return bad(format!("operation: displayed as {o}, but {doc}"));
                    }
                }
                if let Some(r) = &f.response {
                    w.part("response", r, member(doc, "response")?, |r| {
                        dump::form(&Form::<O> { response: Some(r.clone()), ..Default::default() })
                    })?;
                }
                for (i, r) in f.additional_responses.iter().flatten().enumerate() {
                    w.part("additional response", r, nth(doc, "additionalResponses", i)?, |r| {
                        dump::form(&Form::<O> { additional_responses: Some(vec![r.clone()]), ..Default::default() })
                    })?;
                }
                Ok(())
            }

            fn interaction(w: &mut Walk, a: &InteractionAffordance<O>, doc: &Value) -> Result<(), Bad> {
                w.within("interaction", a, doc, |a| {
                    dump::evt(&EventAffordance::<O> { interaction: copied(a), ..Default::default() })
                })?;
                for (i, f) in a.forms.iter().enumerate() {
                    form(w, f, nth(doc, "forms", i)?)?;
                }
                for (n, s) in a.uri_variables.iter().flatten() {
                    schema(w, s, member(member(doc, "uriVariables")?, n)?)?;
                }
                Ok(())
            }

            fn copied(a: &InteractionAffordance<O>) -> InteractionAffordance<O> {
                let mut c = InteractionAffordance::<O>::default();
                c.attype = a.attype.clone();
                c.title = a.title.clone();
                c.titles = a.titles.clone();
                c.description = a.description.clone();
                c.descriptions = a.descriptions.clone();
                c.forms = a.forms.clone();
                c.uri_variables = a.uri_variables.clone();
                c.other = a.other.clone();
                c
            }

            pub fn walk(p: &Prog) -> Res {
                let Some(t) = built::<O>(p) else { return skipped() };
                let v = to_value(&t)?;
                let mut w = Walk { steps: 0, parts: 0 };
                for (n, a) in t.properties.iter().flatten() {
                    let doc = member(&v["properties"], n)?;
                    w.part("property", a, doc, dump::prop)?;
                    interaction(&mut w, &a.interaction, doc)?;
                    w.within("schema of a property", &a.data_schema, doc, dump::schema)?;
                    inside(&mut w, &a.data_schema, doc)?;
                }
                for (n, a) in t.actions.iter().flatten() {
                    let doc = member(&v["actions"], n)?;
                    w.part("action", a, doc, dump::act)?;
                    interaction(&mut w, &a.interaction, doc)?;
                    for (n, s) in [("input", &a.input), ("output", &a.output)] {
                        if let Some(s) = s {
                            schema(&mut w, s, member(doc, n)?)?;
                        }
                    }
                }
                for (n, a) in t.events.iter().flatten() {
                    let doc = member(&v["events"], n)?;
                    w.part("event", a, doc, dump::evt)?;
                    interaction(&mut w, &a.interaction, doc)?;
                    let snake = ["data_response", "dataResponse"].into_iter().find(|n| doc.get(n).is_some());
                    for (n, s) in [
                        ("subscription", &a.subscription),
                        ("data", &a.data),
                        ("cancellation", &a.cancellation),
                        (snake.unwrap_or("dataResponse"), &a.data_response),
                    ] {
                        if let Some(s) = s {
                            schema(&mut w, s, member(doc, n)?)?;
                        }
                    }
                }
                for (i, l) in t.links.iter().flatten().enumerate() {
                    w.part("link", l, nth(&v, "links", i)?, dump::link)?;
                }
                for (i, f) in t.forms.iter().flatten().enumerate() {
                    form(&mut w, f, nth(&v, "forms", i)?)?;
                }
                for (n, s) in &t.security_definitions {
                    let doc = member(&v["securityDefinitions"], n)?;
                    w.part("security scheme", s, doc, dump::sec)?;
                    use KnownSecuritySchemeSubtype::*;
                    let of = |subtype| dump::sec(&SecurityScheme { subtype, ..Default::default() });
                    match &s.subtype {
                        SecuritySchemeSubtype::Known(Combo(x)) => w.within("subtype of a scheme", x, doc, |x| {
                            of(SecuritySchemeSubtype::Known(Combo(x.clone())))
                        })?,
                        SecuritySchemeSubtype::Known(Basic(x)) => w.within("subtype of a scheme", x, doc, |x| {
                            of(SecuritySchemeSubtype::Known(Basic(x.clone())))
                        })?,
                        SecuritySchemeSubtype::Known(Digest(x)) => w.within("subtype of a scheme", x, doc, |x| {
                            of(SecuritySchemeSubtype::Known(Digest(x.clone())))
                        })?,
                        SecuritySchemeSubtype::Known(Bearer(x)) => w.within("subtype of a scheme", x, doc, |x| {
                            of(SecuritySchemeSubtype::Known(Bearer(x.clone())))
                        })?,
                        SecuritySchemeSubtype::Known(Psk(x)) => w.within("subtype of a scheme", x, doc, |x| {
                            of(SecuritySchemeSubtype::Known(Psk(x.clone())))
                        })?,
                        SecuritySchemeSubtype::Known(OAuth2(x)) => w.within("subtype of a scheme", x, doc, |x| {
                            of(SecuritySchemeSubtype::Known(OAuth2(x.clone())))
                        })?,
                        SecuritySchemeSubtype::Known(ApiKey(x)) => w.within("subtype of a scheme", x, doc, |x| {
                            of(SecuritySchemeSubtype::Known(ApiKey(x.clone())))
                        })?,
                        SecuritySchemeSubtype::Known(NoSec | Auto) | SecuritySchemeSubtype::Unknown(_) => {}
                    }
                    if let SecuritySchemeSubtype::Known(k) = &s.subtype {
                        w.within("kind of a scheme", k, doc, |k| of(SecuritySchemeSubtype::Known(k.clone())))?;
                    }
                }
                for (n, s) in t.uri_variables.iter().flatten() {
                    schema(&mut w, s, member(&v["uriVariables"], n)?)?;
                }
                for (n, s) in t.schema_definitions.iter().flatten() {
                    schema(&mut w, s, member(&v["schemaDefinitions"], n)?)?;
                }
                if let Some(x) = &t.version {
                    w.part("version", x, member(&v, "version")?, |x| (x.instance.clone(), x.model.clone()))?;
                }
                Ok(Seen {
                    state: digest(&dump::thing(&t)),
                    steps: p.calls() + w.steps,
                })
            }
        }
    };
}

walks!(plain, Nil);
walks!(extended, AB);

pub fn j05(th: bool) -> Check {
    let mut spaces: Vec<Space> = corpus(th).into_iter().map(|(n, g)| Space::new(n, g, plain::walk)).collect();
    spaces.push(Space::new("extended things", ext_corpus(false), |p: &Prog| with_ext(true, || extended::walk(p))));
    spaces.push(Space::new("similar strings", places(pair_places(), similar_pairs(false)), plain::walk));
    spaces.push(Space::new("two members anywhere", g_member_pairs(th), plain::walk));
    spaces.push(Space::new("texts of any member", g_member_texts(odd_texts()), plain::walk));
    spaces.push(Space::new("any members of a part", g_part_subsets(th), plain::walk));
    Check {
        id: "J05",
        spaces,
        assumptions: ASSUME.to_vec(),
        bounds: BOUNDS,
    }
}
