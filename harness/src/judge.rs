//! The verdict on one execution.

use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use wot_td::{hlist::Nil, thing::Thing};

use crate::{
    drive::{self, guard, Real},
    dump::{self, Dumpable},
    engine::{digest, Bad, Res, Seen},
    ext::AB,
    json::{self, Read},
    model::{interpret, violations_of_thing, with_ext, MThing},
    prog::*,
};

/// The first place where two values differ.
pub fn diff<T: Serialize>(got: &T, want: &T) -> String {
    fn go(a: &Value, b: &Value, at: &str) -> Option<String> {
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for (k, v) in x {
                    match y.get(k) {
                        None => return Some(format!("{at}/{k}: unexpected {v}")),
                        Some(w) => {
                            if let Some(d) = go(v, w, &format!("{at}/{k}")) {
                                return Some(d);
                            }
                        }
                    }
                }
                y.iter()
                    .find(|(k, _)| !x.contains_key(*k))
                    .map(|(k, w)| format!("{at}/{k}: missing {w}"))
            }
            (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x
                .iter()
                .zip(y)
                .enumerate()
                .find_map(|(i, (v, w))| go(v, w, &format!("{at}/{i}"))),
            _ => (a != b).then(|| format!("{at}: got {a}, expected {b}")),
        }
    }
    let (a, b) = (serde_json::to_value(got).unwrap(), serde_json::to_value(want).unwrap());
    let d = go(&a, &b, "").unwrap_or_else(|| "(same text)".into());
    d.chars().take(1500).collect()
}

pub fn bad<T>(what: impl Into<String>) -> Result<T, Bad> {
    Err(Bad::new(what))
}

pub fn same(what: &str, got: &MThing, want: &MThing) -> Result<(), Bad> {
    if got == want {
        Ok(())
    } else {
        bad(format!("{what}: {}", diff(got, want)))
    }
}

fn judge_outcome<O: Dumpable>(p: &Prog, real: Real<Thing<O>>) -> Res {
    let o = interpret(p);
    let state = match real {
        Real::Panicked(m) => return bad(format!("the builder panicked: {m}")),
        Real::Rejected(key) => {
            if o.viols.is_empty() {
                return bad(format!("a valid description was rejected: {key}"));
            }
            if !o.viols.iter().any(|v| v.keys.contains(&key)) {
                return bad(format!("rejected with {key}, but the faults are {:?}", o.viols));
            }
            digest(&key)
        }
        Real::Built(t) => {
            if let Some(v) = o.viols.first() {
                return bad(format!("accepted in spite of {:?}", v.keys));
            }
            let got = dump::thing(&t);
            same("the built Thing is not what was declared", &got, &o.thing)?;
            if let Some(v) = violations_of_thing(&got).first() {
                return bad(format!("the built Thing has the fault {:?}", v.keys));
            }
            digest(&got)
        }
    };
    Ok(Seen {
        state,
        steps: p.calls(),
    })
}

/// The builder does to `p` exactly what the model says.
pub fn build(p: &Prog) -> Res {
    judge_outcome(p, drive::run(p))
}

/// The same, properties being converted by `into_usable` before the Thing gets them.
pub fn build_converted(p: &Prog) -> Res {
    judge_outcome(p, drive::run_converted(p))
}

pub fn build_ext(p: &Prog) -> Res {
    with_ext(true, || judge_outcome(p, drive::run_ext(p)))
}

/// Building twice gives the same result.
pub fn build_twice(p: &Prog) -> Res {
    let s = build(p)?;
    match (drive::run(p), drive::run(p)) {
        (Real::Built(a), Real::Built(b)) => {
            same("two builds differ", &dump::thing(&a), &dump::thing(&b))?;
            match (guard(|| serde_json::to_value(&a)), guard(|| serde_json::to_value(&b))) {
                (Ok(Ok(x)), Ok(Ok(y))) if x != y => return bad(format!("two serializations differ: {}", diff(&x, &y))),
                _ => {}
            }
        }
        (Real::Rejected(a), Real::Rejected(b)) if a == b => {}
        (a, b) => {
            let f = |r: Real<Thing<Nil>>| match r {
                Real::Built(_) => "built".to_string(),
                Real::Rejected(e) => e,
                Real::Panicked(m) => m,
            };
            return bad(format!("two builds differ: {} / {}", f(a), f(b)));
        }
    }
    Ok(Seen {
        state: s.state,
        steps: s.steps * 3,
    })
}

// ---------------------------------------------------------------------------------------------
// JSON

pub trait Mode: Dumpable + Sized
where
    Thing<Self>: Serialize + DeserializeOwned + PartialEq,
{
    const EXT: bool;
    fn run(p: &Prog) -> Real<Thing<Self>>;
}

impl Mode for Nil {
    const EXT: bool = false;
    fn run(p: &Prog) -> Real<Thing<Self>> {
        drive::run(p)
    }
}

impl Mode for AB {
    const EXT: bool = true;
    fn run(p: &Prog) -> Real<Thing<Self>> {
        drive::run_ext(p)
    }
}

/// The Thing the real builder makes of `p`, if it makes one.
pub fn built<O: Mode>(p: &Prog) -> Option<Thing<O>>
where
    Thing<O>: Serialize + DeserializeOwned + PartialEq,
{
    match O::run(p) {
        Real::Built(t) => Some(t),
        _ => None,
    }
}

pub fn skipped() -> Res {
    Ok(Seen { state: 0, steps: 1 })
}

/// Renames the `data_response` member of events (listed finding) to `dataResponse`.
pub fn undo_snake(v: &mut Value) -> bool {
    let mut found = false;
    if let Some(Value::Object(m)) = v.get_mut("events") {
        for e in m.values_mut() {
            if let Value::Object(e) = e {
                if let Some(d) = e.remove("data_response") {
                    e.insert("dataResponse".into(), d);
                    found = true;
                }
            }
        }
    }
    found
}

pub fn to_value<T: Serialize>(t: &T) -> Result<Value, Bad> {
    match guard(|| serde_json::to_value(t)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => bad(format!("cannot be serialized: {e}")),
        Err(m) => bad(format!("serialization panicked: {m}")),
    }
}

pub fn from_value<T: DeserializeOwned>(v: Value) -> Result<T, String> {
    match guard(|| serde_json::from_value::<T>(v)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(e.to_string()),
        Err(m) => Err(format!("PANIC {m}")),
    }
}

pub fn from_text<T: DeserializeOwned>(s: &str) -> Result<T, String> {
    match guard(|| serde_json::from_str::<T>(s)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(e.to_string()),
        Err(m) => Err(format!("PANIC {m}")),
    }
}

/// Thing -> JSON -> Thing is the identity.
pub fn round_trip<O: Mode>(p: &Prog) -> Res
where
    Thing<O>: Serialize + DeserializeOwned + PartialEq,
{
    let Some(t) = built::<O>(p) else { return skipped() };
    round_trip_of(&t, p.calls())
}

pub fn round_trip_of<O: Mode>(t: &Thing<O>, calls: u64) -> Res
where
    Thing<O>: Serialize + DeserializeOwned + PartialEq,
{
    let want = dump::thing(t);
    let v = to_value(t)?;
    let text = match guard(|| serde_json::to_string(t)) {
        Ok(Ok(s)) => s,
        r => return bad(format!("cannot be written as text: {r:?}")),
    };
    match serde_json::from_str::<Value>(&text) {
        Ok(x) if x == v => {}
        Ok(x) => return bad(format!("the text and value forms differ: {}", diff(&x, &v))),
        Err(e) => return bad(format!("the text is not JSON: {e}")),
    }
    for (how, r) in [
        ("value", from_value::<Thing<O>>(v.clone())),
        ("text", from_text::<Thing<O>>(&text)),
        (
            "bytes",
            match guard(|| serde_json::from_reader::<_, Thing<O>>(text.as_bytes())) {
                Ok(r) => r.map_err(|e| e.to_string()),
                Err(m) => Err(m),
            },
        ),
    ] {
        match r {
            Err(e) => return bad(format!("its own JSON ({how}) is not parsed back: {e}")),
            Ok(back) => {
                same(&format!("parsing back ({how}) changes it"), &dump::thing(&back), &want)?;
                let again = to_value(&back)?;
                if again != v {
                    return bad(format!("serializing again changes the JSON: {}", diff(&again, &v)));
                }
            }
        }
    }
    Ok(Seen {
        state: digest(&want),
        steps: calls + 8,
    })
}

/// The JSON form of the Thing says, in the W3C vocabulary, exactly what the Thing holds.
pub fn vocabulary<O: Mode>(p: &Prog) -> Res
where
    Thing<O>: Serialize + DeserializeOwned + PartialEq,
{
    let Some(t) = built::<O>(p) else { return skipped() };
    let want = dump::thing(&t);
    let mut v = to_value(&t)?;
    let snake = undo_snake(&mut v);
    match json::read(&v, Read { ext: O::EXT, unknown: false }) {
        Err(e) => return bad(format!("the JSON is not a W3C Thing Description: {e}")),
        Ok(r) => same("the JSON does not say what the Thing holds", &r, &want)?,
    }
    if snake {
        return Err(Bad {
            what: "the dataResponse member of an event is written as data_response".into(),
            finding: Some("event-data-response-name"),
        });
    }
    Ok(Seen {
        state: digest(&want),
        steps: p.calls() + 2,
    })
}

/// Parsing the document keeps the information `want`, and writing it again keeps it as well.
pub fn preserves<O: Mode>(doc: &Value, texts: &[String], want: &MThing) -> Res
where
    Thing<O>: Serialize + DeserializeOwned + PartialEq,
{
    let mut n = 2;
    let t = match from_value::<Thing<O>>(doc.clone()) {
        Ok(t) => t,
        Err(e) => return bad(format!("a W3C document is rejected: {e}: {doc}")),
    };
    same("parsing loses or changes information", &dump::thing(&t), want)?;
    for s in texts {
        n += 1;
        match from_text::<Thing<O>>(s) {
            Ok(t) => same("parsing the text loses or changes information", &dump::thing(&t), want)?,
            Err(e) => return bad(format!("a W3C document is rejected: {e}: {s}")),
        }
    }
    let mut v = to_value(&t)?;
    undo_snake(&mut v);
    match json::read(&v, Read { ext: O::EXT, unknown: false }) {
        Err(e) => return bad(format!("what was parsed is not written as a W3C document: {e}")),
        Ok(r) => same("writing what was parsed loses or changes information", &r, want)?,
    }
    Ok(Seen {
        state: digest(want),
        steps: n,
    })
}
