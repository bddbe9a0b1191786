//! Two thing extensions covering every extension point, and their dumps.

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use wot_td::{
    extend::ExtendableThing,
    hlist::{Cons, Nil},
};

use crate::model::Ext;

pub trait ExtDump {
    fn dump(&self) -> Ext;
}

impl ExtDump for Nil {
    fn dump(&self) -> Ext {
        vec![]
    }
}

impl<T: ExtDump, U: ExtDump> ExtDump for Cons<T, U> {
    fn dump(&self) -> Ext {
        let mut v = self.head.dump();
        v.extend(self.tail.dump());
        v
    }
}

macro_rules! pieces {
    ($($name:ident $n:literal $s:literal $v:literal),* $(,)?) => {$(
        #[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
        pub struct $name {
            #[serde(rename = $n, skip_serializing_if = "Option::is_none", default)]
            pub n: Option<u8>,
            #[serde(rename = $s, skip_serializing_if = "String::is_empty", default)]
            pub s: String,
            #[serde(rename = $v, skip_serializing_if = "Vec::is_empty", default)]
            pub v: Vec<i64>,
        }

        impl $name {
            pub fn new(p: u8) -> Self {
                Self {
                    n: (p & 1 != 0).then_some(p),
                    s: if p & 2 != 0 { format!("s{p}") } else { String::new() },
                    v: if p & 4 != 0 { vec![p as i64, -1] } else { vec![] },
                }
            }
        }

        impl ExtDump for $name {
            fn dump(&self) -> Ext {
                vec![json!({"n": self.n, "s": self.s, "v": self.v})]
            }
        }
    )*};
}

/// Member names of the pieces: `<A|B>:<place><n|s|v>`.
pub const PLACES: [&str; 10] = ["t", "i", "p", "a", "e", "f", "r", "d", "o", "y"];

pieces!(
    At "A:tn" "A:ts" "A:tv", Bt "B:tn" "B:ts" "B:tv",
    Ai "A:in" "A:is" "A:iv", Bi "B:in" "B:is" "B:iv",
    Ap "A:pn" "A:ps" "A:pv", Bp "B:pn" "B:ps" "B:pv",
    Aa "A:an" "A:as" "A:av", Ba "B:an" "B:as" "B:av",
    Ae "A:en" "A:es" "A:ev", Be "B:en" "B:es" "B:ev",
    Af "A:fn" "A:fs" "A:fv", Bf "B:fn" "B:fs" "B:fv",
    Ar "A:rn" "A:rs" "A:rv", Br "B:rn" "B:rs" "B:rv",
    Ad "A:dn" "A:ds" "A:dv", Bd "B:dn" "B:ds" "B:dv",
    Ao "A:on" "A:os" "A:ov", Bo "B:on" "B:os" "B:ov",
    Ay "A:yn" "A:ys" "A:yv", By "B:yn" "B:ys" "B:yv",
);

impl ExtendableThing for At {
    type InteractionAffordance = Ai;
    type PropertyAffordance = Ap;
    type ActionAffordance = Aa;
    type EventAffordance = Ae;
    type Form = Af;
    type ExpectedResponse = Ar;
    type DataSchema = Ad;
    type ObjectSchema = Ao;
    type ArraySchema = Ay;
}

impl ExtendableThing for Bt {
    type InteractionAffordance = Bi;
    type PropertyAffordance = Bp;
    type ActionAffordance = Ba;
    type EventAffordance = Be;
    type Form = Bf;
    type ExpectedResponse = Br;
    type DataSchema = Bd;
    type ObjectSchema = Bo;
    type ArraySchema = By;
}

pub type AB = Cons<Bt, Cons<At, Nil>>;

/// JSON members of the payload list `e` at `place`.
pub fn json_members(e: &Ext, place: &str, out: &mut serde_json::Map<String, Value>) {
    for (i, p) in e.iter().enumerate() {
        let who = if i + 1 == e.len() { "A" } else { "B" };
        let p = p.as_object().unwrap();
        if !p["n"].is_null() {
            out.insert(format!("{who}:{place}n"), p["n"].clone());
        }
        if p["s"] != json!("") {
            out.insert(format!("{who}:{place}s"), p["s"].clone());
        }
        if p["v"] != json!([]) {
            out.insert(format!("{who}:{place}v"), p["v"].clone());
        }
    }
}
