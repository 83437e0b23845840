//! Runtime linked into generated programs: value generators, handles on the generated types, and the
//! per-unit loop.  The generated programs are written, built and run by `labrun`.
use crate::run::{guard, hash64, install_panic_hook, minimize, CaseResult, Fail, Stats};
use crate::src::Src;
use schemars::generate::{SchemaGenerator, SchemaSettings};
use schemars::{JsonSchema, Schema};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
pub use crate::values::*;

/// Handle on one generated type.
#[derive(Clone)]
pub struct Root {
    pub name: &'static str,
    pub schema: fn(&SchemaSettings) -> Schema,
    pub sub: fn(&mut SchemaGenerator) -> Schema,
    pub id: fn() -> String,
    pub sname: fn() -> String,
    pub inline: fn() -> bool,
    pub gen: Option<fn(&mut Src) -> Result<String, String>>,
    pub gen_de: Option<fn(&mut Src) -> Result<String, String>>,
    pub accepts: Option<fn(&str) -> Result<(), String>>,
}

fn gen_json<T: Gen + Serialize>(s: &mut Src) -> Result<String, String> {
    serde_json::to_string(&T::gen(s, 3)).map_err(|e| e.to_string())
}

impl Root {
    pub fn new<T: JsonSchema + ?Sized>(name: &'static str) -> Root {
        Root {
            name,
            schema: |st| st.clone().into_generator().into_root_schema_for::<T>(),
            sub: |g| g.subschema_for::<T>(),
            id: || T::schema_id().into_owned(),
            sname: || T::schema_name().into_owned(),
            inline: || T::inline_schema(),
            gen: None,
            gen_de: None,
            accepts: None,
        }
    }
    pub fn ser<T: Gen + Serialize>(mut self) -> Root {
        self.gen = Some(gen_json::<T>);
        self
    }
    pub fn de<T: DeserializeOwned>(mut self) -> Root {
        self.accepts = Some(|t| serde_json::from_str::<T>(t).map(|_| ()).map_err(|e| e.to_string()));
        self
    }
    pub fn mirror<M: Gen + Serialize>(mut self) -> Root {
        self.gen_de = Some(gen_json::<M>);
        self
    }
    /// T: the type, M: the type whose serialized form T deserializes from
    pub fn full<T: JsonSchema + Gen + Serialize + DeserializeOwned, M: Gen + Serialize>(name: &'static str) -> Root {
        Root::new::<T>(name).ser::<T>().de::<T>().mirror::<M>()
    }
}

pub struct Unit {
    pub name: &'static str,
    pub meta: &'static str,
    pub roots: Vec<Root>,
}

/// Per-unit state shared by its cases (schemas, expectations).
pub struct Ctx<'a> {
    pub unit: &'a Unit,
    pub meta: Value,
    pub cache: HashMap<String, Rc<Value>>,
}

impl Ctx<'_> {
    pub fn cached(&mut self, key: &str, f: impl FnOnce() -> Value) -> Rc<Value> {
        if let Some(v) = self.cache.get(key) {
            return v.clone();
        }
        let v = Rc::new(f());
        self.cache.insert(key.into(), v.clone());
        v
    }
}

pub fn set_vocab(v: Vec<String>) {
    VOCAB.with(|x| *x.borrow_mut() = v);
}
pub fn add_vocab(v: Vec<String>) {
    VOCAB.with(|x| {
        let mut x = x.borrow_mut();
        x.extend(v);
        x.sort();
        x.dedup();
    });
}
/// From now on, conversions give the same value every time.
pub fn steady() {
    STATE.with(|s| *s.borrow_mut() = 0);
}
pub fn reseed(n: u64) {
    STATE.with(|s| *s.borrow_mut() = n | 1);
}

/// Parses JSON text; None if some object has a duplicate key.
pub fn parse_unique(text: &str) -> Option<Value> {
    struct V;
    impl<'de> serde::de::Visitor<'de> for V {
        type Value = Value;
        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("JSON without duplicate keys")
        }
        fn visit_unit<E>(self) -> Result<Value, E> {
            Ok(Value::Null)
        }
        fn visit_bool<E>(self, b: bool) -> Result<Value, E> {
            Ok(b.into())
        }
        fn visit_i64<E>(self, b: i64) -> Result<Value, E> {
            Ok(b.into())
        }
        fn visit_u64<E>(self, b: u64) -> Result<Value, E> {
            Ok(b.into())
        }
        fn visit_f64<E>(self, b: f64) -> Result<Value, E> {
            Ok(b.into())
        }
        fn visit_str<E>(self, b: &str) -> Result<Value, E> {
            Ok(b.into())
        }
        fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
            let mut v = vec![];
            while let Some(W(x)) = a.next_element()? {
                v.push(x);
            }
            Ok(Value::Array(v))
        }
        fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
            let mut m = serde_json::Map::new();
            while let Some((k, W(x))) = a.next_entry::<String, W>()? {
                if m.insert(k, x).is_some() {
                    return Err(serde::de::Error::custom("duplicate key"));
                }
            }
            Ok(Value::Object(m))
        }
    }
    struct W(Value);
    impl<'de> serde::Deserialize<'de> for W {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<W, D::Error> {
            d.deserialize_any(V).map(W)
        }
    }
    serde_json::from_str::<W>(text).ok().map(|w| w.0)
}

/// Entry point of a generated program: `prog <prop> <seed> <cases> <len> [unit choices-json]`.
pub fn main(units: Vec<Unit>) {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let seed: u64 = a[2].parse().unwrap();
    let cases: u64 = a[3].parse().unwrap();
    let len: usize = a[4].parse().unwrap();
    let only: Option<(String, Vec<u32>)> = a.get(5).map(|u| (u.clone(), serde_json::from_str(&a[6]).unwrap()));
    let known: Vec<String> = std::env::var("VH_KNOWN").ok().map(|s| serde_json::from_str(&s).unwrap()).unwrap_or_default();
    install_panic_hook();
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || drive(&prop, seed, cases, len, only, &known, &units))
        .unwrap()
        .join()
        .unwrap();
}

fn drive(prop: &str, seed: u64, cases: u64, len: usize, only: Option<(String, Vec<u32>)>, known: &[String], units: &[Unit]) {
    let check = crate::checks::lab::check(prop);
    let mut st = Stats::default();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    for u in units {
        if only.as_ref().is_some_and(|(n, _)| n != u.name) {
            continue;
        }
        println!("{}", json!({"start": u.name}));
        set_vocab(vec![]);
        for r in &u.roots {
            for st in [SchemaSettings::draft2020_12(), SchemaSettings::draft2020_12().for_serialize()] {
                if let Ok(v) = guard(|| (r.schema)(&st).to_value()) {
                    let mut voc = crate::jsongen::vocabulary(&v);
                    voc.retain(|k| !k.starts_with('$'));
                    add_vocab(voc);
                }
            }
        }
        let mut ctx = Ctx { unit: u, meta: serde_json::from_str(u.meta).expect("meta"), cache: HashMap::new() };
        let mut run = |c: &[u32], st: &mut Stats| -> CaseResult {
            let mut s = Src::new(c);
            reseed(s.next() as u64 + 11);
            match guard(|| check(&mut ctx, &mut s, st)) {
                Ok(r) => r,
                Err(p) => Err(Fail { sig: "panic".into(), msg: format!("panic: {p}"), case: Value::Null }),
            }
        };
        let list: Vec<Vec<u32>> = match &only {
            Some((_, c)) => vec![c.clone()],
            None => (0..cases).map(|i| choices(hash64(&(seed, prop, u.name, i)), len)).collect(),
        };
        for c in list {
            st.evaluations += 1;
            let Err(e) = run(&c, &mut st) else { continue };
            if known.contains(&e.sig) {
                *known_hits.entry(e.sig).or_default() += 1;
                continue;
            }
            let (c, e) = if only.is_some() {
                (c, e)
            } else {
                let sig = e.sig.clone();
                let c = minimize(c, 3, &mut |c| run(c, &mut Stats::default()).err().map(|e| e.sig));
                let e2 = run(&c, &mut Stats::default()).err().filter(|x| x.sig == sig).unwrap_or(e);
                (c, e2)
            };
            println!("{}", json!({"fail": u.name, "sig": e.sig, "msg": e.msg, "case": e.case, "choices": c}));
            break;
        }
    }
    println!(
        "{}",
        json!({"stats": {"evaluations": st.evaluations, "distinct": st.distinct.iter().collect::<Vec<_>>(), "classes": st.classes, "samples": st.samples, "known": known_hits}})
    );
}
