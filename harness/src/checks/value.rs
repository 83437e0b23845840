//! C12: schemas inferred from example values, over the whole serde data model.
use crate::dialect;
use crate::dynty::stock;
use crate::eval;
use crate::run::{fail, Check, CaseResult, Stats};
use crate::src::Src;
use schemars::{schema_for_value, SchemaGenerator};
use serde::ser::{Error as _, SerializeMap, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Serialize, Serializer};
use serde_json::{json, Value};

#[derive(Debug, Clone)]
pub enum V {
    Bool(bool),
    Int(u8, i128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Display(String),
    None,
    Some(Box<V>),
    Unit,
    UnitStruct(&'static str),
    UnitVariant(&'static str),
    Newtype(&'static str, Box<V>),
    NewtypeVariant(&'static str, Box<V>),
    Seq(Vec<V>),
    CollectSeq(Vec<V>),
    Tuple(Vec<V>),
    TupleStruct(&'static str, Vec<V>),
    TupleVariant(&'static str, Vec<V>),
    Map(bool, Vec<(V, V)>),
    CollectMap(Vec<(V, V)>),
    Struct(&'static str, Vec<(&'static str, Option<V>)>),
    StructVariant(&'static str, Vec<(&'static str, V)>),
    Json(Value),
    Raw(Box<serde_json::value::RawValue>),
    Typed(u8),
    Fail,
}

impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            V::Bool(b) => s.serialize_bool(*b),
            V::Int(w, i) => match w {
                0 => s.serialize_i8(*i as i8),
                1 => s.serialize_i16(*i as i16),
                2 => s.serialize_i32(*i as i32),
                3 => s.serialize_i64(*i as i64),
                4 => s.serialize_i128(*i),
                5 => s.serialize_u8(*i as u8),
                6 => s.serialize_u16(*i as u16),
                7 => s.serialize_u32(*i as u32),
                8 => s.serialize_u64(*i as u64),
                _ => s.serialize_u128(*i as u128),
            },
            V::F32(f) => s.serialize_f32(*f),
            V::F64(f) => s.serialize_f64(*f),
            V::Char(c) => s.serialize_char(*c),
            V::Str(x) => s.serialize_str(x),
            V::Bytes(b) => s.serialize_bytes(b),
            V::Display(x) => s.collect_str(x),
            V::None => s.serialize_none(),
            V::Some(v) => s.serialize_some(&**v),
            V::Unit => s.serialize_unit(),
            V::UnitStruct(n) => s.serialize_unit_struct(n),
            V::UnitVariant(n) => s.serialize_unit_variant("Enum", 0, n),
            V::Newtype(n, v) => s.serialize_newtype_struct(n, &**v),
            V::NewtypeVariant(n, v) => s.serialize_newtype_variant("Enum", 1, n, &**v),
            V::Seq(xs) => {
                use serde::ser::SerializeSeq;
                let mut q = s.serialize_seq(if xs.len() % 2 == 0 { Some(xs.len()) } else { None })?;
                for x in xs {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            V::CollectSeq(xs) => s.collect_seq(xs),
            V::Tuple(xs) => {
                let mut q = s.serialize_tuple(xs.len())?;
                for x in xs {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            V::TupleStruct(n, xs) => {
                let mut q = s.serialize_tuple_struct(n, xs.len())?;
                for x in xs {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            V::TupleVariant(n, xs) => {
                let mut q = s.serialize_tuple_variant("Enum", 2, n, xs.len())?;
                for x in xs {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            V::Map(entry, xs) => {
                let mut q = s.serialize_map(Some(xs.len()))?;
                for (k, v) in xs {
                    if *entry {
                        q.serialize_entry(k, v)?;
                    } else {
                        q.serialize_key(k)?;
                        q.serialize_value(v)?;
                    }
                }
                q.end()
            }
            V::CollectMap(xs) => s.collect_map(xs.iter().map(|(k, v)| (k, v))),
            V::Struct(n, xs) => {
                let mut q = s.serialize_struct(n, xs.len())?;
                for (k, v) in xs {
                    match v {
                        Some(v) => q.serialize_field(k, v)?,
                        None => q.skip_field(k)?,
                    }
                }
                q.end()
            }
            V::StructVariant(n, xs) => {
                let mut q = s.serialize_struct_variant("Enum", 3, n, xs.len())?;
                for (k, v) in xs {
                    q.serialize_field(k, v)?;
                }
                q.end()
            }
            V::Json(v) => v.serialize(s),
            V::Raw(v) => v.serialize(s),
            V::Typed(k) => match k {
                0 => std::net::Ipv4Addr::new(127, 0, 0, 1).serialize(s),
                1 => std::time::Duration::new(3, 4).serialize(s),
                2 => Ok::<u8, String>(3).serialize(s),
                3 => std::ops::Bound::Included(1u8).serialize(s),
                4 => (1u8..4).serialize(s),
                5 => [[1u8; 2]; 2].serialize(s),
                6 => std::collections::BTreeMap::from([(1u64, Some("x")), (2, None)]).serialize(s),
                _ => ((), 'c', "é").serialize(s),
            },
            V::Fail => Err(S::Error::custom("refuses to serialize")),
        }
    }
}

const NAMES: &[&str] = &["S", "Name", "", "T y", "A", "$ref", "été", "true"];
const FIELDS: &[&str] = &["a", "b", "c", "type", "properties", "$ref", "a b", "", "é", "required", "x\"y"];

fn int(s: &mut Src) -> V {
    let w = s.below(10) as u8;
    let (lo, hi): (i128, i128) = match w {
        0 => (i8::MIN as i128, i8::MAX as i128),
        1 => (i16::MIN as i128, i16::MAX as i128),
        2 => (i32::MIN as i128, i32::MAX as i128),
        3 => (i64::MIN as i128, i64::MAX as i128),
        4 => (-(1i128 << 70), 1i128 << 70),
        5 => (0, u8::MAX as i128),
        6 => (0, u16::MAX as i128),
        7 => (0, u32::MAX as i128),
        8 => (0, u64::MAX as i128),
        _ => (0, 1i128 << 70),
    };
    V::Int(w, s.int(lo, hi))
}

fn key(s: &mut Src) -> V {
    match s.below(10) {
        0 | 1 | 2 => V::Str((*s.pick(&["a", "b", "1", "true", "null", "a\"b", "\\", "\u{1}", "é", "", "x/y", "type"])).into()),
        3 => V::Str(s.string(3)),
        4 => int(s),
        5 => V::Bool(s.bool()),
        6 => V::Char(s.ch()),
        7 => V::UnitVariant(s.pick(FIELDS)),
        8 => V::Newtype(s.pick(NAMES), Box::new(key(s))),
        _ => match s.below(7) {
            0 => V::F64(s.float()),
            1 => V::Display(s.string(2)),
            2 => V::Some(Box::new(V::Str("k".into()))),
            3 => V::F32(s.below(40) as f32 / 8.0),
            4 => V::Unit,
            5 => V::Seq(vec![V::Bool(true)]),
            _ => V::None,
        },
    }
}

fn value(s: &mut Src, d: usize, failing: bool) -> V {
    if failing && s.chance(1, 10) {
        return V::Fail;
    }
    let k = if d == 0 { s.below(14) } else { s.below(34) };
    let n = |s: &mut Src| s.below(4);
    match k {
        0 => V::Bool(s.bool()),
        1 | 2 => int(s),
        3 => V::F64(s.float()),
        4 => V::F32(s.float() as f32).finite(),
        5 => V::Char(s.ch()),
        6 => V::Str(s.string(3)),
        7 => V::Bytes((0..n(s)).map(|_| s.below(256) as u8).collect()),
        8 => V::Display(s.string(3)),
        9 => V::None,
        10 => V::Unit,
        11 => V::UnitStruct(s.pick(NAMES)),
        12 => V::UnitVariant(s.pick(NAMES)),
        13 => V::Typed(s.below(8) as u8),
        14 | 15 => V::Some(Box::new(value(s, d - 1, failing))),
        16 | 17 => V::Newtype(s.pick(NAMES), Box::new(value(s, d - 1, failing))),
        18 => V::NewtypeVariant(s.pick(NAMES), Box::new(value(s, d - 1, failing))),
        19 | 20 | 21 => {
            let m = n(s);
            let xs = if s.chance(1, 3) { vec![value(s, d - 1, failing); m] } else { (0..m).map(|_| value(s, d - 1, failing)).collect() };
            if s.chance(1, 3) {
                V::CollectSeq(xs)
            } else {
                V::Seq(xs)
            }
        }
        22 => V::Tuple((0..n(s)).map(|_| value(s, d - 1, failing)).collect()),
        23 => V::TupleStruct(s.pick(NAMES), (0..n(s)).map(|_| value(s, d - 1, failing)).collect()),
        24 => V::TupleVariant(s.pick(NAMES), (0..n(s)).map(|_| value(s, d - 1, failing)).collect()),
        25 | 26 => V::Map(s.bool(), (0..n(s)).map(|_| (key(s), value(s, d - 1, failing))).collect()),
        27 | 28 => {
            let m = n(s);
            if s.chance(1, 3) {
                let v = value(s, d - 1, failing);
                V::CollectMap((0..m).map(|_| (key(s), v.clone())).collect())
            } else {
                V::CollectMap((0..m).map(|_| (key(s), value(s, d - 1, failing))).collect())
            }
        }
        29 | 30 | 31 => {
            let mut used: Vec<&str> = vec![];
            let mut f = vec![];
            for _ in 0..n(s) {
                let k: &'static str = s.pick(FIELDS);
                if !used.contains(&k) {
                    used.push(k);
                    f.push((k, if s.chance(1, 6) { None } else { Some(value(s, d - 1, failing)) }));
                }
            }
            V::Struct(s.pick(NAMES), f)
        }
        32 => V::StructVariant(s.pick(NAMES), (0..n(s).min(1)).map(|_| (*s.pick(FIELDS), value(s, d - 1, failing))).collect()),
        _ => {
            let v = crate::jsongen::value(s, 2, &[]);
            if s.bool() {
                V::Raw(serde_json::value::to_raw_value(&v).unwrap())
            } else {
                V::Json(v)
            }
        }
    }
}

impl V {
    fn finite(self) -> V {
        match self {
            V::F32(f) if !f.is_finite() => V::F32(2.5),
            v => v,
        }
    }
    /// A failing serialization that every serializer following the data model must reach (not
    /// inside an enum variant, whose contents need not be looked at).
    fn fails_in_the_open(&self) -> bool {
        match self {
            V::Fail => true,
            V::Some(v) | V::Newtype(_, v) => v.fails_in_the_open(),
            V::Tuple(xs) | V::TupleStruct(_, xs) => xs.iter().any(V::fails_in_the_open),
            V::Struct(_, f) => f.iter().any(|(_, v)| v.as_ref().is_some_and(V::fails_in_the_open)),
            V::Map(_, f) => f.iter().any(|(_, v)| v.fails_in_the_open()),
            _ => false,
        }
    }
    fn outer(&self) -> String {
        let d = format!("{self:?}");
        d.split(['(', ' ']).next().unwrap_or("").to_string()
    }
}

/// Every serialized struct field or individually serialized map entry is named as a property.
fn named(v: &V, j: &Value, schema: &Value) -> Result<(), String> {
    match (v, j) {
        (V::Newtype(_, x), _) => named(x, j, schema),
        (V::Some(x), _) => {
            if schema.get("properties").is_none() {
                if let Some(s) = schema.pointer("/anyOf/0") {
                    return named(x, j, s);
                }
            }
            named(x, j, schema)
        }
        (V::Tuple(xs) | V::TupleStruct(_, xs), Value::Array(js)) => {
            for (i, (x, j)) in xs.iter().zip(js).enumerate() {
                let sub = schema.pointer(&format!("/prefixItems/{i}")).unwrap_or(&Value::Null);
                if matches!(x, V::Struct(..) | V::Map(..) | V::Tuple(_)) {
                    named(x, j, sub)?;
                }
            }
            Ok(())
        }
        (V::Map(_, _), Value::Object(o)) => match schema["properties"].as_object() {
            Some(p) if o.keys().all(|k| p.contains_key(k)) => Ok(()),
            p => Err(format!("keys {:?}, properties {:?}", o.keys().collect::<Vec<_>>(), p.map(|p| p.keys().collect::<Vec<_>>()))),
        },
        (V::Struct(_, f), Value::Object(o)) => {
            let Some(p) = schema["properties"].as_object() else { return Err(format!("no properties for {j}")) };
            if let Some(k) = o.keys().find(|k| !p.contains_key(*k)) {
                return Err(format!("{k:?} not among {:?}", p.keys().collect::<Vec<_>>()));
            }
            for (k, x) in f {
                if let Some(x) = x {
                    named(x, &o[*k], &p[*k])?;
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

fn one(s: &mut Src, st: &mut Stats) -> CaseResult {
    let (i, inline, ser, route, failing) = (s.below(4), s.chance(1, 4), s.chance(1, 4), s.below(4), s.chance(1, 12));
    let v = value(s, 3, failing);
    let second = value(s, 1, false);
    let (name, mut set, _) = stock(i);
    set.inline_subschemas = inline;
    if ser {
        set = set.for_serialize();
    }
    let text = serde_json::to_string(&v);
    let case = |schema: &Value| json!({"value": format!("{v:?}"), "json": text.as_ref().ok(), "settings": name, "inline_subschemas": inline, "route": route, "schema": schema});
    let mut g = SchemaGenerator::new(set.clone());
    let r = match route {
        0 => g.root_schema_for_value(&v),
        1 => g.into_root_schema_for_value(&v),
        2 => {
            // a generator already used for another value and type
            let _ = g.root_schema_for_value(&second);
            let _ = g.subschema_for::<Option<Vec<String>>>();
            g.root_schema_for_value(&v)
        }
        _ if i == 0 && text.is_ok() && !inline && !ser => Ok(schema_for_value!(v)),
        _ => g.clone().into_root_schema_for_value(&v),
    };
    let j: Value = match &text {
        Err(_) => {
            st.class("value does not serialize");
            if v.fails_in_the_open() && r.is_ok() {
                return fail("failure-ignored", "serializing the value fails, inferring a schema from it does not", case(&Value::Null));
            }
            return Ok(());
        }
        Ok(t) => serde_json::from_str(t).expect("serde_json output"),
    };
    let schema = match r {
        Ok(x) => x.to_value(),
        Err(e) => return fail("fails", format!("the value serializes to JSON but no schema is inferred: {e}"), case(&Value::Null)),
    };
    st.class(&format!("kind {}", v.outer()));
    st.class(name);
    if !eval::Eval::new(&schema, dialect::MODES[i]).valid(&j) && eval::confirmed(&schema, &j, false) {
        return fail("rejects-value", format!("the inferred schema rejects {j}"), case(&schema));
    }
    if let Ok(ex) = serde_json::to_value(&v) {
        let got = if i == 3 { schema.get("example") } else { schema.pointer("/examples/0") };
        if got != Some(&ex) || (i != 3 && schema["examples"].as_array().map(Vec::len) != Some(1)) {
            return fail("example", format!("the example is {got:?}, the value serializes to {ex}"), case(&schema));
        }
    }
    if let Err(e) = dialect::conforms(i, &schema) {
        return fail("conformance", format!("{name}: {e}"), case(&schema));
    }
    if i == 0 {
        if let Err(e) = named(&v, &j, &schema) {
            return fail("key-not-a-property", e, case(&schema));
        }
    }
    // deterministic, and independent of the route
    let again = SchemaGenerator::new(set).into_root_schema_for_value(&v).map(|s| s.to_value());
    if route != 2 && again.as_ref().ok() != Some(&schema) {
        return fail("route-dependent", format!("another route gives {:?}", again.map(|s| s.to_string())), case(&schema));
    }
    if !matches!(v, V::Bool(_) | V::Int(..) | V::F32(_) | V::F64(_) | V::Str(_) | V::Char(_) | V::None | V::Unit) {
        st.nontrivial(&format!("{i}{v:?}"), || case(&schema));
    }
    Ok(())
}

pub fn c12() -> Check {
    Check::new("C12", "generated values covering every call of the serde data model (all integer widths, map key kinds, enum variant kinds, raw values, failing values), four settings, four routes; non-trivial: the value is compound, bytes or a variant")
}
pub fn run_c12(ck: &mut Check) {
    ck.campaign("values", 1_500_000, 20_000_000, 120, one);
}
