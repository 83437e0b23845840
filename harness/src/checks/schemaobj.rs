//! C13: a Schema against the JSON value it wraps.
use crate::run::{fail, Check, CaseResult, Stats};
use crate::src::Src;
use crate::{jsongen, schemagen};
use schemars::{json_schema, Schema};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

/// JSON text read with the order (and repetition) of object keys kept.
#[derive(Debug, Clone, PartialEq)]
enum Ord {
    Leaf(Value),
    Arr(Vec<Ord>),
    Obj(Vec<(String, Ord)>),
}
impl<'de> serde::Deserialize<'de> for Ord {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis;
        impl<'de> serde::de::Visitor<'de> for Vis {
            type Value = Ord;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("JSON")
            }
            fn visit_bool<E>(self, v: bool) -> Result<Ord, E> {
                Ok(Ord::Leaf(v.into()))
            }
            fn visit_i64<E>(self, v: i64) -> Result<Ord, E> {
                Ok(Ord::Leaf(v.into()))
            }
            fn visit_u64<E>(self, v: u64) -> Result<Ord, E> {
                Ok(Ord::Leaf(v.into()))
            }
            fn visit_f64<E>(self, v: f64) -> Result<Ord, E> {
                Ok(Ord::Leaf(v.into()))
            }
            fn visit_str<E>(self, v: &str) -> Result<Ord, E> {
                Ok(Ord::Leaf(v.into()))
            }
            fn visit_unit<E>(self) -> Result<Ord, E> {
                Ok(Ord::Leaf(Value::Null))
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Ord, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(Ord::Arr(v))
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Ord, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_entry()? {
                    v.push(x);
                }
                Ok(Ord::Obj(v))
            }
        }
        d.deserialize_any(Vis)
    }
}

/// Checks key order of a serialized schema; `schema` tells whether this object is a schema.
fn order(o: &Ord, value: &Value, schema: bool, path: &str) -> Result<(), String> {
    const START: [&str; 7] = ["$id", "$schema", "title", "description", "type", "format", "properties"];
    const END: [&str; 2] = ["$defs", "definitions"];
    match (o, value) {
        (Ord::Obj(kv), Value::Object(m)) => {
            let keys: Vec<&str> = kv.iter().map(|(k, _)| k.as_str()).collect();
            let mut sorted = keys.clone();
            sorted.sort();
            let mut want: Vec<&str> = m.keys().map(String::as_str).collect();
            want.sort();
            if sorted != want {
                return Err(format!("keys at {path:?} are {keys:?}, the value has {want:?}"));
            }
            if schema {
                let rank = |k: &str| match (START.iter().position(|x| *x == k), END.iter().position(|x| *x == k)) {
                    (Some(i), _) => i,
                    (_, Some(i)) => 100 + i,
                    _ => 50,
                };
                if keys.windows(2).any(|w| rank(w[0]) > rank(w[1])) {
                    return Err(format!("schema keyword order at {path:?}: {keys:?}"));
                }
            }
            for (k, x) in kv {
                let p = format!("{path}/{k}");
                let (sub, maps) = if !schema {
                    (false, false)
                } else {
                    match k.as_str() {
                        "properties" | "patternProperties" | "dependentSchemas" | "$defs" | "definitions" => (false, true),
                        "items" | "prefixItems" | "allOf" | "anyOf" | "oneOf" | "not" | "if" | "then" | "else" | "additionalProperties" | "contains" | "propertyNames" => (true, false),
                        _ => (false, false),
                    }
                };
                if maps {
                    if let (Ord::Obj(kv), Value::Object(m)) = (x, &m[k]) {
                        for (k2, y) in kv {
                            if let Some(v2) = m.get(k2) {
                                order(y, v2, true, &format!("{p}/{k2}"))?;
                            }
                        }
                        continue;
                    }
                }
                order(x, &m[k], sub, &p)?;
            }
            Ok(())
        }
        (Ord::Arr(a), Value::Array(b)) => {
            if a.len() != b.len() {
                return Err(format!("array at {path:?} changed length"));
            }
            a.iter().zip(b).enumerate().try_for_each(|(i, (x, y))| order(x, y, schema, &format!("{path}/{i}")))
        }
        (Ord::Leaf(a), b) if a == b => Ok(()),
        _ => Err(format!("content at {path:?} changed: {o:?} for {value}")),
    }
}

fn stable(mut v: Value) -> Value {
    fn simple(v: &mut Value) {
        match v {
            Value::Number(n) if n.is_f64() => {
                let t = v.to_string();
                let back: Value = serde_json::from_str(&t).unwrap();
                if back != *v {
                    *v = json!(0.5);
                }
            }
            Value::Array(a) => a.iter_mut().for_each(simple),
            Value::Object(o) => o.values_mut().for_each(simple),
            _ => {}
        }
    }
    simple(&mut v);
    v
}

fn kind(v: &Value) -> &'static str {
    match v {
        Value::Null => "null",
        Value::Bool(_) => "bool",
        Value::Number(_) => "number",
        Value::String(_) => "string",
        Value::Array(_) => "array",
        Value::Object(_) => "object",
    }
}

fn conversions(s: &mut Src, st: &mut Stats) -> CaseResult {
    let v = match s.below(5) {
        0 => jsongen::value(s, 3, &[]),
        1 => schemagen::lookalike(s),
        _ => schemagen::root_with_defs(s, &schemagen::Cfg::modern(), 3),
    };
    // serde_json does not read every float back exactly: start from a value it has read
    let v: Value = stable(v);
    let case = json!({"value": v});
    let ok = v.is_object() || v.is_boolean();
    st.class(kind(&v));
    let text = v.to_string();
    let by_value = Schema::try_from(v.clone());
    let by_ref = <&Schema>::try_from(&v);
    let mut vm = v.clone();
    let by_mut = <&mut Schema>::try_from(&mut vm).is_ok();
    let de_text = serde_json::from_str::<Schema>(&text);
    let de_value = serde_json::from_value::<Schema>(v.clone());
    for (w, r) in [("TryFrom<Value>", by_value.is_ok()), ("TryFrom<&Value>", by_ref.is_ok()), ("TryFrom<&mut Value>", by_mut), ("from_str", de_text.is_ok()), ("from_value", de_value.is_ok())] {
        if r != ok {
            return fail("conversion", format!("{w} {} {}", if r { "accepts" } else { "rejects" }, kind(&v)), case);
        }
    }
    if !ok {
        let m = by_value.unwrap_err().to_string();
        if !m.contains("object or boolean") {
            return fail("conversion", format!("error message {m:?}"), case);
        }
        return Ok(());
    }
    let sc = by_value.unwrap();
    let views = [("TryFrom<&Value>", by_ref.unwrap().clone()), ("from_str", de_text.unwrap()), ("from_value", de_value.unwrap())];
    for (w, x) in &views {
        if *x != sc || x.as_value() != &v {
            return fail("conversion", format!("{w} gives {:?}", x.as_value()), case);
        }
    }
    let back: Value = sc.clone().into();
    if back != v || sc.clone().to_value() != v || sc.as_value() != &v || sc.as_bool() != v.as_bool() || sc.as_object() != v.as_object() {
        return fail("conversion", "value changed by wrapping and unwrapping", case);
    }
    if vm != v {
        return fail("conversion", "borrowing as a schema changed the value", case);
    }
    // equality with JSON
    let other = jsongen::value(s, 1, &[]);
    let same = v == other;
    if !(sc == v) || !(v == sc) || (sc == other) != same || (other == sc) != same {
        return fail("equality", format!("comparing with {other}"), case);
    }
    for b in [true, false] {
        if (sc == b) != (v == json!(b)) || (b == sc) != (v == json!(b)) {
            return fail("equality", format!("comparing with {b}"), case);
        }
        if Schema::from(b).to_value() != json!(b) {
            return fail("conversion", "From<bool>", case);
        }
    }
    if let Some(m) = v.as_object() {
        if !(sc == *m) || !(*m == sc) || (sc == Map::new()) != m.is_empty() || Schema::from(m.clone()) != sc {
            return fail("equality", "comparing with a map", case);
        }
    } else if sc == Map::new() {
        return fail("equality", "a boolean schema equals a map", case);
    }
    // serialization: content kept, keyword order
    for t in [serde_json::to_string(&sc), serde_json::to_string_pretty(&sc)] {
        let t = match t {
            Ok(t) => t,
            Err(e) => return fail("serialize", format!("{e}"), case),
        };
        if serde_json::from_str::<Value>(&t).ok().as_ref() != Some(&v) {
            return fail("serialize", format!("serializes to {t}"), case);
        }
        if let Err(e) = order(&serde_json::from_str::<Ord>(&t).unwrap(), &v, true, "") {
            return fail("order", e, json!({"value": v, "serialized": t}));
        }
    }
    if serde_json::to_value(&sc).ok().as_ref() != Some(&v) {
        return fail("serialize", "to_value differs", case);
    }
    if v.as_object().is_some_and(|o| o.len() > 1) {
        st.nontrivial(&text, || case);
    }
    Ok(())
}

/// As the WHATWG URL standard decodes: a `%` without two hex digits stands for itself.
fn lenient_decode(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let (mut out, mut i) = (vec![], 0);
    while i < b.len() {
        let hex = |k: usize| b.get(k).and_then(|c| (*c as char).to_digit(16));
        match (b[i], hex(i + 1), hex(i + 2)) {
            (b'%', Some(x), Some(y)) => {
                out.push((x * 16 + y) as u8);
                i += 3;
            }
            (c, ..) => {
                out.push(c);
                i += 1;
            }
        }
    }
    String::from_utf8(out).ok()
}

fn model_pointer<'a>(v: &'a Value, p: &str) -> Option<&'a Value> {
    let p = match p.strip_prefix('#') {
        Some(e) => lenient_decode(e)?,
        None => p.to_string(),
    };
    if p.is_empty() {
        return Some(v);
    }
    let mut cur = v;
    for tok in p.strip_prefix('/')?.split('/') {
        let t = tok.replace("~1", "/").replace("~0", "~");
        cur = match cur {
            Value::Object(o) => o.get(&t)?,
            Value::Array(a) => {
                if t.starts_with('+') || (t.starts_with('0') && t.len() > 1) {
                    return None;
                }
                a.get(t.parse::<usize>().ok()?)?
            }
            _ => return None,
        };
    }
    Some(cur)
}

fn some_pointer(s: &mut Src, v: &Value) -> String {
    let frag = s.bool();
    // keys with a percent sign left as they are mean another key, or nothing
    let literal = frag && s.chance(1, 4);
    let mut p = String::new();
    let locs = jsongen::all_locations(v);
    let loc = s.pick(&locs).clone();
    let wreck = s.below(6);
    for t in loc {
        p.push('/');
        let t = t.replace('~', "~0").replace('/', "~1");
        for b in t.chars() {
            if frag && !literal && (b == '%' || !b.is_ascii() || b == ' ' || b == '"' || b == '#' || s.chance(1, 6)) {
                let mut buf = [0; 4];
                for x in b.encode_utf8(&mut buf).bytes() {
                    if s.bool() {
                        p.push_str(&format!("%{x:02X}"))
                    } else {
                        p.push_str(&format!("%{x:02x}"))
                    }
                }
            } else {
                p.push(b);
            }
        }
    }
    match wreck {
        0 => p.push_str(s.pick(&["/", "/x", "/0", "%", "%2", "%zz", "%F0%9F", "/%2F", "~", "/-", "/+0", "%+1", "/00"])),
        1 if p.len() > 1 && p.is_char_boundary(1) => p = p[1..].to_string(),
        _ => {}
    }
    if frag {
        p.insert(0, '#');
    }
    p
}

fn operations(s: &mut Src, st: &mut Stats) -> CaseResult {
    let v = if s.chance(1, 4) {
        json!(s.bool())
    } else if s.chance(1, 3) {
        schemagen::schema(s, &schemagen::Cfg::modern(), 2)
    } else {
        Value::Object((0..s.below(5)).map(|_| (jsongen::key(s, &[]), jsongen::value(s, 2, &[]))).collect())
    };
    let mut sc = Schema::try_from(v.clone()).expect("schema");
    let mut m = v.clone();
    let mut log: Vec<String> = vec![];
    for _ in 0..1 + s.below(8) {
        let vocab: Vec<String> = m.as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
        let k = jsongen::key(s, &vocab);
        let bad = |log: &[String], what: String, sc: &Schema, m: &Value| fail::<()>("operation", what, json!({"start": v, "operations": log, "schema": sc, "model": m}));
        match s.below(8) {
            0 | 1 => {
                let x = jsongen::value(s, 2, &[]);
                log.push(format!("insert({k:?}, {x})"));
                if let Value::Bool(b) = m {
                    m = if b { json!({}) } else { json!({"not": {}}) };
                }
                let w = m.as_object_mut().unwrap().insert(k.clone(), x.clone());
                let r = sc.insert(k, x);
                if r != w {
                    return bad(&log, format!("insert returned {r:?}"), &sc, &m);
                }
            }
            2 => {
                log.push(format!("remove({k:?})"));
                let w = m.as_object_mut().and_then(|o| o.remove(&k));
                let r = sc.remove(&k);
                if r != w {
                    return bad(&log, format!("remove returned {r:?}"), &sc, &m);
                }
            }
            3 => {
                log.push(format!("get({k:?}), get_mut({k:?})"));
                let w = m.as_object().and_then(|o| o.get(&k)).cloned();
                if sc.get(&k).cloned() != w || sc.get_mut(&k).map(|x| x.clone()) != w {
                    return bad(&log, format!("get returned {:?}", sc.get(&k)), &sc, &m);
                }
            }
            4 => {
                let x = jsongen::value(s, 1, &[]);
                log.push(format!("*get_mut({k:?}) = {x}"));
                if let Some(y) = m.as_object_mut().and_then(|o| o.get_mut(&k)) {
                    *y = x.clone();
                }
                if let Some(y) = sc.get_mut(&k) {
                    *y = x;
                }
            }
            5 | 6 => {
                let p = some_pointer(s, &m);
                log.push(format!("pointer({p:?})"));
                let w = model_pointer(&m, &p).cloned();
                // the root itself is not "within" a boolean schema
                let w = if m.is_boolean() && p.trim_start_matches('#').is_empty() { sc.pointer(&p).cloned().filter(|x| *x == m) } else { w };
                let r = sc.pointer(&p).cloned();
                if r != w {
                    return bad(&log, format!("pointer returned {r:?}, expected {w:?}"), &sc, &m);
                }
                let r2 = sc.pointer_mut(&p).map(|x| x.clone());
                if r2 != r {
                    return bad(&log, format!("pointer_mut returned {r2:?}"), &sc, &m);
                }
                st.class(if w.is_some() { "pointer found" } else { "pointer not found" });
                if w.is_some() && !p.trim_start_matches('#').is_empty() && s.bool() {
                    let x = jsongen::value(s, 1, &[]);
                    log.push(format!("*pointer_mut({p:?}) = {x}"));
                    let plain = match p.strip_prefix('#') {
                        Some(e) => lenient_decode(e).unwrap(),
                        None => p.clone(),
                    };
                    *m.pointer_mut(&plain).unwrap() = x.clone();
                    *sc.pointer_mut(&p).unwrap() = x;
                }
            }
            _ => {
                log.push("ensure_object()".into());
                if let Value::Bool(b) = m {
                    m = if b { json!({}) } else { json!({"not": {}}) };
                }
                let o = sc.ensure_object().clone();
                if Some(&o) != m.as_object() || sc.as_object_mut().map(|x| x.clone()).as_ref() != m.as_object() {
                    return bad(&log, "ensure_object".into(), &sc, &m);
                }
            }
        }
        if sc.as_value() != &m || sc.as_object() != m.as_object() || sc.as_bool() != m.as_bool() {
            return bad(&log, "the schema and the JSON value differ afterwards".into(), &sc, &m);
        }
    }
    // references and the macro
    let r = s.string(6);
    if Schema::new_ref(r.clone()).to_value() != json!({"$ref": r}) {
        return fail("operation", "new_ref", json!(r));
    }
    let x = jsongen::value(s, 1, &[]);
    if json_schema!({ "k": x, "n": { "a": [x, null] } }).to_value() != json!({"k": x, "n": {"a": [x, null]}}) || json_schema!(true).to_value() != json!(true) || json_schema!(false).to_value() != json!(false) {
        return fail("operation", "json_schema!", json!(x));
    }
    if Schema::default().to_value() != json!({}) {
        return fail("operation", "default", json!(null));
    }
    if log.len() > 2 {
        st.nontrivial(&log.join(";"), || json!({"start": v, "operations": log}));
    }
    Ok(())
}

/// Key order never matters to equality.
fn order_free(s: &mut Src, st: &mut Stats) -> CaseResult {
    let entries: BTreeMap<String, Value> = (0..1 + s.below(6)).map(|_| (jsongen::key(s, &[]), jsongen::value(s, 2, &[]))).collect();
    let list: Vec<_> = entries.into_iter().collect();
    let (mut a, mut b) = (Schema::default(), Schema::default());
    let mut idx: Vec<usize> = (0..list.len()).collect();
    for i in (1..idx.len()).rev() {
        idx.swap(i, s.below(i + 1));
    }
    for (k, v) in &list {
        a.insert(k.clone(), v.clone());
    }
    for i in idx {
        b.insert(list[i].0.clone(), list[i].1.clone());
    }
    if a != b || a.as_value() != b.as_value() || serde_json::to_value(&a).unwrap() != serde_json::to_value(&b).unwrap() {
        return fail("equality", "insertion order matters", json!({"a": a, "b": b}));
    }
    st.nontrivial(&a.as_value().to_string(), || json!({"a": a, "b": b}));
    Ok(())
}

pub fn c13() -> Check {
    Check::new("C13", "generated JSON values (schemas, look-alikes, other kinds) through every conversion, generated operation histories against a plain JSON value; non-trivial: an object of several keys, or a history of at least three operations")
}
pub fn run_c13(ck: &mut Check) {
    ck.campaign("conversions", 400_000, 4_000_000, 160, conversions);
    ck.campaign("operations", 400_000, 4_000_000, 140, operations);
    ck.campaign("insertion-order", 20_000, 300_000, 90, order_free);
}
