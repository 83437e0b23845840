//! Generators of JSON values, JSON schemas, instances aimed at a schema, and mutations.
use crate::eval;
use crate::src::Src;
use serde_json::{json, Map, Number, Value};

pub fn number(s: &mut Src) -> Value {
    match s.below(5) {
        0 => json!(s.below(5)),
        1 => json!(s.below(100) as i64 - 50),
        2 => {
            let i = s.int(i64::MIN as i128, u64::MAX as i128);
            if i < 0 {
                json!(i as i64)
            } else {
                json!(i as u64)
            }
        }
        3 => json!(s.below(40) as f64 / 4.0),
        _ => Number::from_f64(s.float()).map(Value::Number).unwrap(),
    }
}

pub fn scalar(s: &mut Src) -> Value {
    match s.below(6) {
        0 => Value::Null,
        1 => json!(s.bool()),
        2 => number(s),
        3 => json!(s.below(4)),
        4 => json!(*s.pick(&["", "a", "b", "foo", "bar", "A", "Foo", "null", "1", "127.0.0.1", "2020-01-01", "a@b.co"])),
        _ => json!(s.string(4)),
    }
}

pub fn key(s: &mut Src, vocab: &[String]) -> String {
    if !vocab.is_empty() && s.chance(3, 4) {
        return s.pick(vocab).clone();
    }
    match s.below(5) {
        0 | 1 => (*s.pick(&["a", "b", "c", "d", "foo", "bar"])).to_string(),
        4 if s.bool() => (*s.pick(&["%FF", "%41", "a%2Fb", "~1", "~01", "%", "a/b", "%zz"])).to_string(),
        2 => (*s.pick(KEYWORDS)).to_string(),
        _ => s.string(3),
    }
}

/// Any JSON value.
pub fn value(s: &mut Src, depth: usize, vocab: &[String]) -> Value {
    let k = if depth == 0 { 0 } else { s.below(5) };
    match k {
        0..=2 => scalar(s),
        3 => {
            let n = s.below(4);
            Value::Array((0..n).map(|_| value(s, depth - 1, vocab)).collect())
        }
        _ => {
            let n = s.below(4);
            Value::Object((0..n).map(|_| (key(s, vocab), value(s, depth - 1, vocab))).collect())
        }
    }
}

pub const KEYWORDS: &[&str] = &[
    "$schema", "$id", "$ref", "$defs", "definitions", "title", "description", "type", "format", "properties",
    "patternProperties", "additionalProperties", "unevaluatedProperties", "items", "prefixItems", "additionalItems",
    "unevaluatedItems", "contains", "minItems", "enum", "const", "default", "examples", "example", "allOf", "anyOf",
    "oneOf", "not", "if", "then", "else", "required", "nullable", "propertyNames", "dependentSchemas", "dependencies",
    "contentSchema", "components", "schemas", "x-ext", "deprecated", "minimum", "pattern",
];

/// Strings and property names occurring in a schema: the vocabulary for instances.
pub fn vocabulary(schema: &Value) -> Vec<String> {
    fn walk(v: &Value, out: &mut Vec<String>) {
        match v {
            Value::Object(o) => {
                for (k, x) in o {
                    if (k == "properties" || k == "dependentSchemas") && x.is_object() {
                        out.extend(x.as_object().unwrap().keys().cloned());
                    }
                    if k == "const" || k == "enum" || k == "required" {
                        match x {
                            Value::String(s) => out.push(s.clone()),
                            Value::Array(a) => out.extend(a.iter().filter_map(|y| y.as_str().map(String::from))),
                            _ => {}
                        }
                    }
                    walk(x, out);
                }
            }
            Value::Array(a) => a.iter().for_each(|x| walk(x, out)),
            _ => {}
        }
    }
    let mut out = vec![];
    walk(schema, &mut out);
    out.sort();
    out.dedup();
    out
}

/// A document aimed at satisfying `schema` (not guaranteed to).
pub fn instance<'a>(s: &mut Src, root: &'a Value, schema: &'a Value, depth: usize, vocab: &[String]) -> Value {
    let o = match schema {
        Value::Object(o) => o,
        _ => return value(s, depth.min(1), vocab),
    };
    if depth == 0 {
        // prefer something small
        if let Some(t) = o.get("type") {
            let t = match t {
                Value::Array(a) if !a.is_empty() => a.iter().find(|x| *x == "null").unwrap_or(&a[0]),
                t => t,
            };
            return match t.as_str() {
                Some("object") => json!({}),
                Some("array") => json!([]),
                Some("string") => json!("a"),
                Some("boolean") => json!(true),
                Some("integer") | Some("number") => json!(1),
                _ => Value::Null,
            };
        }
        return Value::Null;
    }
    if let Some(c) = o.get("const") {
        return c.clone();
    }
    if let Some(Value::Array(e)) = o.get("enum") {
        if !e.is_empty() && s.chance(7, 8) {
            return s.pick(e).clone();
        }
    }
    let mut acc: Option<Value> = None;
    let add = |acc: &mut Option<Value>, v: Value| match (acc.as_mut(), v) {
        (Some(Value::Object(a)), Value::Object(b)) => a.extend(b),
        (Some(_), _) => {}
        (None, v) => *acc = Some(v),
    };
    for kw in ["anyOf", "oneOf"] {
        if let Some(Value::Array(a)) = o.get(kw) {
            if !a.is_empty() {
                let sub = s.pick(a);
                let v = instance(s, root, sub, depth - 1, vocab);
                add(&mut acc, v);
            }
        }
    }
    if let Some(Value::Array(a)) = o.get("allOf") {
        for sub in a {
            let v = instance(s, root, sub, depth - 1, vocab);
            add(&mut acc, v);
        }
    }
    for kw in ["if", "then", "else"] {
        if let Some(sub) = o.get(kw) {
            if s.bool() {
                let v = instance(s, root, sub, depth - 1, vocab);
                add(&mut acc, v);
            }
        }
    }
    if let Some(r) = o.get("$ref").and_then(Value::as_str) {
        if let Some(t) = eval::resolve(root, r) {
            let v = instance(s, root, t, depth - 1, vocab);
            add(&mut acc, v);
        }
    }
    let ty = match o.get("type") {
        Some(Value::String(t)) => Some(t.clone()),
        Some(Value::Array(a)) if !a.is_empty() => s.pick(a).as_str().map(String::from),
        _ => None,
    };
    let ty = match ty {
        Some(t) => t,
        None if acc.is_none() || matches!(acc, Some(Value::Object(_))) => {
            if o.contains_key("properties") || o.contains_key("additionalProperties") || o.contains_key("required") || o.contains_key("unevaluatedProperties") {
                "object".into()
            } else if o.contains_key("items") || o.contains_key("prefixItems") || o.contains_key("contains") {
                "array".into()
            } else if o.contains_key("minimum") || o.contains_key("maximum") {
                "integer".into()
            } else if o.contains_key("pattern") || o.contains_key("minLength") {
                "string".into()
            } else if let Some(v) = acc {
                return v;
            } else {
                return value(s, depth.min(2), vocab);
            }
        }
        None => return acc.unwrap(),
    };
    match ty.as_str() {
        "null" => Value::Null,
        "boolean" => json!(s.bool()),
        "integer" | "number" => {
            let lo = o.get("minimum").and_then(Value::as_f64).unwrap_or(-3.0);
            let hi = o.get("maximum").and_then(Value::as_f64).unwrap_or(lo + 6.0);
            if s.chance(1, 4) {
                return number(s);
            }
            let span = ((hi - lo).max(0.0) as u64).min(1 << 30) as usize;
            let x = lo + s.below(span + 1) as f64;
            if x.abs() < 9e15 {
                json!(x as i64)
            } else {
                json!(x)
            }
        }
        "string" => match acc {
            Some(v @ Value::String(_)) => v,
            _ => {
                if s.chance(1, 3) && !vocab.is_empty() {
                    json!(s.pick(vocab))
                } else {
                    let f = o.get("format").and_then(Value::as_str).unwrap_or("");
                    match f {
                        "date-time" => json!("2020-01-02T03:04:05Z"),
                        "date" => json!("2020-01-02"),
                        "uuid" => json!("67e55044-10b1-426f-9247-bb680e5fe0c8"),
                        "ipv4" => json!("127.0.0.1"),
                        "ipv6" => json!("::1"),
                        "uri" => json!("http://example.com/"),
                        _ => {
                            let lo = o.get("minLength").and_then(Value::as_u64).unwrap_or(0) as usize;
                            let hi = o.get("maxLength").and_then(Value::as_u64).unwrap_or(lo as u64 + 3) as usize;
                            let n = lo + s.below(hi.saturating_sub(lo) + 1);
                            json!((0..n).map(|_| s.ch()).collect::<String>())
                        }
                    }
                }
            }
        },
        "array" => {
            let mut out = vec![];
            let (pre, rest) = match (o.get("prefixItems"), o.get("items")) {
                (Some(Value::Array(p)), r) => (&p[..], r),
                (_, Some(Value::Array(p))) => (&p[..], o.get("additionalItems")),
                (_, r) => (&[][..], r),
            };
            for p in pre {
                out.push(instance(s, root, p, depth - 1, vocab));
            }
            let lo = (o.get("minItems").and_then(Value::as_u64).unwrap_or(0) as usize).min(20);
            let hi = o.get("maxItems").and_then(Value::as_u64).map(|x| x as usize).unwrap_or(lo.max(out.len()) + 2);
            let n = lo + s.below(hi.saturating_sub(lo).min(4) + 1);
            while out.len() < n {
                match rest {
                    Some(r) => out.push(instance(s, root, r, depth - 1, vocab)),
                    None => out.push(match o.get("contains") {
                        Some(c) => instance(s, root, c, depth - 1, vocab),
                        None => scalar(s),
                    }),
                }
            }
            if s.chance(1, 8) && !out.is_empty() {
                out.pop();
            }
            Value::Array(out)
        }
        "object" => {
            let mut m = match acc {
                Some(Value::Object(m)) => m,
                _ => Map::new(),
            };
            let req: Vec<&str> = o.get("required").and_then(Value::as_array).map(|a| a.iter().filter_map(Value::as_str).collect()).unwrap_or_default();
            if let Some(Value::Object(p)) = o.get("properties") {
                for (k, sub) in p {
                    let want = if req.contains(&k.as_str()) { s.chance(19, 20) } else { s.chance(2, 3) };
                    if want && !(m.contains_key(k) && s.bool()) {
                        let v = instance(s, root, sub, depth - 1, vocab);
                        m.insert(k.clone(), v);
                    }
                }
            }
            for r in req {
                if !m.contains_key(r) && s.chance(9, 10) {
                    m.insert(r.to_string(), scalar(s));
                }
            }
            for kw in ["additionalProperties", "unevaluatedProperties"] {
                if let Some(sub) = o.get(kw) {
                    let n = if sub == &Value::Bool(false) { s.chance(1, 6) as usize } else { s.below(3) };
                    for _ in 0..n {
                        let k = key(s, vocab);
                        if !m.contains_key(&k) {
                            let v = instance(s, root, sub, depth - 1, vocab);
                            m.insert(k, v);
                        }
                    }
                }
            }
            if let Some(Value::Object(p)) = o.get("patternProperties") {
                for (pat, sub) in p {
                    let k = if pat.contains("\\d") { s.below(20).to_string() } else { key(s, vocab) };
                    let v = instance(s, root, sub, depth - 1, vocab);
                    m.insert(k, v);
                }
            }
            if s.chance(1, 4) {
                let k = key(s, vocab);
                let v = scalar(s);
                m.entry(k).or_insert(v);
            }
            Value::Object(m)
        }
        _ => value(s, depth.min(2), vocab),
    }
}

fn locations(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(path.clone());
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                path.push(k.clone());
                locations(x, path, out);
                path.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                locations(x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
pub fn all_locations(v: &Value) -> Vec<Vec<String>> {
    let mut out = vec![];
    locations(v, &mut vec![], &mut out);
    out
}
pub fn at_mut<'a>(v: &'a mut Value, path: &[String]) -> &'a mut Value {
    let mut cur = v;
    for p in path {
        cur = match cur {
            Value::Object(o) => o.get_mut(p).unwrap(),
            Value::Array(a) => &mut a[p.parse::<usize>().unwrap()],
            _ => unreachable!(),
        };
    }
    cur
}

/// One random edit of a document.
pub fn mutate(s: &mut Src, doc: &mut Value, vocab: &[String]) {
    let locs = all_locations(doc);
    let loc = s.pick(&locs).clone();
    let kind = s.below(6);
    let target = at_mut(doc, &loc);
    match (kind, target) {
        (0 | 1, Value::Object(o)) if !o.is_empty() => {
            let ks: Vec<String> = o.keys().cloned().collect();
            let k = s.pick(&ks).clone();
            o.remove(&k);
        }
        (2 | 3, Value::Object(o)) => {
            let k = key(s, vocab);
            let v = value(s, 1, vocab);
            o.insert(k, v);
        }
        (0 | 1, Value::Array(a)) if !a.is_empty() => {
            let i = s.below(a.len());
            a.remove(i);
        }
        (2 | 3, Value::Array(a)) => {
            let v = value(s, 1, vocab);
            let i = s.below(a.len() + 1);
            a.insert(i, v);
        }
        (4, t) => *t = Value::Null,
        (_, t) => *t = value(s, 1, vocab),
    }
}
