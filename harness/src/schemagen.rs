//! Structured generator of JSON Schemas.
use crate::jsongen::{self, KEYWORDS};
use crate::src::Src;
use serde_json::{json, Map, Value};

#[derive(Clone)]
pub struct Cfg {
    /// allow `prefixItems`, `unevaluated*`, bool schemas etc. of 2020-12; otherwise draft-07 spelling
    pub refs: Vec<String>,
    pub bools: bool,
    /// put values of the wrong kind under schema keywords now and then
    pub malformed: bool,
    pub old_keywords: bool,
    pub unevaluated: bool,
    pub extra: bool,
    pub formats: Vec<&'static str>,
    pub nested_meta: Vec<&'static str>,
}

impl Cfg {
    pub fn modern() -> Cfg {
        Cfg { refs: vec![], bools: true, malformed: false, old_keywords: false, unevaluated: true, extra: true, formats: vec![], nested_meta: vec![] }
    }
}

pub fn prop_name(s: &mut Src) -> String {
    match s.below(5) {
        0..=2 => (*s.pick(&["a", "b", "c", "d", "foo"])).to_string(),
        3 => (*s.pick(KEYWORDS)).to_string(),
        _ => s.string(3),
    }
}

/// Data that looks like a schema but sits where no schema is.
pub fn lookalike(s: &mut Src) -> Value {
    match s.below(8) {
        0 => json!(1),
        1 => json!({"properties": {"a": true, "b": {"const": 1}}, "type": ["string", "null"]}),
        2 => json!({"$ref": "#/x", "description": "d", "allOf": [true]}),
        3 => json!([true, {"not": false}, {"prefixItems": [true]}]),
        4 => json!({"unevaluatedProperties": false, "additionalProperties": true, "examples": [1, 2], "format": "zzz"}),
        5 => json!({"items": true, "anyOf": [false], "$defs": {"x": true}, "definitions": {"y": {"const": null}}}),
        6 => json!(true),
        _ => json!({"const": {"const": false}, "enum": [true], "nullable": true, "if": true, "contains": false}),
    }
}

fn names(s: &mut Src) -> Vec<&'static str> {
    let n = 1 + s.below(2);
    let mut v: Vec<&'static str> = (0..n).map(|_| *s.pick(&["a", "b", "c", "d", "foo"])).collect();
    v.dedup();
    v
}

fn sub_or_bad(s: &mut Src, c: &Cfg, depth: usize) -> Value {
    if c.malformed && s.chance(1, 12) {
        return s.pick(&[json!(null), json!(3), json!("x"), json!([1])]).clone();
    }
    schema(s, c, depth)
}

fn schema_map(s: &mut Src, c: &Cfg, depth: usize, pats: bool) -> Value {
    if c.malformed && s.chance(1, 15) {
        return s.pick(&[json!(null), json!(true), json!([true, {}]), json!("s")]).clone();
    }
    let n = s.below(4);
    let mut m = Map::new();
    for _ in 0..n {
        let k = if pats { (*s.pick(&["^a", "^[a-c]$", "\\d", "^-?\\d+$", "o"])).to_string() } else { prop_name(s) };
        m.insert(k, sub_or_bad(s, c, depth));
    }
    Value::Object(m)
}

fn schema_list(s: &mut Src, c: &Cfg, depth: usize) -> Value {
    if c.malformed && s.chance(1, 15) {
        return s.pick(&[json!(null), json!(true), json!({"a": true}), json!("s")]).clone();
    }
    let n = 1 + s.below(3);
    Value::Array((0..n).map(|_| sub_or_bad(s, c, depth)).collect())
}

const TYPES: &[&str] = &["object", "array", "string", "integer", "number", "boolean", "null"];

/// A schema of the 2020-12 vocabulary (plus, with `old_keywords`, the older spellings).
pub fn schema(s: &mut Src, c: &Cfg, depth: usize) -> Value {
    if c.bools && s.chance(1, 6) {
        return json!(s.bool());
    }
    let mut m = Map::new();
    // type
    match s.below(5) {
        0 | 1 => {
            m.insert("type".into(), json!(s.pick(TYPES)));
        }
        2 => {
            let n = 1 + s.below(3);
            let mut ts: Vec<&str> = vec![];
            for _ in 0..n {
                let t = *s.pick(TYPES);
                if !ts.contains(&t) {
                    ts.push(t);
                }
            }
            if s.bool() && !ts.contains(&"null") {
                let at = s.below(ts.len() + 1);
                ts.insert(at, "null");
            }
            m.insert("type".into(), json!(ts));
        }
        _ => {}
    }
    let kinds = 1 + s.below(4);
    for _ in 0..kinds {
        let d = depth.saturating_sub(1);
        let choice = if depth == 0 { s.below(9) } else { s.below(30) };
        match choice {
            0 => {
                if !m.contains_key("enum") && !m.contains_key("type") {
                    m.insert("const".into(), if s.bool() { jsongen::scalar(s) } else { lookalike(s) });
                }
            }
            1 => {
                if !m.contains_key("const") {
                    let n = 1 + s.below(3);
                    let mut vs: Vec<Value> = (0..n).map(|_| if s.chance(1, 4) { lookalike(s) } else { jsongen::scalar(s) }).collect();
                    vs.dedup();
                    if m.get("type").is_some_and(|t| t == "null" || t == &json!(["null"])) {
                        vs.push(Value::Null);
                    }
                    m.insert("enum".into(), Value::Array(vs));
                }
            }
            2 => {
                m.insert("minimum".into(), json!(s.below(4) as i64 - 1));
            }
            3 => {
                m.insert("maxLength".into(), json!(s.below(4)));
            }
            4 => {
                if !c.formats.is_empty() {
                    m.insert("format".into(), json!(s.pick(&c.formats)));
                } else {
                    m.insert("minLength".into(), json!(s.below(3)));
                }
            }
            5 => {
                m.insert("required".into(), json!(names(s)));
            }
            6 => {
                m.insert((*s.pick(&["title", "description", "$comment"])).into(), json!(s.string(6)));
            }
            7 => {
                if c.extra {
                    let k = *s.pick(&["default", "x-ext", "examples", "zzz", "deprecated", "readOnly"]);
                    let v = if k == "examples" {
                        let n = s.below(4);
                        Value::Array((0..n).map(|_| lookalike(s)).collect())
                    } else if k == "deprecated" || k == "readOnly" {
                        json!(s.bool())
                    } else {
                        lookalike(s)
                    };
                    m.insert(k.into(), v);
                }
            }
            8 => {
                if !c.refs.is_empty() {
                    m.insert("$ref".into(), json!(s.pick(&c.refs)));
                } else if !c.nested_meta.is_empty() && s.chance(1, 3) {
                    m.insert("$schema".into(), json!(s.pick(&c.nested_meta)));
                }
            }
            9..=12 => {
                m.insert("properties".into(), schema_map(s, c, d, false));
            }
            13 => {
                m.insert("patternProperties".into(), schema_map(s, c, d, true));
            }
            14 | 15 => {
                m.insert("additionalProperties".into(), sub_or_bad(s, c, d));
            }
            16 | 17 => {
                if c.unevaluated {
                    m.insert("unevaluatedProperties".into(), sub_or_bad(s, c, d));
                }
            }
            18 => {
                if !c.old_keywords || s.bool() {
                    m.insert("prefixItems".into(), schema_list(s, c, d));
                } else {
                    m.insert("items".into(), schema_list(s, c, d));
                    if s.bool() {
                        m.insert("additionalItems".into(), sub_or_bad(s, c, d));
                    }
                }
            }
            19 => {
                if !m.contains_key("items") {
                    m.insert("items".into(), sub_or_bad(s, c, d));
                }
            }
            20 => {
                m.insert((*s.pick(&["contains", "propertyNames"])).into(), sub_or_bad(s, c, d));
            }
            21 => {
                m.insert("not".into(), sub_or_bad(s, c, d));
            }
            22 => {
                m.insert("if".into(), sub_or_bad(s, c, d));
                if s.bool() {
                    m.insert("then".into(), sub_or_bad(s, c, d));
                }
                if s.bool() {
                    m.insert("else".into(), sub_or_bad(s, c, d));
                }
            }
            23 | 24 => {
                m.insert("anyOf".into(), schema_list(s, c, d));
            }
            25 => {
                m.insert("oneOf".into(), schema_list(s, c, d));
            }
            26 | 27 => {
                m.insert("allOf".into(), schema_list(s, c, d));
            }
            28 => {
                m.insert("dependentSchemas".into(), schema_map(s, c, d, false));
                if c.old_keywords && s.bool() {
                    let mut deps = schema_map(s, c, d, false);
                    if let Value::Object(o) = &mut deps {
                        o.insert("a".into(), json!(["b"]));
                    }
                    m.insert("dependencies".into(), deps);
                }
            }
            _ => {
                let k = *s.pick(&["unevaluatedItems", "contentSchema", "$defs", "definitions"]);
                let v = match k {
                    "$defs" | "definitions" => schema_map(s, c, d, false),
                    "unevaluatedItems" if !c.unevaluated => continue,
                    _ => sub_or_bad(s, c, d),
                };
                m.insert(k.into(), v);
            }
        }
    }
    Value::Object(m)
}

/// Every (pointer, subschema) of a schema, by an independent list of schema-valued keywords.
pub fn subschemas<'a>(v: &'a Value, path: &str, out: &mut Vec<(String, &'a Value)>) {
    if !(v.is_object() || v.is_boolean()) {
        return;
    }
    out.push((path.to_string(), v));
    let Value::Object(o) = v else { return };
    for (k, x) in o {
        let p = format!("{path}/{}", esc(k));
        match k.as_str() {
            "additionalItems" | "contains" | "additionalProperties" | "propertyNames" | "not" | "if" | "then" | "else"
            | "unevaluatedItems" | "unevaluatedProperties" | "contentSchema" => subschemas(x, &p, out),
            "allOf" | "anyOf" | "oneOf" | "prefixItems" => {
                for (i, y) in x.as_array().into_iter().flatten().enumerate() {
                    subschemas(y, &format!("{p}/{i}"), out);
                }
            }
            "items" => match x {
                Value::Array(a) => {
                    for (i, y) in a.iter().enumerate() {
                        subschemas(y, &format!("{p}/{i}"), out);
                    }
                }
                y => subschemas(y, &p, out),
            },
            "properties" | "patternProperties" | "$defs" | "definitions" | "dependentSchemas" | "dependencies" => {
                for (n, y) in x.as_object().into_iter().flatten() {
                    subschemas(y, &format!("{p}/{}", esc(n)), out);
                }
            }
            "components" => {
                for (n, y) in x.get("schemas").and_then(Value::as_object).into_iter().flatten() {
                    subschemas(y, &format!("{p}/schemas/{}", esc(n)), out);
                }
            }
            _ => {}
        }
    }
}

pub fn esc(k: &str) -> String {
    k.replace('~', "~0").replace('/', "~1")
}

/// A root schema with `$defs` d0.. that refs point to.  A definition only refers to later ones
/// outside of property/item position, so evaluation terminates.
pub fn root_with_defs(s: &mut Src, base: &Cfg, depth: usize) -> Value {
    let n = s.below(3);
    let mut defs = Map::new();
    let key = if base.old_keywords && s.bool() { "definitions" } else { "$defs" };
    for i in 0..n {
        let mut c = base.clone();
        c.refs = ((i + 1)..n).map(|j| format!("#/{key}/d{j}")).collect();
        defs.insert(format!("d{i}"), schema(s, &c, depth.saturating_sub(1)));
    }
    let mut c = base.clone();
    c.refs = (0..n).map(|j| format!("#/{key}/d{j}")).collect();
    let mut r = schema(s, &c, depth);
    if n > 0 {
        if let Value::Object(o) = &mut r {
            o.insert(key.into(), Value::Object(defs));
        } else {
            r = json!({"allOf": [r], key: defs});
        }
    }
    r
}
