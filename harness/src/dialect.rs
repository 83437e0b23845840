//! Conformance of a root schema to a stock dialect, and agreement between dialects.
use crate::eval::{self, Eval, Mode};
use crate::schemagen;
use serde_json::{Map, Value};

pub const NAMES: [&str; 4] = ["draft2020_12", "draft07", "draft2019_09", "openapi3"];
const META: [&str; 4] = [
    "https://json-schema.org/draft/2020-12/schema",
    "http://json-schema.org/draft-07/schema#",
    "https://json-schema.org/draft/2019-09/schema",
    "https://spec.openapis.org/oas/3.0/schema/2024-10-18#/definitions/Schema",
];
const DEFS: [&str; 4] = ["/$defs", "/definitions", "/$defs", "/components/schemas"];
pub const MODES: [Mode; 4] = [Mode::Modern, Mode::Draft07, Mode::Modern, Mode::OpenApi];

pub fn conforms(d: usize, root: &Value) -> Result<(), String> {
    let o = root.as_object().ok_or("root schema is not an object")?;
    if o.get("$schema").and_then(Value::as_str) != Some(META[d]) {
        return Err(format!("$schema is {:?}", o.get("$schema")));
    }
    let mut subs = vec![];
    schemagen::subschemas(root, "", &mut subs);
    let banned: &[&str] = match d {
        0 => &["additionalItems", "definitions", "dependencies", "nullable", "example"],
        1 => &["prefixItems", "unevaluatedProperties", "unevaluatedItems", "$defs", "dependentSchemas", "dependentRequired", "minContains", "maxContains", "nullable", "example"],
        2 => &["prefixItems", "definitions", "dependencies", "nullable", "example"],
        _ => &["prefixItems", "unevaluatedProperties", "unevaluatedItems", "const", "examples", "$defs", "definitions", "dependentSchemas"],
    };
    for (p, s) in &subs {
        let s: &Map<String, Value> = match s {
            Value::Object(s) => s,
            Value::Bool(b) => {
                if d == 3 && !p.ends_with("/additionalProperties") {
                    return Err(format!("boolean schema {b} at {p:?}"));
                }
                continue;
            }
            _ => continue,
        };
        for k in banned {
            if s.contains_key(*k) {
                return Err(format!("{k} at {p:?}"));
            }
        }
        if let Some(r) = s.get("$ref") {
            if (d == 1 || d == 3) && s.len() > 1 {
                return Err(format!("$ref with siblings at {p:?}"));
            }
            let r = r.as_str().unwrap_or("");
            if r != "#" && !r.starts_with(&format!("#{}/", DEFS[d])) {
                return Err(format!("$ref {r:?} at {p:?} does not point to the dialect's definitions"));
            }
        }
        if d == 0 && s.get("items").is_some_and(Value::is_array) {
            return Err(format!("array form of items at {p:?}"));
        }
        if d == 3 {
            let null = match s.get("type") {
                Some(Value::String(t)) => t == "null",
                Some(Value::Array(a)) => a.iter().any(|t| t == "null"),
                _ => false,
            };
            if null {
                return Err(format!("null type at {p:?}"));
            }
        }
    }
    if d != 3 {
        meta_valid(root, META[d], &subs)?;
    }
    Ok(())
}

/// Validates a schema against its meta-schema one level at a time (innermost first, each validated
/// subschema then replaced by `true`): the jsonschema crate's cached meta-validators keep one compiled
/// copy of the meta-schema per instance path, so whole deep schemas would exhaust memory.
fn meta_valid(root: &Value, meta: &str, subs: &[(String, &Value)]) -> Result<(), String> {
    let mut work = root.clone();
    for (p, s) in subs.iter().rev() {
        if s.is_boolean() {
            continue;
        }
        let slot = work.pointer_mut(p).ok_or("harness: lost subschema")?;
        let mut one = slot.take();
        *slot = Value::Bool(true);
        if let Value::Object(o) = &mut one {
            o.insert("$schema".into(), meta.into());
        }
        match jsonschema::meta::try_validate(&one) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(format!("subschema at {p:?} is not valid against the meta-schema: {e} at {:?}", e.instance_path.to_string())),
            Err(e) => return Err(format!("meta-schema unknown: {e}")),
        }
    }
    Ok(())
}

/// Does 2020-12 form combine a restriction on remaining properties with alternative subschemas?
pub fn has_combined_restriction(root2020: &Value) -> bool {
    let mut subs = vec![];
    schemagen::subschemas(root2020, "", &mut subs);
    subs.iter().any(|(_, s)| {
        s.get("unevaluatedProperties").is_some()
            && s.as_object().unwrap().keys().any(|k| ["$ref", "allOf", "anyOf", "oneOf", "if", "then", "else", "dependentSchemas", "not"].contains(&k.as_str()))
    })
}

/// Verdicts of the four dialects' schemas on a document; an error describes a disagreement.
pub fn agree(schemas: &[Value; 4], doc: &Value, superset_ok: bool) -> Result<bool, String> {
    let v: Vec<bool> = (0..4).map(|i| Eval::new(&schemas[i], MODES[i]).valid(doc)).collect();
    for i in 1..4 {
        if v[i] != v[0] {
            if superset_ok && i != 2 && v[i] {
                continue;
            }
            if !eval::confirmed(&schemas[0], doc, v[0]) || !eval::confirmed(&schemas[i], doc, v[i]) {
                continue; // validators disagree: inconclusive
            }
            return Err(format!("document {doc}: the draft2020_12 schema {}, the {} schema {}", acc(v[0]), NAMES[i], acc(v[i])));
        }
    }
    Ok(v[0])
}
fn acc(b: bool) -> &'static str {
    if b {
        "accepts it"
    } else {
        "rejects it"
    }
}
