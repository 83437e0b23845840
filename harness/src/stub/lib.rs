//! What generated programs of `checks::features` link instead of the harness, so that they decide
//! which features schemars has.  Copied next to them; `@` stands for the harness's sources.
#![allow(warnings)]
#[path = "@/src.rs"]
pub mod src;
#[path = "@/values.rs"]
pub mod values;
pub mod run {
    use std::hash::{Hash, Hasher};
    #[allow(deprecated)]
    pub fn hash64<T: Hash>(t: &T) -> u64 {
        let mut h = std::hash::SipHasher::new_with_keys(1, 2);
        t.hash(&mut h);
        h.finish()
    }
}
pub mod jsongen {
    pub fn value(s: &mut crate::src::Src, _: usize, _: &[String]) -> serde_json::Value {
        serde_json::json!([s.below(5), null])
    }
}
pub mod lab {
    pub use crate::values::*;
    use schemars::generate::SchemaSettings;
    use schemars::{JsonSchema, SchemaGenerator};
    use serde::Serialize;
    use serde_json::{json, Value};

    fn settings(i: usize) -> SchemaSettings {
        match i {
            0 => SchemaSettings::draft2020_12(),
            1 => SchemaSettings::draft07(),
            2 => SchemaSettings::draft2019_09(),
            _ => SchemaSettings::openapi3(),
        }
    }

    pub fn schemas<T: JsonSchema + ?Sized>(unit: &str, name: &str) {
        for i in 0..4 {
            for ser in [false, true] {
                for inline in [false, true] {
                    let mut st = settings(i);
                    st.inline_subschemas = inline;
                    let st = if ser { st.for_serialize() } else { st };
                    let mut g = st.into_generator();
                    // (inlining does not end for some recursive types)
                    let schema = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.root_schema_for::<T>())) {
                        Ok(s) => s,
                        Err(_) => {
                            println!("{}", json!({"unit": unit, "name": name, "settings": [i, ser, inline], "schema": "panic", "text": "panic"}));
                            continue;
                        }
                    };
                    let text = schema.clone();
                    println!("{}", json!({"unit": unit, "name": name, "settings": [i, ser, inline], "text": serde_json::to_string(&text).unwrap(), "pretty": serde_json::to_string(&schema.to_value()).unwrap()}));
                    if i == 0 && !inline {
                        let v: Value = serde_json::from_str(&serde_json::to_string(&text).unwrap()).unwrap();
                        // (a recursive type that is only ever flattened leaves a definition that nothing refers to)
                        let (defined, used) = (definitions(&v), first_use(&v));
                        if scattered(&v, true) || defined.iter().any(|d| !used.contains(d)) {
                            continue;
                        }
                        println!("{}", json!({"unit": unit, "name": name, "settings": [i, ser, inline], "definitions": definitions(&v), "first_use": first_use(&v)}));
                    }
                }
            }
        }
    }

    /// As `schemas`, and the order of fields as serde writes them.
    pub fn values<T: JsonSchema + Serialize + Gen>(unit: &str, name: &str) {
        schemas::<T>(unit, name);
        let schema: Value = serde_json::from_str(&serde_json::to_string(&settings(0).for_serialize().into_generator().root_schema_for::<T>()).unwrap()).unwrap();
        let Some(props) = schema["properties"].as_object() else { return };
        let props: Vec<&String> = props.keys().collect();
        for n in 0..6u64 {
            let c = choices(n * 77 + 5, 64);
            let v = T::gen(&mut crate::src::Src::new(&c), 2);
            // (`to_value` keeps the order only with preserve_order)
            let Ok(t) = serde_json::to_string(&v) else { continue };
            let Ok(Value::Object(o)) = serde_json::from_str::<Value>(&t) else { continue };
            let keys: Vec<&String> = o.keys().filter(|k| props.contains(k)).collect();
            println!("{}", json!({"unit": unit, "name": name, "properties": props, "fields": keys}));
        }
    }

    fn definitions(v: &Value) -> Vec<String> {
        v["$defs"].as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default()
    }

    fn decode(r: &str) -> String {
        let mut o: Vec<u8> = vec![];
        let mut b = r.bytes();
        while let Some(c) = b.next() {
            if c == b'%' {
                let h = [b.next().unwrap(), b.next().unwrap()];
                o.push(u8::from_str_radix(std::str::from_utf8(&h).unwrap(), 16).unwrap());
            } else {
                o.push(c);
            }
        }
        String::from_utf8(o).unwrap().replace("~1", "/").replace("~0", "~")
    }

    /// Whether some object has references under two keywords (the fields of a flattened part then
    /// come elsewhere in the schema than in the type, so that there is no one order of first use, and
    /// the definitions that a tagged type needs are found before the type is referred to).
    fn scattered(v: &Value, top: bool) -> bool {
        fn refs(v: &Value) -> bool {
            match v {
                Value::Array(a) => a.iter().any(refs),
                Value::Object(o) => o.get("$ref").is_some_and(|r| r.is_string()) || o.values().any(refs),
                _ => false,
            }
        }
        match v {
            Value::Array(a) => a.iter().any(|x| scattered(x, false)),
            Value::Object(o) => {
                (o.contains_key("properties") && o.contains_key("$ref"))
                    || (o.contains_key("properties") && o.iter().filter(|(k, x)| !(top && *k == "$defs") && (*k == "$ref" || refs(x))).count() > 1)
                    || o.values().any(|x| scattered(x, false))
            }
            _ => false,
        }
    }

    /// Definitions in the order in which a reader who follows each new reference at once meets them.
    fn first_use(v: &Value) -> Vec<String> {
        fn walk(v: &Value, root: &Value, top: bool, seen: &mut Vec<String>) {
            match v {
                Value::Array(a) => a.iter().for_each(|x| walk(x, root, false, seen)),
                Value::Object(o) => {
                    for (k, x) in o {
                        match (k.as_str(), x) {
                            ("$defs", _) if top => {}
                            // keys that are names, not keywords
                            ("properties" | "patternProperties" | "$defs" | "dependentSchemas", Value::Object(m)) => m.values().for_each(|y| walk(y, root, false, seen)),
                            ("$ref", Value::String(r)) => {
                                let n = decode(r.strip_prefix("#/$defs/").unwrap_or(""));
                                let Some(d) = root["$defs"].get(&n) else { continue };
                                if !seen.contains(&n) {
                                    seen.push(n);
                                    walk(d, root, false, seen);
                                }
                            }
                            // (values, which hold no references)
                            ("default" | "examples" | "enum" | "const", _) => {}
                            _ => walk(x, root, false, seen),
                        }
                    }
                }
                _ => {}
            }
        }
        let mut seen = vec![];
        walk(v, v, true, &mut seen);
        seen
    }
}
