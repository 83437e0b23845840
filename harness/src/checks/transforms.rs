//! C10 (recursive traversal) and C11 (built-in transforms).
use crate::eval::{Eval, Mode};
use crate::run::*;
use crate::schemagen::{self, Cfg};
use crate::{jsongen, Src};
use schemars::transform::*;
use schemars::Schema;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

pub fn to_schema(v: &Value) -> Schema {
    Schema::try_from(v.clone()).expect("object or bool")
}

struct Tagger {
    n: u64,
}
fn tag(n: &mut u64, schema: &mut Schema) {
    *n += 1;
    let order = *n;
    match schema.as_bool() {
        Some(b) => {
            let mut m = Map::new();
            m.insert("x-bool".into(), json!(b));
            m.insert("x-visits".into(), json!([order]));
            *schema = m.into();
        }
        None => {
            let o = schema.ensure_object();
            match o.get_mut("x-visits") {
                Some(Value::Array(a)) => a.push(json!(order)),
                _ => {
                    o.insert("x-visits".into(), json!([order]));
                }
            }
        }
    }
}
impl Transform for Tagger {
    fn transform(&mut self, schema: &mut Schema) {
        tag(&mut self.n, schema);
        transform_subschemas(self, schema);
    }
}

/// removes the tags at the given pointers, restoring bools
fn untag(v: &mut Value, ptr: &str) -> Option<Vec<u64>> {
    let t = v.pointer_mut(ptr)?;
    let o = t.as_object_mut()?;
    let visits = o.remove("x-visits")?;
    let r = visits.as_array()?.iter().map(|x| x.as_u64().unwrap()).collect();
    if let Some(b) = o.remove("x-bool") {
        *t = b;
    }
    Some(r)
}

pub fn c10() -> Check {
    Check::new(
        "C10",
        "generated schemas over every schema-valued keyword of draft-07..2020-12 (incl. components/schemas), keyword-named properties, \
         look-alike data under const/enum/default/examples/unknown keywords and malformed keyword values; non-trivial: at least 4 subschemas at depth >= 2",
    )
}

pub fn run_c10(ck: &mut Check) {
    ck.campaign("traversal", 400_000, 4_000_000, 400, |s, st| {
        let mut c = Cfg::modern();
        c.malformed = s.bool();
        c.old_keywords = s.bool();
        let mut root = schemagen::root_with_defs(s, &c, 4);
        if s.chance(1, 5) {
            let defs = json!({"schemas": {"A": schemagen::schema(s, &c, 2), "B": schemagen::schema(s, &c, 1)}, "other": {"x": {"type": "null"}}});
            if let Value::Object(o) = &mut root {
                o.insert("components".into(), defs);
            }
        }
        let mut subs = vec![];
        schemagen::subschemas(&root, "", &mut subs);
        let expected: BTreeSet<String> = subs.iter().map(|x| x.0.clone()).collect();
        if subs.len() >= 4 && subs.iter().any(|x| x.0.matches('/').count() >= 3) {
            st.nontrivial(&root.to_string(), || root.clone());
        }
        st.class(match subs.len() {
            0..=1 => "subschemas<=1",
            2..=5 => "subschemas 2-5",
            6..=20 => "subschemas 6-20",
            _ => "subschemas>20",
        });
        for (name, form) in [("RecursiveTransform(closure)", 0), ("transform calling transform_subschemas", 1), ("RecursiveTransform(&dyn)", 2)] {
            let mut sch = to_schema(&root);
            match form {
                0 => {
                    let mut n = 0u64;
                    RecursiveTransform(|s: &mut Schema| tag(&mut n, s)).transform(&mut sch);
                }
                1 => Tagger { n: 0 }.transform(&mut sch),
                _ => {
                    // one level by hand
                    let mut n = 0u64;
                    struct Once<'a>(&'a mut u64);
                    impl Transform for Once<'_> {
                        fn transform(&mut self, s: &mut Schema) {
                            tag(self.0, s);
                        }
                    }
                    transform_subschemas(&mut Once(&mut n), &mut sch);
                    let mut got = sch.to_value();
                    // exactly the direct children
                    let direct: Vec<&String> = expected
                        .iter()
                        .filter(|p| !p.is_empty() && !expected.iter().any(|q| !q.is_empty() && q != *p && p.starts_with(&format!("{q}/"))))
                        .collect();
                    for p in &direct {
                        match untag(&mut got, p) {
                            Some(v) if v.len() == 1 => {}
                            v => return fail("transform_subschemas-direct", format!("transform_subschemas visited direct subschema {p:?} {} times", v.map_or(0, |v| v.len())), root.clone()),
                        }
                    }
                    if got != root {
                        return fail("transform_subschemas-other", "transform_subschemas touched something that is not a direct subschema", json!({"schema": root, "left": got}));
                    }
                    continue;
                }
            }
            let mut got = sch.to_value();
            let mut order: BTreeMap<String, u64> = BTreeMap::new();
            // deepest first, so that restoring a parent never invalidates a pointer
            let mut ps: Vec<&String> = expected.iter().collect();
            ps.sort_by_key(|p| std::cmp::Reverse(p.matches('/').count()));
            for p in ps {
                match untag(&mut got, p) {
                    Some(v) if v.len() == 1 => {
                        order.insert(p.clone(), v[0]);
                    }
                    v => return fail("visit-count", format!("{name}: subschema at {p:?} visited {} times", v.map_or(0, |v| v.len())), root.clone()),
                }
            }
            if got != root {
                return fail("visited-non-schema", format!("{name}: something that is not a subschema was visited or changed"), json!({"schema": root, "left": got}));
            }
            for (p, n) in &order {
                for (q, m) in &order {
                    if p != q && (q.is_empty() || p.starts_with(&format!("{q}/"))) && m > n {
                        return fail("order", format!("{name}: child {p:?} visited before parent {q:?}"), root.clone());
                    }
                }
            }
        }
        Ok(())
    });
}

pub fn c11() -> Check {
    Check::new(
        "C11",
        "generated 2020-12 schemas (refs into $defs, every applicator, look-alike data, metadata) x each built-in transform and options; \
         documents are aimed at the schema then mutated; non-trivial: the transform changed the schema",
    )
}

/// A schema evaluated before/after must accept the same documents.
#[allow(clippy::too_many_arguments)]
fn same_meaning(name: &str, before: &Value, after: &Value, mode: Mode, superset_ok: bool, s: &mut Src, st: &mut Stats) -> CaseResult {
    let vocab = jsongen::vocabulary(before);
    // read all 2020-12 keywords on both sides; after AddNullable also `nullable`
    let (eb, mut ea) = (Eval::new(before, Mode::Modern), Eval::new(after, Mode::Modern));
    ea.nullable = mode == Mode::OpenApi;
    for i in 0..6 {
        let mut doc = if i == 5 { jsongen::value(s, 2, &vocab) } else { jsongen::instance(s, before, before, 6, &vocab) };
        for _ in 0..s.below(3) {
            jsongen::mutate(s, &mut doc, &vocab);
        }
        let (b, a) = (eb.valid(&doc), ea.valid(&doc));
        st.class(if b { "doc accepted" } else { "doc rejected" });
        if a != b && !(superset_ok && a) {
            return fail(
                format!("{name}-meaning"),
                format!("{name} changed the meaning: document {doc} was {} and is {}", acc(b), acc(a)),
                json!({"before": before, "after": after, "document": doc}),
            );
        }
    }
    Ok(())
}
fn acc(b: bool) -> &'static str {
    if b {
        "accepted"
    } else {
        "rejected"
    }
}

/// Applies `f` to each subschema of v bottom-up (children first), independent traversal.
fn map_subschemas(v: &Value, f: &dyn Fn(Value) -> Value) -> Value {
    let Value::Object(o) = v else {
        return if v.is_boolean() { f(v.clone()) } else { v.clone() };
    };
    let mut out = Map::new();
    let sub = |x: &Value| if x.is_object() || x.is_boolean() { map_subschemas(x, f) } else { x.clone() };
    for (k, x) in o {
        let y = match k.as_str() {
            "additionalItems" | "contains" | "additionalProperties" | "propertyNames" | "not" | "if" | "then" | "else"
            | "unevaluatedItems" | "unevaluatedProperties" | "contentSchema" => sub(x),
            "allOf" | "anyOf" | "oneOf" | "prefixItems" => match x {
                Value::Array(a) => Value::Array(a.iter().map(sub).collect()),
                x => x.clone(),
            },
            "items" => match x {
                Value::Array(a) => Value::Array(a.iter().map(sub).collect()),
                x => sub(x),
            },
            "properties" | "patternProperties" | "$defs" | "definitions" | "dependentSchemas" | "dependencies" => match x {
                Value::Object(m) => Value::Object(m.iter().map(|(n, y)| (n.clone(), sub(y))).collect()),
                x => x.clone(),
            },
            _ => x.clone(),
        };
        out.insert(k.clone(), y);
    }
    f(Value::Object(out))
}

type Model = Box<dyn Fn(&Value) -> Value>;

fn model_bools(skip: bool) -> Model {
    fn go(v: &Value, skip: bool) -> Value {
        match v {
            Value::Bool(true) => json!({}),
            Value::Bool(false) => json!({"not": {}}),
            Value::Object(o) => {
                // replace bool children, except a skipped additionalProperties
                let kept = o.get("additionalProperties").filter(|x| skip && x.is_boolean()).cloned();
                let mut o2 = o.clone();
                if kept.is_some() {
                    o2.remove("additionalProperties");
                }
                let r = one_level(&Value::Object(o2), &|x| go(x, skip));
                let mut m = r.as_object().unwrap().clone();
                if let Some(k) = kept {
                    m.insert("additionalProperties".into(), k);
                }
                Value::Object(m)
            }
            v => v.clone(),
        }
    }
    Box::new(move |v| go(v, skip))
}

/// Maps the direct subschemas only.
fn one_level(v: &Value, g: &dyn Fn(&Value) -> Value) -> Value {
    let Value::Object(o) = v else { return v.clone() };
    let mut out = Map::new();
    let sub = |x: &Value| if x.is_object() || x.is_boolean() { g(x) } else { x.clone() };
    for (k, x) in o {
        let y = match k.as_str() {
            "additionalItems" | "contains" | "additionalProperties" | "propertyNames" | "not" | "if" | "then" | "else"
            | "unevaluatedItems" | "unevaluatedProperties" | "contentSchema" => sub(x),
            "allOf" | "anyOf" | "oneOf" | "prefixItems" => match x {
                Value::Array(a) => Value::Array(a.iter().map(sub).collect()),
                x => x.clone(),
            },
            "items" => match x {
                Value::Array(a) => Value::Array(a.iter().map(sub).collect()),
                x => sub(x),
            },
            "properties" | "patternProperties" | "$defs" | "definitions" | "dependentSchemas" | "dependencies" => match x {
                Value::Object(m) => Value::Object(m.iter().map(|(n, y)| (n.clone(), sub(y))).collect()),
                x => x.clone(),
            },
            _ => x.clone(),
        };
        out.insert(k.clone(), y);
    }
    Value::Object(out)
}

/// Keys whose contents are neither schemas nor handled by the named transform must survive untouched.
fn strip(v: &Value, handled: &[&str]) -> Value {
    map_subschemas(v, &|x| match x {
        Value::Object(mut o) => {
            for h in handled {
                o.remove(*h);
            }
            Value::Object(o)
        }
        x => x,
    })
}

fn apply(t: &mut dyn Transform, v: &Value) -> Value {
    let mut sch = to_schema(v);
    t.transform(&mut sch);
    sch.to_value()
}

fn scan(v: &Value, bad: &dyn Fn(&Map<String, Value>) -> Option<String>) -> Option<String> {
    let mut subs = vec![];
    schemagen::subschemas(v, "", &mut subs);
    subs.iter().find_map(|(p, x)| x.as_object().and_then(bad).map(|m| format!("{m} at {p:?}")))
}

/// type / enum / const contradictions are outside the transforms' input domain
fn tidy(v: &Value) -> Value {
    map_subschemas(v, &|x| match x {
        Value::Object(mut o) => {
            let nullonly = match o.get("type") {
                Some(Value::String(t)) => t == "null",
                Some(Value::Array(a)) => !a.is_empty() && a.iter().all(|t| t == "null"),
                _ => false,
            };
            if nullonly {
                o.remove("const");
            }
            if o.contains_key("const") {
                o.remove("enum");
            }
            Value::Object(o)
        }
        x => x,
    })
}

pub fn run_c11(ck: &mut Check) {

    // 1. each transform against an exact reference model, plus meaning and postcondition
    ck.campaign("exact-models", 160_000, 2_000_000, 600, |s, st| {
        let mut c = Cfg::modern();
        let which = s.below(7).saturating_sub(1);
        c.unevaluated = s.chance(1, 3);
        let root = {
            let depth = 1 + s.below(4);
            tidy(&schemagen::root_with_defs(s, &c, depth))
        };
        let (name, mut t, model, mode): (&str, Box<dyn Transform>, Model, Mode) = match which {
            0 | 1 => {
                let mut t = ReplaceBoolSchemas::default();
                t.skip_additional_properties = which == 1;
                (if which == 1 { "ReplaceBoolSchemas(skip)" } else { "ReplaceBoolSchemas" }, Box::new(t), model_bools(which == 1), Mode::Modern)
            }
            2 => (
                "RemoveRefSiblings",
                Box::<RemoveRefSiblings>::default(),
                Box::new(|v: &Value| {
                    map_subschemas(v, &|x| match x {
                        Value::Object(mut o) if o.len() > 1 && o.contains_key("$ref") => {
                            let r = o.remove("$ref").unwrap();
                            let all = o.entry("allOf").or_insert(json!([]));
                            all.as_array_mut().unwrap().push(json!({ "$ref": r }));
                            Value::Object(o)
                        }
                        x => x,
                    })
                }),
                Mode::Modern,
            ),
            3 => (
                "SetSingleExample",
                Box::<SetSingleExample>::default(),
                Box::new(|v: &Value| {
                    map_subschemas(v, &|x| match x {
                        Value::Object(mut o) => {
                            if let Some(Value::Array(a)) = o.remove("examples") {
                                if let Some(f) = a.into_iter().next() {
                                    o.insert("example".into(), f);
                                }
                            }
                            Value::Object(o)
                        }
                        x => x,
                    })
                }),
                Mode::Modern,
            ),
            4 => (
                "ReplaceConstValue",
                Box::<ReplaceConstValue>::default(),
                Box::new(|v: &Value| {
                    map_subschemas(v, &|x| match x {
                        Value::Object(mut o) => {
                            if let Some(c) = o.remove("const") {
                                o.insert("enum".into(), json!([c]));
                            }
                            Value::Object(o)
                        }
                        x => x,
                    })
                }),
                Mode::Modern,
            ),
            _ => (
                "ReplacePrefixItems",
                Box::<ReplacePrefixItems>::default(),
                Box::new(|v: &Value| {
                    map_subschemas(v, &|x| match x {
                        Value::Object(mut o) => {
                            if let Some(p) = o.remove("prefixItems") {
                                if let Some(i) = o.remove("items") {
                                    o.insert("additionalItems".into(), i);
                                }
                                o.insert("items".into(), p);
                            }
                            Value::Object(o)
                        }
                        x => x,
                    })
                }),
                Mode::Modern,
            ),
        };
        st.class(name);
        let after = apply(&mut *t, &root);
        let expect = model(&root);
        if after != root {
            st.class(&format!("{name}: changed"));
            st.nontrivial(&(name, root.to_string()), || json!({"transform": name, "before": root, "after": after}));
        }
        if after != expect {
            return fail(format!("{name}-exact"), format!("{name} result differs from its definition"), json!({"before": root, "after": after, "expected": expect}));
        }
        let again = apply(&mut *t, &after);
        if again != after {
            return fail(format!("{name}-idempotent"), format!("{name} is not idempotent"), json!({"before": root, "once": after, "twice": again}));
        }
        if which == 2 {
            // without siblings, the draft-07 reading of $ref agrees with the modern one
            if let Some(p) = scan(&after, &|o| (o.contains_key("$ref") && o.len() > 1).then(|| "$ref with siblings".into())) {
                return fail("RemoveRefSiblings-left", format!("RemoveRefSiblings left {p}"), json!({"before": root, "after": after}));
            }
        }
        same_meaning(name, &root, &after, mode, false, s, st)
    });

    ck.campaign("add-nullable", 100_000, 1_500_000, 600, |s, st| {
        let mut c = Cfg::modern();
        c.unevaluated = false;
        let mut t = AddNullable::default();
        t.remove_null_type = !s.chance(1, 4);
        t.add_const_null = !s.chance(1, 3);
        let root = {
            let depth = 1 + s.below(4);
            tidy(&schemagen::root_with_defs(s, &c, depth))
        };
        let (rm, cn) = (t.remove_null_type, t.add_const_null);
        let after = apply(&mut t, &root);
        let name = "AddNullable";
        st.class(&format!("AddNullable remove_null_type={rm} add_const_null={cn}"));
        if after != root {
            st.nontrivial(&(rm, cn, root.to_string()), || json!({"remove_null_type": rm, "add_const_null": cn, "before": root, "after": after}));
        }
        let has_null = |o: &Map<String, Value>| match o.get("type") {
            Some(Value::String(t)) => t == "null",
            Some(Value::Array(a)) => a.iter().any(|t| t == "null"),
            _ => false,
        };
        let left = scan(&after, &|o| {
            if has_null(o) && rm {
                Some("null type".into())
            } else if has_null(o) && o.get("nullable") != Some(&json!(true)) {
                Some("null type without nullable".into())
            } else {
                None
            }
        });
        if let Some(p) = left {
            return fail("AddNullable-left", format!("AddNullable left {p}"), json!({"before": root, "after": after}));
        }
        // the set of subschemas that were nullable is exactly the set marked nullable
        let (mut a, mut b) = (vec![], vec![]);
        schemagen::subschemas(&root, "", &mut a);
        schemagen::subschemas(&after, "", &mut b);
        let pa: BTreeSet<&String> = a.iter().filter(|x| x.1.as_object().is_some_and(|o| has_null(o))).map(|x| &x.0).collect();
        let pb: BTreeSet<&String> = b.iter().filter(|x| x.1.get("nullable") == Some(&json!(true))).map(|x| &x.0).collect();
        if pa != pb {
            return fail("AddNullable-where", "nullable is not set exactly where null was allowed by type", json!({"before": root, "after": after, "options": [rm, cn]}));
        }
        let (ka, kb) = (strip(&root, &["type", "nullable", "const"]), strip(&after, &["type", "nullable", "const"]));
        if ka != kb {
            return fail("AddNullable-other", "AddNullable changed something besides type, nullable and const", json!({"before": root, "after": after}));
        }
        let again = apply(&mut t, &after);
        if again != after {
            return fail("AddNullable-idempotent", "AddNullable is not idempotent", json!({"before": root, "once": after, "twice": again}));
        }
        // meaning, reading nullable
        same_meaning(name, &root, &after, Mode::OpenApi, false, s, st)
    });

    ck.campaign("unevaluated", 160_000, 2_000_000, 600, |s, st| {
        let c = Cfg::modern();
        let mut root = {
            let depth = 1 + s.below(4);
            tidy(&schemagen::root_with_defs(s, &c, depth))
        };
        if s.chance(2, 3) {
            if let Value::Object(o) = &mut root {
                let mut c2 = c.clone();
                c2.refs.clear();
                o.insert("unevaluatedProperties".into(), if s.bool() { json!(false) } else { schemagen::schema(s, &c2, 1) });
                if s.chance(3, 4) {
                    o.remove("$ref");
                }
            }
        }
        let after = apply(&mut ReplaceUnevaluatedProperties::default(), &root);
        if after != root {
            st.nontrivial(&root.to_string(), || json!({"before": root, "after": after}));
        }
        let case = json!({"before": root, "after": after});
        if let Some(p) = scan(&after, &|o| o.contains_key("unevaluatedProperties").then(|| "unevaluatedProperties".into())) {
            return fail("ReplaceUnevaluatedProperties-left", format!("ReplaceUnevaluatedProperties left {p}"), case);
        }
        let h = ["unevaluatedProperties", "additionalProperties", "properties"];
        if strip(&root, &h) != strip(&after, &h) {
            return fail("ReplaceUnevaluatedProperties-other", "ReplaceUnevaluatedProperties changed other keywords", case);
        }
        let again = apply(&mut ReplaceUnevaluatedProperties::default(), &after);
        if again != after {
            return fail("ReplaceUnevaluatedProperties-idempotent", "not idempotent", case);
        }
        // `not`, `oneOf`, `if` and `contains` bounds are not monotone: a superset inside them may shrink the whole
        let monotone = {
            let mut subs = vec![];
            schemagen::subschemas(&root, "", &mut subs);
            !subs.iter().any(|(p, x)| {
                x.get("unevaluatedProperties").is_some() && ["/not", "/oneOf", "/if"].iter().any(|k| p.contains(k))
            }) && !(root.to_string().contains("\"$ref\"") && root.to_string().contains("\"oneOf\"") || root.to_string().contains("\"if\"") || root.to_string().contains("\"not\""))
        };
        // where the restriction sits beside plain named properties, the meaning must be kept exactly
        let exact = {
            let mut subs = vec![];
            schemagen::subschemas(&root, "", &mut subs);
            subs.iter().all(|(_, x)| match x.get("unevaluatedProperties") {
                None => true,
                Some(_) => x.as_object().unwrap().keys().all(|k| {
                    !["$ref", "allOf", "anyOf", "oneOf", "if", "then", "else", "dependentSchemas", "dependencies", "not", "additionalProperties"].contains(&k.as_str())
                }),
            })
        };
        st.class(if exact { "exact" } else if monotone { "superset" } else { "non-monotone context" });
        if exact || monotone {
            return same_meaning("ReplaceUnevaluatedProperties", &root, &after, Mode::Modern, !exact, s, st);
        }
        Ok(())
    });

    // allOf / anyOf of closed objects: the exact form used by flattening must keep its restriction
    ck.campaign("unevaluated-flatten", 60_000, 800_000, 200, |s, st| {
        let names = ["a", "b", "c", "d", "e", "f"];
        let branch = |s: &mut Src| {
            let mut p = Map::new();
            for _ in 0..s.below(3) {
                p.insert((*s.pick(&names)).into(), s.pick(&[json!({"type": "integer"}), json!(true), json!({"type": "string"})]).clone());
            }
            let mut b = json!({"type": "object", "properties": p});
            if s.bool() {
                b["required"] = json!(p.keys().take(1).collect::<Vec<_>>());
            }
            b
        };
        let mut root = branch(s);
        let mut nested = vec![];
        for _ in 0..1 + s.below(3) {
            nested.push(branch(s));
        }
        match s.below(4) {
            0 => root["allOf"] = json!(nested),
            1 => root["anyOf"] = json!(nested),
            2 => root["allOf"] = json!([{ "anyOf": nested }]),
            _ => {
                root["if"] = nested[0].clone();
                root["then"] = nested.last().unwrap().clone();
            }
        }
        root["unevaluatedProperties"] = s.pick(&[json!(false), json!({"type": "integer"})]).clone();
        let after = apply(&mut ReplaceUnevaluatedProperties::default(), &root);
        st.nontrivial(&root.to_string(), || json!({"before": root, "after": after}));
        // a property mentioned nowhere keeps being restricted
        let mut doc = jsongen::instance(s, &root, &root, 4, &[]);
        if let Value::Object(o) = &mut doc {
            o.insert("zz".into(), json!("not an integer"));
            if Eval::new(&after, Mode::Modern).valid(&doc) {
                return fail("ReplaceUnevaluatedProperties-lost", format!("restriction on unmentioned property lost: accepts {doc}"), json!({"before": root, "after": after}));
            }
        }
        same_meaning("ReplaceUnevaluatedProperties", &root, &after, Mode::Modern, true, s, st)
    });

    ck.campaign("restrict-formats", 160_000, 2_000_000, 400, |s, st| {
        const M7: &str = "http://json-schema.org/draft-07/schema#";
        const M19: &str = "https://json-schema.org/draft/2019-09/schema";
        const M20: &str = "https://json-schema.org/draft/2020-12/schema";
        let mut c = Cfg::modern();
        c.formats = vec![
            "date-time", "date", "time", "email", "idn-email", "hostname", "idn-hostname", "ipv4", "ipv6", "uri", "uri-reference", "iri",
            "iri-reference", "uri-template", "json-pointer", "relative-json-pointer", "regex", "duration", "uuid", "int32", "custom", "double", "",
        ];
        c.nested_meta = vec![M7, M19, M20, "http://unknown", "https://spec.openapis.org/oas/3.0/schema/2024-10-18#/definitions/Schema"];
        let mut t = RestrictFormats::default();
        t.infer_from_meta_schema = !s.chance(1, 4);
        let mut allowed: BTreeSet<String> = BTreeSet::new();
        for _ in 0..s.below(3) {
            let f = (*s.pick(&c.formats)).to_string();
            t.allowed_formats.insert(f.clone().into());
            allowed.insert(f);
        }
        let mut root = schemagen::schema(s, &c, 4);
        if let Value::Object(o) = &mut root {
            if s.chance(4, 5) {
                o.insert("$schema".into(), json!(s.pick(&[M20, M20, M19, M7, "http://unknown"])));
            }
            if s.bool() {
                o.insert("format".into(), json!(s.pick(&c.formats)));
            }
        }
        let infer = t.infer_from_meta_schema;
        let after = apply(&mut t, &root);
        let d7: Vec<&str> = c.formats[..17].to_vec();
        fn go(v: &Value, inferred: u8, infer: bool, allowed: &BTreeSet<String>, d7: &[&str]) -> Value {
            let Value::Object(o) = v else { return v.clone() };
            let mut inf = inferred;
            if infer && o.contains_key("$schema") {
                inf = match o["$schema"].as_str() {
                    Some("http://json-schema.org/draft-07/schema#") => 1,
                    Some("https://json-schema.org/draft/2019-09/schema") | Some("https://json-schema.org/draft/2020-12/schema") => 2,
                    _ => return v.clone(),
                };
            }
            let mut o = o.clone();
            if let Some(f) = o.get("format").and_then(Value::as_str) {
                // documented: with a missing meta-schema nothing is removed
                let ok = (infer && inf == 0) || allowed.contains(f) || (inf >= 1 && d7.contains(&f)) || (inf == 2 && (f == "duration" || f == "uuid"));
                if !ok {
                    o.remove("format");
                }
            }
            one_level(&Value::Object(o), &|x| go(x, inf, infer, allowed, d7))
        }
        let expect = go(&root, 0, infer, &allowed, &d7);
        if after != root {
            st.nontrivial(&(infer, &allowed, root.to_string()), || json!({"infer": infer, "allowed": allowed, "before": root, "after": after}));
        }
        if after != expect {
            return fail("RestrictFormats-exact", "RestrictFormats kept or removed a format it should not have", json!({"infer": infer, "allowed": allowed, "before": root, "after": after, "expected": expect}));
        }
        if apply(&mut t, &after) != after {
            return fail("RestrictFormats-idempotent", "RestrictFormats is not idempotent", json!({"before": root, "after": after}));
        }
        Ok(())
    });

}
