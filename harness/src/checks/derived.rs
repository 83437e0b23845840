//! C04-C06, C08 and C09 over derived types (the type graphs of `graph` write their schemas by hand).
use crate::dialect;
use crate::dynty::{self, definitions_path, documents, refs_resolve, stock};
use crate::eval::{self, Eval};
use crate::lab::{Ctx, Root};
use crate::run::*;
use crate::src::Src;
use crate::schemagen;
use schemars::generate::SchemaSettings;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

fn settings(i: usize, ser: bool, inline: bool) -> SchemaSettings {
    let (_, mut st, _) = stock(i);
    st.inline_subschemas = inline;
    if ser {
        st.for_serialize()
    } else {
        st
    }
}
fn get(ctx: &mut Ctx, k: usize, i: usize, ser: bool, inline: bool) -> Rc<Value> {
    let r = ctx.unit.roots[k].clone();
    ctx.cached(&format!("{k} {i} {ser} {inline}"), || (r.schema)(&settings(i, ser, inline)).to_value())
}
fn pick(ctx: &Ctx, s: &mut Src) -> (usize, Root) {
    let k = s.below(ctx.unit.roots.len());
    (k, ctx.unit.roots[k].clone())
}
/// A document: a value of the type (often mutated), or one aimed at the schema.
fn doc(r: &Root, model: &Value, s: &mut Src) -> Value {
    if s.bool() {
        if let Some(v) = r.gen.and_then(|g| g(s).ok()).and_then(|t| crate::lab::parse_unique(&t)) {
            let mut v = v;
            if s.chance(2, 3) {
                let vocab = crate::jsongen::vocabulary(model);
                for _ in 0..1 + s.below(2) {
                    crate::jsongen::mutate(s, &mut v, &vocab);
                }
            }
            return v;
        }
    }
    documents(s, model, 2).pop().unwrap()
}

pub fn c04(ctx: &mut Ctx, s: &mut Src, st: &mut Stats) -> CaseResult {
    let (k, r) = pick(ctx, s);
    let (ser, inline) = (s.bool(), s.chance(1, 3));
    let a = get(ctx, k, 0, ser, inline);
    for i in 0..4 {
        let x = get(ctx, k, i, ser, inline);
        if let Err(e) = dialect::conforms(i, &x) {
            return fail(format!("{}-conformance", dialect::NAMES[i]), format!("{}: {}: {e}", r.name, dialect::NAMES[i]), json!({"schema": *x}));
        }
        if i > 0 && x != a {
            st.nontrivial(&(ctx.unit.name, k, i, ser, inline), || json!({"draft2020_12": *a, "other": *x}));
        }
    }
    Ok(())
}

pub fn c05(ctx: &mut Ctx, s: &mut Src, st: &mut Stats) -> CaseResult {
    let (k, r) = pick(ctx, s);
    let (ser, inline) = (s.bool(), s.chance(1, 3));
    let sch: [Value; 4] = [0, 1, 2, 3].map(|i| (*get(ctx, k, i, ser, inline)).clone());
    let sup = dialect::has_combined_restriction(&sch[0]);
    if sch.iter().any(eval::loops_in_place) {
        st.class("schema that refers to itself in place: not evaluated");
        return Ok(());
    }
    for _ in 0..3 {
        let d = doc(&r, &sch[0], s);
        match dialect::agree(&sch, &d, sup) {
            Ok(a) => st.class(if a { "derived: document accepted" } else { "derived: document rejected" }),
            Err(e) => return fail("dialects-disagree", format!("{} {}: {e}", ctx.unit.name, r.name), json!({"draft2020_12": sch[0], "draft07": sch[1], "draft2019_09": sch[2], "openapi3": sch[3], "document": d})),
        }
        st.nontrivial(&(ctx.unit.name, k, d.to_string()), || json!({"draft2020_12": sch[0], "document": d}));
    }
    Ok(())
}

pub fn c06(ctx: &mut Ctx, s: &mut Src, st: &mut Stats) -> CaseResult {
    let (_, r) = pick(ctx, s);
    let (_, mut set, mut plain) = stock(s.below(4));
    let p;
    if s.bool() {
        let (w, q) = definitions_path(s);
        // (the type's own schema must not occupy the place)
        if q.starts_with("/x") || q.starts_with("/$defs") || q.starts_with("/definitions") || q.starts_with("/components") || q.starts_with("/a b") {
            set.definitions_path = w.into();
            p = q;
            plain = &p;
        }
    }
    set.inline_subschemas = s.chance(1, 4);
    if s.bool() {
        set = set.for_serialize();
    }
    let root = (r.schema)(&set).to_value();
    match refs_resolve(&root, plain) {
        Ok(n) => {
            if n >= 2 {
                st.nontrivial(&root.to_string(), || json!({"schema": root}));
            }
            Ok(())
        }
        Err(e) => fail("unresolved", format!("{} {}: {e}", ctx.unit.name, r.name), json!({"definitions_path": set.definitions_path, "schema": root})),
    }
}

/// Definitions reachable (over one or more references) from each definition.
fn reaches_itself(root: &Value, plain: &str) -> BTreeMap<String, bool> {
    let Some(defs) = dynty::defs_at(root, plain) else { return BTreeMap::new() };
    let edges: BTreeMap<&String, BTreeSet<String>> = defs
        .iter()
        .map(|(n, v)| {
            let mut subs = vec![];
            schemagen::subschemas(v, "", &mut subs);
            let out = subs
                .iter()
                .filter_map(|(_, x)| x.get("$ref")?.as_str())
                .filter_map(|r| defs.keys().find(|k| eval::resolve(root, r).is_some_and(|y| std::ptr::eq(y, &defs[*k]))).cloned().or(if r == "#" { Some("#".into()) } else { None }))
                .collect();
            (n, out)
        })
        .collect();
    let mut body = root.clone();
    if let Value::Object(o) = &mut body {
        o.remove(plain.split('/').nth(1).unwrap());
    }
    defs.keys()
        .map(|n| {
            let mut seen = BTreeSet::new();
            let mut todo: Vec<String> = edges[n].iter().cloned().collect();
            while let Some(x) = todo.pop() {
                if x == "#" {
                    seen.insert(n.clone());
                }
                if seen.insert(x.clone()) {
                    todo.extend(edges.get(&x).into_iter().flatten().cloned());
                }
            }
            (n.clone(), seen.contains(n))
        })
        .collect()
}

pub fn c08(ctx: &mut Ctx, s: &mut Src, st: &mut Stats) -> CaseResult {
    let (k, r) = pick(ctx, s);
    let (i, ser) = (s.weighted(&[4, 2, 1, 2]), s.bool());
    let (a, b) = (get(ctx, k, i, ser, false), get(ctx, k, i, ser, true));
    let case = |d: &Value| json!({"referenced": *a, "inlined": *b, "document": d});
    let who = format!("{} {}", ctx.unit.name, r.name);
    let (_, _, plain) = stock(i);
    for (n, rec) in reaches_itself(&b, plain) {
        st.class("definition left when inlining");
        // (by how the types are written where that is known: a definition need not lead back to itself once the types
        // flattened into it are unrolled)
        let known = &ctx.meta["recursive"];
        let rec = rec || reaches_itself(&a, plain).get(&n) == Some(&true);
        let rec = rec || known[&n] == true || (known[&n].is_null() && known[n.trim_end_matches(|c: char| c.is_ascii_digit())] == true);
        if !rec {
            return fail("needless-definition", format!("{who}: with inlining the definition {n:?} is left although it is not recursive"), case(&Value::Null));
        }
    }
    if eval::loops_in_place(&a) || eval::loops_in_place(&b) {
        st.class("schema that refers to itself in place: not evaluated");
        return Ok(());
    }
    let mode = eval::mode_of(&a);
    for _ in 0..3 {
        let d = doc(&r, &a, s);
        let (x, y) = (Eval::new(&a, mode).valid(&d), Eval::new(&b, mode).valid(&d));
        st.class(if x { "derived: document accepted" } else { "derived: document rejected" });
        if a != b {
            st.nontrivial(&(ctx.unit.name, k, d.to_string()), || case(&d));
        }
        if x != y && eval::confirmed(&a, &d, x) && eval::confirmed(&b, &d, y) {
            return fail("inline-meaning", format!("{who}: document {d} is {} with references and {} inlined", if x { "accepted" } else { "rejected" }, if y { "accepted" } else { "rejected" }), case(&d));
        }
    }
    Ok(())
}

pub fn c09(ctx: &mut Ctx, s: &mut Src, st: &mut Stats) -> CaseResult {
    crate::lab::steady(); // (default values may involve conversions)
    let (k, r) = pick(ctx, s);
    let (i, ser, inline) = (s.below(4), s.bool(), s.chance(1, 4));
    let set = settings(i, ser, inline);
    let first = get(ctx, k, i, ser, inline);
    let again = (r.schema)(&set.clone()).to_value();
    if *first != again || first.to_string() != again.to_string() {
        return fail("not-deterministic", format!("{} {}: generating the schema again gave another schema", ctx.unit.name, r.name), json!({"first": *first, "again": again}));
    }
    // after other types went through the generator, the schema is the same (up to definition names)
    let (_, _, plain) = stock(i);
    let (j, q) = pick(ctx, s);
    let doc = |sub: schemars::Schema, defs: &serde_json::Map<String, Value>| -> Option<Value> {
        let mut d = dynty::document(defs, plain);
        for (x, y) in sub.to_value().as_object()? {
            d[x.as_str()] = y.clone();
        }
        Some(d)
    };
    let mut g = set.clone().into_generator();
    (q.sub)(&mut g);
    let after = (r.sub)(&mut g);
    let both = g.take_definitions(false);
    let mut h = set.into_generator();
    let alone = (r.sub)(&mut h);
    let one = h.take_definitions(false);
    if let (Some(x), Some(y)) = (doc(alone, &one), doc(after, &both)) {
        // (how far recursive types are unrolled when inlining depends on where generation starts)
        if inline && (ctx.meta["recursion"] == true || ctx.meta["recursive"].as_object().is_some_and(|m| m.iter().any(|(n, v)| n != "G" && *v == true))) {
            if eval::loops_in_place(&x) || eval::loops_in_place(&y) {
                return Ok(());
            }
            let mode = eval::mode_of(&first);
            for _ in 0..3 {
                let d = self::doc(&r, &x, s);
                let (p, q) = (Eval::new(&x, mode).valid(&d), Eval::new(&y, mode).valid(&d));
                st.class("document compared");
                if p != q {
                    return fail("definition-differs", format!("{} {}: accepts other documents once other types were generated before", ctx.unit.name, r.name), json!({"alone": x, "after": y, "document": d}));
                }
            }
        } else if let Err(e) = crate::equiv::same(&x, &y, false) {
            return fail("definition-differs", format!("{} {}: another schema once {} was generated before (inline_subschemas: {inline}): {e}", ctx.unit.name, r.name, q.name), json!({"alone": x, "after": y}));
        }
    }
    if !one.is_empty() && j != k {
        st.nontrivial(&(ctx.unit.name, k, j, i, ser, inline), || json!({"schema": *first}));
    }
    Ok(())
}
