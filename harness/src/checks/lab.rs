//! Checks that run inside generated programs (see `labrun`).
use crate::eval::{self, Eval, Mode};
use crate::jsongen;
use crate::lab::{self, Ctx};
use crate::run::*;
use crate::Src;
use schemars::generate::SchemaSettings;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::rc::Rc;

pub type CheckFn = fn(&mut Ctx, &mut Src, &mut Stats) -> CaseResult;

pub fn check(prop: &str) -> CheckFn {
    match prop {
        "C01" => c01,
        "C02" => c02,
        "C03" => c03,
        "C04" => super::derived::c04,
        "C05" => super::derived::c05,
        "C06" => super::derived::c06,
        "C08" => super::derived::c08,
        "C09" => super::derived::c09,
        "C14" => super::wrappers::check,
        "C15" => super::spelling::check,
        "C16" => super::validation::check,
        "C17" => super::metadata::check,
        "C21" => super::generics::check,
        "C19" => super::builtin::check,
        _ => panic!("no lab check for {prop}"),
    }
}

fn schema(ctx: &mut Ctx, i: usize, ser: bool) -> Rc<Value> {
    let r = ctx.unit.roots[i].clone();
    ctx.cached(&format!("schema {i} {ser}"), || {
        let st = SchemaSettings::draft2020_12();
        let st = if ser { st.for_serialize() } else { st.for_deserialize() };
        (r.schema)(&st).to_value()
    })
}
fn flag(ctx: &Ctx, k: &str) -> bool {
    ctx.meta[k] == true
}
fn rflag(ctx: &Ctx, i: usize, k: &str) -> bool {
    ctx.meta["roots"][i][k] == true
}
fn pick_root(ctx: &Ctx, s: &mut Src) -> usize {
    s.below(ctx.unit.roots.len())
}
fn object_locs(v: &Value) -> Vec<Vec<String>> {
    let mut c = v.clone();
    jsongen::all_locations(v).into_iter().filter(|p| jsongen::at_mut(&mut c, p).is_object()).collect()
}
fn ptr(p: &[String]) -> String {
    p.iter().map(|x| format!("/{}", crate::schemagen::esc(x))).collect()
}

// ------------------------------------------------------------------------------------------ C01

fn c01(ctx: &mut Ctx, s: &mut Src, st: &mut Stats) -> CaseResult {
    let i = pick_root(ctx, s);
    let r = ctx.unit.roots[i].clone();
    let sch = schema(ctx, i, true);
    let required_round = ctx.meta["roots"][i]["struct"] == true && s.chance(1, 12);
    let n = if required_round { 90 } else { 4 };
    let mut always: Option<BTreeSet<String>> = None;
    let mut last = Value::Null;
    for k in 0..n {
        let text = if required_round {
            // (enough choices not to run out: what follows that would be the same every time)
            let c = lab::choices(s.next() as u64 * 31 + k, 4000);
            let mut cs = Src::new(&c);
            let t = (r.gen.unwrap())(&mut cs);
            if cs.exhausted() {
                continue;
            }
            t
        } else {
            (r.gen.unwrap())(s)
        };
        let text = match text {
            Ok(t) => t,
            Err(_) => {
                st.class("serializing fails");
                continue;
            }
        };
        let Some(doc) = lab::parse_unique(&text) else {
            st.class("value serializes with duplicate keys: skipped");
            continue;
        };
        let v = Eval::new(&sch, Mode::Modern).valid(&doc);
        if !v && eval::confirmed(&sch, &doc, false) {
            return fail("ser-rejects", format!("{} {}: the serialized value {doc} does not validate against the serialize schema", ctx.unit.name, r.name), json!({"schema": *sch, "document": doc}));
        }
        st.class(if doc.is_object() { "object documents" } else { "other documents" });
        if let Value::Object(o) = &doc {
            if required_round {
                let keys: BTreeSet<String> = o.keys().cloned().collect();
                always = Some(match always {
                    None => keys,
                    Some(a) => a.intersection(&keys).cloned().collect(),
                });
            }
        }
        if doc.is_object() || doc.is_array() {
            st.nontrivial(&(ctx.unit.name, i, doc.to_string()), || json!({"type": r.name, "unit": ctx.unit.name, "document": doc, "schema": *sch}));
        }
        last = doc;
    }
    if let Some(a) = always {
        for k in a {
            let mut d = last.clone();
            let Some(o) = d.as_object_mut() else { break };
            if o.remove(&k).is_none() {
                continue;
            }
            st.class("always-present key deleted");
            if Eval::new(&sch, Mode::Modern).valid(&d) && eval::confirmed(&sch, &d, true) {
                return fail(
                    "not-required",
                    format!("{} {}: property {k:?} is in every serialized value but the serialize schema does not require it", ctx.unit.name, r.name),
                    json!({"schema": *sch, "property": k}),
                );
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C02

fn base_doc(ctx: &mut Ctx, i: usize, s: &mut Src, st: &mut Stats) -> Option<Value> {
    let r = ctx.unit.roots[i].clone();
    let g = r.gen_de.or(r.gen).unwrap();
    let text = match g(s) {
        Ok(t) => t,
        Err(_) => {
            st.class("serializing fails");
            return None;
        }
    };
    lab::parse_unique(&text)
}

fn scalar_or_null(s: &mut Src) -> Value {
    if s.chance(1, 4) {
        Value::Null
    } else {
        jsongen::scalar(s)
    }
}

fn c02(ctx: &mut Ctx, s: &mut Src, st: &mut Stats) -> CaseResult {
    let i = pick_root(ctx, s);
    let r = ctx.unit.roots[i].clone();
    let sch = schema(ctx, i, false);
    let Some(mut doc) = base_doc(ctx, i, s, st) else { return Ok(()) };
    let kind = s.below(8);
    let mut what = "as serialized";
    let mut replaced = false;
    match kind {
        0 => {}
        1 | 2 => {
            what = "keys dropped";
            for _ in 0..1 + s.below(2) {
                let locs: Vec<_> = object_locs(&doc);
                if locs.is_empty() {
                    break;
                }
                let l = s.pick(&locs).clone();
                replaced |= !l.is_empty();
                let o = jsongen::at_mut(&mut doc, &l).as_object_mut().unwrap();
                let ks: Vec<String> = o.keys().cloned().collect();
                if !ks.is_empty() {
                    o.remove(s.pick(&ks));
                }
            }
        }
        3 | 4 => {
            what = "keys added";
            for _ in 0..1 + s.below(2) {
                let locs: Vec<_> = object_locs(&doc);
                if locs.is_empty() {
                    break;
                }
                let l = s.pick(&locs).clone();
                let k = if !rflag(ctx, i, "flatext") && s.chance(1, 2) { <String as lab::Gen>::gen(s, 1) } else { s.pick(&["zz", "extra", "ZZ"]).to_string() };
                // (no arrays: serde also reads structs from arrays; no empty objects: serde also reads
                // `()` from them where it buffers content)
                let v = match scalar_or_null(s) {
                    // (serde also takes the index of a variant for its tag)
                    Value::Number(_) if !k.starts_with("zz") => Value::Null,
                    v => v,
                };
                let o = jsongen::at_mut(&mut doc, &l).as_object_mut().unwrap();
                if !o.contains_key(&k) {
                    o.insert(k, v);
                }
            }
        }
        5 | 6 => {
            what = "scalar replaced";
            replaced = true;
            let mut c = doc.clone();
            let locs: Vec<_> = jsongen::all_locations(&doc).into_iter().filter(|p| { let t = jsongen::at_mut(&mut c, p); !t.is_object() && !t.is_array() }).collect();
            if !locs.is_empty() {
                let l = s.pick(&locs).clone();
                let t = jsongen::at_mut(&mut doc, &l);
                let n = scalar_or_null(s);
                // (serde also takes the index of a variant for its tag)
                if !(t.is_string() && n.is_number()) {
                    *t = n;
                }
            }
        }
        _ => {
            what = "part replaced by null";
            replaced = true;
            let l = s.pick(&jsongen::all_locations(&doc)).clone();
            *jsongen::at_mut(&mut doc, &l) = Value::Null;
        }
    }
    let text = doc.to_string();
    if let Err(e) = (r.accepts.unwrap())(&text) {
        st.class(&format!("serde rejects: {what}"));
        if kind == 0 {
            st.class(&format!("own document rejected: {}", e.chars().take(40).collect::<String>()));
        }
        return Ok(());
    }
    st.class(&format!("accepted: {what}"));
    if doc.is_object() || doc.is_array() {
        st.nontrivial(&(ctx.unit.name, i, &text), || json!({"type": r.name, "unit": ctx.unit.name, "kind": what, "document": doc, "schema": *sch}));
    }
    if Eval::new(&sch, Mode::Modern).valid(&doc) {
        return Ok(());
    }
    if !c02_applies(ctx, i, &sch, &doc, kind, replaced) {
        st.class(&format!("outside the documented representation: {what}"));
        return Ok(());
    }
    if eval::confirmed(&sch, &doc, false) {
        return fail("de-rejects", format!("{} {}: serde deserializes {doc} ({what}) but the deserialize schema rejects it", ctx.unit.name, r.name), json!({"schema": *sch, "document": doc}));
    }
    Ok(())
}

/// Leaves out documents serde accepts although they are not in the documented representation.
fn c02_applies(ctx: &Ctx, i: usize, sch: &Value, doc: &Value, kind: usize, replaced: bool) -> bool {
    // sets are documented as arrays of unique items
    let mut loose = sch.clone();
    strip(&mut loose, "uniqueItems");
    if Eval::new(&loose, Mode::Modern).valid(doc) {
        return false;
    }
    if kind == 0 {
        return true;
    }
    // serde reads a unit variant from `{"Variant": null}` too
    if flag(ctx, "untagged") && rflag(ctx, i, "flatext") && kind != 0 {
        return false;
    }
    // serde allows a null content for an adjacently tagged unit variant
    if rflag(ctx, i, "adjdeny") && (kind == 3 || kind == 4) {
        return false;
    }
    // (which an untagged variant may hold otherwise)
    if flag(ctx, "untagged") && object_locs(doc).iter().any(|p| doc.pointer(&ptr(p)).and_then(Value::as_object).is_some_and(|o| o.len() == 1 && o.values().all(Value::is_null))) {
        return false;
    }
    // (so do variants of untagged enums, once a property is missing)
    if flag(ctx, "optflat") && flag(ctx, "untagged") && (kind == 1 || kind == 2) {
        return false;
    }
    // serde drops a flattened `Option` that does not parse
    if flag(ctx, "optflat") && (replaced || kind == 3 || kind == 4 || ["Properties\":false", "unevaluatedProperties"].iter().any(|x| sch.to_string().contains(x))) {
        return false;
    }
    // serde also reads structs and tagged enums from arrays; only reachable here where an untagged
    // enum tries a struct on a (mutated) array
    if flag(ctx, "untagged") && jsongen::all_locations(doc).iter().any(|p| doc.pointer(&ptr(p)).is_some_and(Value::is_array)) {
        return false;
    }
    true
}
fn strip(v: &mut Value, k: &str) {
    match v {
        Value::Object(o) => {
            if o.get(k).is_some_and(Value::is_boolean) {
                o.remove(k);
            }
            o.values_mut().for_each(|x| strip(x, k));
        }
        Value::Array(a) => a.iter_mut().for_each(|x| strip(x, k)),
        _ => {}
    }
}

// ------------------------------------------------------------------------------------------ C03

fn kind_of(v: &Value) -> usize {
    match v {
        Value::Null => 0,
        Value::Bool(_) => 1,
        Value::Number(_) => 2,
        Value::String(_) => 3,
        Value::Array(_) => 4,
        Value::Object(_) => 5,
    }
}

fn c03(ctx: &mut Ctx, s: &mut Src, st: &mut Stats) -> CaseResult {
    let i = pick_root(ctx, s);
    let r = ctx.unit.roots[i].clone();
    let accepts = r.accepts.unwrap();
    let sch = schema(ctx, i, false);
    let Some(base) = base_doc(ctx, i, s, st) else { return Ok(()) };
    if accepts(&base.to_string()).is_err() {
        st.class("base document rejected by serde");
        return Ok(());
    }
    for _ in 0..3 {
        let mut doc = base.clone();
        let locs = jsongen::all_locations(&doc);
        let l = s.pick(&locs).clone();
        let kind = s.below(6);
        let t = jsongen::at_mut(&mut doc, &l);
        let what;
        match (kind, &mut *t) {
            (0, Value::Object(o)) if !o.is_empty() => {
                let ks: Vec<String> = o.keys().cloned().collect();
                o.remove(s.pick(&ks));
                what = "property dropped";
            }
            (1, Value::Object(o)) if o.len() == 1 => {
                let (_, v) = o.iter().next().map(|(k, v)| (k.clone(), v.clone())).unwrap();
                o.clear();
                o.insert("zzUnknown".into(), v);
                what = "only property renamed";
            }
            (2, Value::Object(o)) => {
                o.insert("zzExtra".into(), jsongen::scalar(s));
                what = "unknown property added";
            }
            (0, Value::Array(a)) if !a.is_empty() => {
                a.pop();
                what = "element removed";
            }
            (1 | 2, Value::Array(a)) => {
                let v = a.last().cloned().unwrap_or(json!(1));
                a.push(v);
                what = "element added";
            }
            (0 | 1 | 2, Value::String(x)) => {
                *x = "zzUnknown".into();
                what = "string replaced";
            }
            (_, t) => {
                let mut k = s.below(6);
                if k == kind_of(t) {
                    k = (k + 1) % 6;
                }
                *t = match k {
                    0 => Value::Null,
                    1 => json!(true),
                    2 => json!(*s.pick(&[1, 300, -1])),
                    3 => json!("zzUnknown"),
                    4 => json!([]),
                    _ => json!({}),
                };
                what = "JSON type changed";
            }
        }
        let text = doc.to_string();
        let Err(e) = accepts(&text) else {
            st.class(&format!("still accepted: {what}"));
            continue;
        };
        if what == "unknown property added" && !e.contains("unknown field") {
            st.class("extra property rejected for another reason");
            continue;
        }
        // (which the text stands for is for its function to say)
        if flag(ctx, "as_str") && flag(ctx, "untagged") {
            continue;
        }
        if flag(ctx, "as_str") && doc.pointer(&ptr(&l)).is_some_and(Value::is_string) {
            continue;
        }
        // the keys of maps are not described
        if what == "only property renamed" && (flag(ctx, "enumkeys") || !e.contains("unknown variant")) {
            continue;
        }
        // the value type of a map flattened into a variant cannot be expressed when that variant is
        // in turn flattened or tagged internally
        if flag(ctx, "variantmap") && l.iter().any(|x| x.starts_with("zk ")) {
            continue;
        }
        if rflag(ctx, i, "loose") || (what == "unknown property added" && rflag(ctx, i, "loose_deny")) {
            continue;
        }
        // 1.0 is an integer in JSON Schema
        if jsongen::all_locations(&doc).iter().any(|p| doc.pointer(&ptr(p)).is_some_and(|x| x.is_f64() && x.as_f64().unwrap().fract() == 0.0)) {
            continue;
        }
        // the range of an integer may decide which untagged variant is meant
        if flag(ctx, "untagged") && jsongen::all_locations(&doc).iter().any(|p| doc.pointer(&ptr(p)).is_some_and(|x| x.is_number() && !x.as_f64().is_some_and(|f| (0.0..=127.0).contains(&f)))) {
            continue;
        }
        st.class(&format!("rejected: {what}"));
        st.nontrivial(&(ctx.unit.name, i, &text), || json!({"type": r.name, "unit": ctx.unit.name, "fault": what, "document": doc, "serde": e, "schema": *sch}));
        if !Eval::new(&sch, Mode::Modern).valid(&doc) {
            continue;
        }
        if eval::confirmed(&sch, &doc, true) {
            return fail(
                "de-accepts",
                format!("{} {}: {doc} ({what}) is rejected by serde ({e}) but accepted by the deserialize schema", ctx.unit.name, r.name),
                json!({"schema": *sch, "document": doc, "base": base, "serde": e}),
            );
        }
    }
    Ok(())
}
