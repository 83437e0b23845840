//! C06 references resolve, C07 references reach their own type, C08 inlining, C09 determinism and
//! route independence, plus the type-graph parts of C04 and C05: generated type graphs (`Dyn<N>`).
use crate::dynty::{self, *};
use crate::eval::{self, Eval, Mode};
use crate::run::*;
use crate::Src;
use schemars::generate::{SchemaGenerator, SchemaSettings};
use schemars::transform::Transform;
use schemars::Schema;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

fn cfg(wild: bool) -> GraphCfg {
    GraphCfg { wild_names: wild, inline: true, bool_types: false, const_marks: true }
}

fn settings(s: &mut Src) -> (String, SchemaSettings, String, Value) {
    let (name, mut st, plain) = stock(s.weighted(&[4, 2, 1, 2]));
    let mut plain = plain.to_string();
    let mut written = st.definitions_path.to_string();
    if s.chance(1, 2) {
        let (w, p) = definitions_path(s);
        st.definitions_path = w.clone().into();
        written = w;
        plain = p;
    }
    st.inline_subschemas = s.chance(1, 4);
    if s.chance(1, 3) {
        st = st.for_serialize();
    }
    let d = json!({"dialect": name, "definitions_path": written, "inline_subschemas": st.inline_subschemas, "contract": contract_name(&st.contract)});
    (name.into(), st, plain, d)
}

/// schema names become root keywords when the definitions live at the root
fn settle_names(t: &mut Table, plain: &str) {
    if plain.is_empty() {
        for (i, s) in t.iter_mut().enumerate() {
            if s.name.is_empty() || s.name.starts_with('$') {
                s.name = format!("N{i}{}", s.name);
            }
        }
    }
}

fn roots(s: &mut Src, t: &Table) -> (usize, Wrap) {
    // prefer a root that reaches recursion
    let mut n = s.below(N);
    for _ in 0..3 {
        if reach(t, n).len() >= 2 {
            break;
        }
        n = s.below(N);
    }
    let w = if s.chance(1, 4) { *s.pick(WRAPS) } else { Wrap::Direct };
    (n, w)
}

fn classify(st: &mut Stats, t: &Table, n: usize) -> usize {
    let r = reach(t, n);
    st.class(match r.len() {
        0 => "reaches no other type",
        1..=2 => "reaches 1-2 types",
        _ => "reaches >=3 types",
    });
    if r.iter().any(|k| recursive(t, *k)) {
        st.class("recursive");
    }
    if recursive(t, n) {
        st.class("root recursive");
    }
    let names: BTreeSet<&String> = r.iter().map(|k| &t[*k].name).collect();
    if names.len() < r.len() {
        st.class("colliding schema names");
    }
    r.len()
}

pub fn c06() -> Check {
    Check::new(
        "C06",
        "generated type graphs (recursion, colliding and arbitrary Unicode schema names, inline flags, wrappers) x definitions paths x stock settings; \
         every $ref is resolved by an independent strict RFC 3986/6901 resolver; non-trivial: the document has at least 2 references",
    )
}
pub fn run_c06(ck: &mut Check) {
    ck.campaign("graphs", 120_000, 2_000_000, 260, |s, st| {
        let (_, set, plain, d) = settings(s);
        let mut c = cfg(s.chance(4, 5));
        c.bool_types = s.chance(1, 3);
        let mut t = table(s, &c);
        settle_names(&mut t, &plain);
        set_table(&t);
        let (n, w) = roots(s, &t);
        classify(st, &t, n);
        let mut g = set.clone().into_generator();
        // sometimes the generator has been used before
        if s.chance(1, 3) {
            for _ in 0..1 + s.below(2) {
                let (m, v) = (s.below(N), *s.pick(WRAPS));
                if s.bool() {
                    dynty::subschema_for(&mut g, m, v);
                } else {
                    dynty::root_schema_for(&mut g, m, v);
                }
            }
        }
        let root = dynty::root_schema_for(&mut g, n, w).to_value();
        let case = json!({"settings": d, "types": show_from(&t, n), "root": n, "wrapper": format!("{w:?}"), "schema": root});
        let k = match refs_resolve(&root, &plain) {
            Ok(k) => k,
            Err(e) => return fail("unresolved", e, case),
        };
        if k >= 2 {
            st.nontrivial(&(d.to_string(), root.to_string()), || json!({"settings": d, "schema": root}));
        }
        // references handed out directly resolve among the generator's definitions
        let (m, v) = (s.below(N), *s.pick(WRAPS));
        let sub = dynty::subschema_for(&mut g, m, v).to_value();
        let mut doc = document(g.definitions(), &plain);
        if let Value::Object(o) = &mut doc {
            if !plain.is_empty() {
                o.insert("allOf".into(), json!([sub]));
            }
        }
        if let Err(e) = refs_resolve(&doc, &plain) {
            return fail("unresolved-definitions", format!("among definitions(): {e}"), json!({"settings": d, "types": show(&t), "subschema_for": m, "wrapper": format!("{v:?}"), "document": doc}));
        }
        let whole = dynty::into_root_schema_for(g, m, v).to_value();
        if let Err(e) = refs_resolve(&whole, &plain) {
            return fail("unresolved-into-root", format!("into_root_schema_for: {e}"), json!({"settings": d, "types": show(&t), "root": m, "wrapper": format!("{v:?}"), "schema": whole}));
        }
        Ok(())
    });
    ck.campaign("schema-from-value-and-containers", 20_000, 200_000, 200, |s, st| {
        // references inside container keys/values built over named types with arbitrary names
        let (_, set, plain, d) = settings(s);
        let mut t = table(s, &cfg(true));
        settle_names(&mut t, &plain);
        set_table(&t);
        let g = set.into_generator();
        type A = Dyn<0>;
        type B = Dyn<1>;
        use std::collections::HashMap;
        let root = match s.below(5) {
            0 => g.into_root_schema_for::<HashMap<String, (A, Option<B>)>>(),
            1 => g.into_root_schema_for::<Vec<Result<Box<A>, Vec<B>>>>(),
            2 => g.into_root_schema_for::<std::ops::Range<Option<A>>>(),
            3 => g.into_root_schema_for::<HashMap<u8, Result<A, B>>>(),
            _ => g.into_root_schema_for::<(A, B, A, std::rc::Rc<A>, std::borrow::Cow<'static, str>)>(),
        }
        .to_value();
        match refs_resolve(&root, &plain) {
            Ok(k) => {
                if k >= 2 {
                    st.nontrivial(&(d.to_string(), root.to_string()), || json!({"settings": d, "schema": root}));
                }
                Ok(())
            }
            Err(e) => fail("unresolved", e, json!({"settings": d, "types": show(&t), "schema": root})),
        }
    });
    super::derive::derived(ck, "c06", (60, 200));
    super::recursion::campaign(ck, "c06r", false, (24, 200));
}

// ---------------------------------------------------------------- C07

struct G {
    g: SchemaGenerator,
    /// name each type (mark) was seen under
    names: BTreeMap<String, String>,
    /// references handed out since the definitions were last taken
    handed: Vec<(Value, usize)>,
    contract: &'static str,
}

fn observe(t: &Table, g: &mut G, defs: &Map<String, Value>, whence: &str) -> Result<(), (String, String)> {
    let before: BTreeSet<String> = g.names.values().cloned().collect();
    let mut fresh: Vec<(String, usize)> = vec![];
    for (name, v) in defs {
        let Some(m) = v.get("x-mark").and_then(Value::as_str) else {
            // definitions of built-in wrappers (Result, Bound) are not ours
            continue;
        };
        let k: usize = m.split('|').next().unwrap().parse().unwrap();
        if !m.ends_with(g.contract) {
            return Err(("contract".into(), format!("{whence}: definition {name:?} has contract {m}")));
        }
        match g.names.get(m) {
            Some(n) if n == name => {}
            Some(n) => return Err(("two-definitions".into(), format!("{whence}: type {k} has definitions {n:?} and {name:?}"))),
            None => {
                if let Some((o, _)) = g.names.iter().find(|x| x.1 == name) {
                    return Err(("shared-definition".into(), format!("{whence}: definition {name:?} was of {o} and is now of {m}")));
                }
                g.names.insert(m.into(), name.clone());
                fresh.push((name.clone(), k));
            }
        }
        if t[k].inline {
            return Err(("inline-definition".into(), format!("{whence}: inline type {k} has a definition {name:?}")));
        }
    }
    let mut used = before;
    used.extend(fresh.iter().map(|x| x.0.clone()));
    // wrapper definitions occupy names too
    used.extend(defs.keys().cloned());
    for (name, k) in fresh {
        let base = &t[k].name;
        if &name == base {
            continue;
        }
        let Some(suffix) = name.strip_prefix(base.as_str()) else {
            return Err(("name".into(), format!("{whence}: type {k} with schema name {base:?} is defined as {name:?}")));
        };
        let num: Option<u64> = suffix.parse().ok().filter(|n: &u64| *n >= 2 && n.to_string() == suffix);
        let Some(num) = num else {
            return Err(("suffix".into(), format!("{whence}: type {k} with schema name {base:?} is defined as {name:?}")));
        };
        let mut lower = vec![base.clone()];
        lower.extend((2..num).map(|i| format!("{base}{i}")));
        if let Some(free) = lower.iter().find(|l| !used.contains(*l)) {
            return Err(("suffix-not-first-free".into(), format!("{whence}: type {k} is defined as {name:?} although {free:?} was never used")));
        }
    }
    Ok(())
}

pub fn c07() -> Check {
    Check::new(
        "C07",
        "generated type graphs with colliding schema names x sequences of 1-12 generator operations (subschema_for, root_schema_for, take_definitions, clone, \
         into_root_schema_for) on a pool of generators, checked after every operation; non-trivial: at least 3 operations and a name collision or recursion among the types used",
    )
}
pub fn run_c07(ck: &mut Check) {
    ck.campaign("operation-sequences", 120_000, 2_000_000, 320, |s, st| {
        let (_, set, plain, d) = settings(s);
        let nops = 1 + s.below(12);
        let ops: Vec<[usize; 4]> = (0..nops).map(|_| [s.weighted(&[6, 4, 2, 1, 1]), s.below(4), s.below(N), if s.chance(1, 3) { s.below(WRAPS.len()) } else { 0 }]).collect();
        let mut t = {
            let c = cfg(s.chance(1, 4));
            table(s, &c)
        };
        settle_names(&mut t, &plain);
        set_table(&t);
        let mut pool = vec![G { contract: contract_name(&set.contract), g: set.clone().into_generator(), names: BTreeMap::new(), handed: vec![] }];
        let mut log: Vec<String> = vec![];
        let mut touched: BTreeSet<usize> = BTreeSet::new();
        for op in &ops {
            let gi = op[1] % pool.len();
            let (n, w) = (op[2], WRAPS[op[3]]);
            let case = |log: &Vec<String>, extra: Value| json!({"settings": d, "operations": log, "types": show(&t), "result": extra});
            let check_defs = |x: &mut G, defs: &Map<String, Value>, whence: &str| -> Result<(), (String, String)> {
                observe(&t, x, defs, whence)?;
                let doc = document(defs, &plain);
                refs_resolve(&doc, &plain).map_err(|e| ("definitions-not-closed".to_string(), format!("{whence}: {e}")))?;
                marks_agree(&t, &doc, &plain, x.contract).map_err(|e| ("wrong-type".to_string(), format!("{whence}: {e}")))?;
                for (r, k) in &x.handed {
                    check_ref(&t, r, *k, &doc, x.contract).map_err(|e| ("handed-out".to_string(), format!("{whence}: {e}")))?;
                }
                Ok(())
            };
            let x = &mut pool[gi];
            touched.insert(n);
            touched.extend(reach(&t, n));
            let r: Result<(), (String, String)> = match op[0] {
                0 => {
                    log.push(format!("g{gi}.subschema_for::<{w:?} {n}>()"));
                    let v = dynty::subschema_for(&mut x.g, n, w).to_value();
                    if w.transparent() {
                        let inlined = t[n].inline || x.g.settings().inline_subschemas;
                        if !inlined && v.as_object().map_or(true, |o| o.keys().ne(["$ref"])) {
                            return fail("not-a-ref", "subschema_for gave something else than a reference for a non-inline type", case(&log, v));
                        }
                        x.handed.push((v, n));
                    }
                    let defs = x.g.definitions().clone();
                    check_defs(x, &defs, "after subschema_for")
                }
                1 => {
                    log.push(format!("g{gi}.root_schema_for::<{w:?} {n}>()"));
                    let before = x.g.definitions().clone();
                    let root = dynty::root_schema_for(&mut x.g, n, w).to_value();
                    check_root(&t, x, &root, n, w, &plain, "root_schema_for").map_err(|e| Fail { sig: e.0, msg: e.1, case: case(&log, root) })?;
                    let defs = x.g.definitions().clone();
                    for (k, v) in &before {
                        if defs.get(k) != Some(v) {
                            return fail("definition-changed", format!("root_schema_for changed the generator's definition {k:?}"), case(&log, json!({"before": v, "after": defs.get(k)})));
                        }
                    }
                    check_defs(x, &defs, "after root_schema_for")
                }
                2 => {
                    log.push(format!("let g{} = g{gi}.clone()", pool.len()));
                    let x = &pool[gi];
                    let y = G { g: x.g.clone(), names: x.names.clone(), handed: x.handed.clone(), contract: x.contract };
                    if y.g.definitions() != x.g.definitions() {
                        return fail("clone-definitions", "a clone has other definitions", case(&log, json!(y.g.definitions())));
                    }
                    if pool.len() < 4 {
                        pool.push(y);
                    }
                    Ok(())
                }
                3 => {
                    log.push(format!("g{gi}.take_definitions(false)"));
                    let before = x.g.definitions().clone();
                    let defs = x.g.take_definitions(false);
                    if defs != before {
                        return fail("take-definitions", "take_definitions(false) did not return the definitions", case(&log, json!(defs)));
                    }
                    if !x.g.definitions().is_empty() {
                        return fail("take-definitions-left", "take_definitions left definitions behind", case(&log, json!(x.g.definitions())));
                    }
                    let r = check_defs(x, &defs, "take_definitions");
                    x.handed.clear();
                    r
                }
                _ => {
                    log.push(format!("g{gi}.into_root_schema_for::<{w:?} {n}>()"));
                    let mut x = if pool.len() == 1 {
                        G { g: pool[0].g.clone(), names: pool[0].names.clone(), handed: vec![], contract: pool[0].contract }
                    } else {
                        pool.remove(gi)
                    };
                    let g = std::mem::take(&mut x.g);
                    let root = dynty::into_root_schema_for(g, n, w).to_value();
                    check_root(&t, &mut x, &root, n, w, &plain, "into_root_schema_for").map_err(|e| Fail { sig: e.0, msg: e.1, case: case(&log, root) })?;
                    Ok(())
                }
            };
            if let Err((sig, msg)) = r {
                return fail(sig, msg, case(&log, json!(pool.get(gi).map(|x| x.g.definitions().clone()))));
            }
            st.class(["op subschema_for", "op root_schema_for", "op clone", "op take_definitions", "op into_root_schema_for"][op[0]]);
        }
        let names: BTreeSet<&String> = touched.iter().map(|k| &t[*k].name).collect();
        let collide = names.len() < touched.len();
        let rec = touched.iter().any(|k| recursive(&t, *k));
        if collide {
            st.class("colliding names");
        }
        if pool.iter().any(|x| x.names.iter().any(|(m, n)| &t[m.split('|').next().unwrap().parse::<usize>().unwrap()].name != n)) {
            st.class("suffix assigned");
        }
        if ops.len() >= 3 && (collide || rec) {
            st.nontrivial(&(d.to_string(), &log, show(&t).to_string()), || json!({"settings": d, "operations": log, "types": show(&t)}));
        }
        Ok(())
    });
}

fn check_ref(t: &Table, v: &Value, k: usize, doc: &Value, contract: &str) -> Result<(), String> {
    let exp = mark(k, contract);
    let target = match v.get("$ref").and_then(Value::as_str) {
        Some(r) => eval::resolve(doc, r).ok_or_else(|| format!("reference {r:?} handed out for type {k} does not resolve"))?,
        None => v,
    };
    let _ = t;
    if target.get("x-mark").and_then(Value::as_str) == Some(exp.as_str()) {
        Ok(())
    } else {
        Err(format!("{v} handed out for type {exp} reaches {}", target.get("x-mark").unwrap_or(target)))
    }
}

fn check_root(t: &Table, x: &mut G, root: &Value, n: usize, w: Wrap, plain: &str, whence: &str) -> Result<(), (String, String)> {
    refs_resolve(root, plain).map_err(|e| ("unresolved".to_string(), format!("{whence}: {e}")))?;
    marks_agree(t, root, plain, x.contract).map_err(|e| ("wrong-type".to_string(), format!("{whence}: {e}")))?;
    if w.transparent() && root.get("x-mark").and_then(Value::as_str) != Some(&mark(n, x.contract)) {
        return Err(("root-type".into(), format!("{whence}: root schema is of {:?}", root.get("x-mark"))));
    }
    if plain.is_empty() {
        // definitions are mixed with the root's own keywords
        let defs: Map<String, Value> = root
            .as_object()
            .unwrap()
            .iter()
            .filter(|(_, v)| v.get("x-mark").is_some())
            .filter(|(k, _)| !["items", "additionalProperties", "properties"].contains(&k.as_str()))
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect();
        return observe(t, x, &defs, whence);
    }
    if let Some(defs) = defs_at(root, plain) {
        let defs = defs.clone();
        observe(t, x, &defs, whence)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

pub fn c08() -> Check {
    Check::new(
        "C08",
        "generated type graphs x stock settings and contracts, inlined against not inlined against the graph's reference meaning, on documents aimed at the graph and \
         mutated; remaining references must be to recursive types; inline types never have definitions; non-trivial: the root reaches at least 2 types",
    )
}
pub fn run_c08(ck: &mut Check) {
    ck.campaign("inline-equivalence", 60_000, 900_000, 420, |s, st| {
        let di = s.weighted(&[4, 2, 1, 2]);
        let ser = s.chance(1, 3);
        let mut c = cfg(false);
        c.bool_types = s.chance(1, 4);
        let (dialect, mut set, plain) = stock(di);
        if ser {
            set = set.for_serialize();
        }
        let contract = contract_name(&set.contract);
        let t = table(s, &c);
        set_table(&t);
        let (n, w) = roots(s, &t);
        let reached = classify(st, &t, n);
        let refd = dynty::into_root_schema_for(set.clone().into_generator(), n, w).to_value();
        let inl = dynty::into_root_schema_for(set.clone().with(|x| x.inline_subschemas = true).into_generator(), n, w).to_value();
        let mdl = model(&t, n, w, contract);
        let case = json!({"dialect": dialect, "contract": contract, "types": show_from(&t, n), "root": n, "wrapper": format!("{w:?}"), "referenced": refd, "inlined": inl});
        // remaining references
        for (p, x) in doc_subschemas(&inl, plain) {
            if let Some(r) = x.get("$ref").and_then(Value::as_str) {
                st.class("reference left when inlining");
                let Some(y) = eval::resolve(&inl, r) else { return fail("unresolved", format!("{r} at {p:?} does not resolve"), case) };
                if let Some(m) = y.get("x-mark").and_then(Value::as_str) {
                    let k: usize = m.split('|').next().unwrap().parse().unwrap();
                    if !recursive(&t, k) {
                        return fail("needless-ref", format!("with inlining a reference to the non-recursive type {k} is left at {p:?}"), case);
                    }
                }
            }
        }
        for (d, doc) in [("referenced", &refd), ("inlined", &inl)] {
            for (name, v) in defs_at(doc, plain).into_iter().flatten() {
                if let Some(m) = v.get("x-mark").and_then(Value::as_str) {
                    let k: usize = m.split('|').next().unwrap().parse().unwrap();
                    if t[k].inline {
                        return fail("inline-definition", format!("{d}: the inline type {k} has a definition {name:?}"), case);
                    }
                    if d == "inlined" && !recursive(&t, k) {
                        return fail("needless-definition", format!("with inlining the non-recursive type {k} has a definition"), case);
                    }
                }
            }
        }
        if reached >= 2 {
            st.nontrivial(&inl.to_string(), || case.clone());
        }
        let mode = eval::mode_of(&refd);
        for doc in documents(s, &mdl, 6) {
            let (a, b) = (Eval::new(&refd, mode).valid(&doc), Eval::new(&inl, mode).valid(&doc));
            st.class(if a { "document accepted" } else { "document rejected" });
            if a != b {
                if !eval::confirmed(&refd, &doc, a) || !eval::confirmed(&inl, &doc, b) {
                    st.class("validators disagree");
                    continue;
                }
                return fail("inline-meaning", format!("document {doc}: referenced schema {}, inlined schema {}", acc(a), acc(b)), case);
            }
            if di == 0 {
                let m = Eval::new(&mdl, Mode::Modern).valid(&doc);
                if m != a && eval::confirmed(&refd, &doc, a) {
                    return fail("graph-meaning", format!("document {doc}: schema {}, but the type graph means {}", acc(a), acc(m)), case);
                }
            }
        }
        Ok(())
    });
    super::derive::derived(ck, "c08", (200, 3000));
    super::recursion::campaign(ck, "c08r", true, (60, 400));
}
fn acc(b: bool) -> &'static str {
    if b {
        "accepts it"
    } else {
        "rejects it"
    }
}

// ---------------------------------------------------------------- C09

#[derive(Clone)]
struct Log {
    id: usize,
    plain: String,
}
impl Transform for Log {
    fn transform(&mut self, schema: &mut Schema) {
        let v = schema.as_value().clone();
        let seen = defs_at(&v, &self.plain).map_or(0, |d| d.len());
        let has_meta = v.get("$schema").is_some();
        let has_title = v.get("title").is_some();
        let o = schema.ensure_object();
        let e = o.entry("x-log").or_insert(json!([]));
        e.as_array_mut().unwrap().push(json!([self.id, seen, has_meta, has_title]));
    }
}

pub fn c09() -> Check {
    Check::new(
        "C09",
        "generated type graphs x settings: macro, root_schema_for, into_root_schema_for, repetition, cloned generator and settings compared on fresh and used generators; \
         logging transforms record order, count and what they saw; non-trivial: the root reaches at least 2 types and the generator was used before",
    )
}
pub fn run_c09(ck: &mut Check) {
    ck.campaign("routes", 60_000, 900_000, 320, |s, st| {
        let mut pre: Vec<[usize; 3]> = vec![];
        for _ in 0..s.below(4) {
            pre.push([s.below(4), s.below(N), s.below(WRAPS.len())]);
        }
        let (dialect, mut set, plain, d) = settings(s);
        let ntr = s.below(4);
        let mut t = {
            let c = cfg(s.chance(1, 3));
            table(s, &c)
        };
        settle_names(&mut t, &plain);
        set_table(&t);
        let (n, mut w) = roots(s, &t);
        if matches!(w, Wrap::Res | Wrap::Bound) {
            w = Wrap::Direct; // not ours to mark
        }
        let reached = classify(st, &t, n);
        let case = |what: &str, a: &Value, b: &Value| json!({"settings": d, "what": what, "types": show_from(&t, n), "root": n, "wrapper": format!("{w:?}"), "before": pre.iter().map(|p| format!("{:?} {} {:?}", ["subschema_for", "root_schema_for", "clone", "root_schema_for_value"][p[0]], p[1], WRAPS[p[2]])).collect::<Vec<_>>(), "a": a, "b": b});
        // fresh generators
        let a = dynty::into_root_schema_for(set.clone().into_generator(), n, w).to_value();
        let mut g = set.clone().into_generator();
        let b = dynty::root_schema_for(&mut g, n, w).to_value();
        if a != b {
            return fail("root-vs-into-root", "root_schema_for and into_root_schema_for differ on fresh generators", case("routes", &a, &b));
        }
        let c = dynty::into_root_schema_for(SchemaGenerator::new(set.clone()).clone(), n, w).to_value();
        if a != c {
            return fail("clone", "a cloned fresh generator gives another schema", case("clone", &a, &c));
        }
        let b2 = dynty::root_schema_for(&mut g, n, w).to_value();
        let (ca, cb) = (canonical(&a, &plain), canonical(&b2, &plain));
        if !plain.is_empty() && ca != cb {
            return fail("repeat", "repeating root_schema_for gives another schema", case("repeat", &a, &b2));
        }
        // the macro, with default settings
        if w == Wrap::Direct {
            let m = dynty::schema_for_macro(n).to_value();
            let e = dynty::into_root_schema_for(SchemaSettings::default().into_generator(), n, w).to_value();
            let f = dynty::into_root_schema_for(SchemaSettings::draft2020_12().into_generator(), n, w).to_value();
            if m != e || m != f {
                return fail("macro", "schema_for! differs from the default settings' root schema", case("macro", &m, &e));
            }
        }
        // used generator, transforms logged
        let want_meta = set.meta_schema.is_some();
        for id in 0..ntr {
            set = set.with_transform(Log { id, plain: plain.clone() });
        }
        let mut g = set.clone().into_generator();
        for p in &pre {
            match p[0] {
                0 => drop(dynty::subschema_for(&mut g, p[1], WRAPS[p[2]])),
                1 => drop(dynty::root_schema_for(&mut g, p[1], WRAPS[p[2]])),
                2 => g = g.clone(),
                _ => drop(g.root_schema_for_value(&(1, "x"))),
            }
        }
        let before = g.definitions().clone();
        let gc = g.clone();
        let u = dynty::root_schema_for(&mut g, n, w).to_value();
        let v = dynty::into_root_schema_for(gc, n, w).to_value();
        if u != v {
            return fail("used-routes", "root_schema_for and into_root_schema_for on a clone of the same used generator differ", case("used", &u, &v));
        }
        if !plain.is_empty() {
            let log = u.get("x-log").cloned().unwrap_or(json!([]));
            let ndefs = defs_at(&u, &plain).map_or(0, |d| d.len());
            let expect: Vec<Value> = (0..ntr).map(|i| json!([i, ndefs, want_meta, true])).collect();
            if log != json!(expect) {
                return fail("transforms", format!("transforms ran as {log}, expected {expect:?}"), case("transforms", &u, &log));
            }
            // same schema up to definition names and further definitions
            let mut u2 = u.clone();
            u2.as_object_mut().unwrap().remove("x-log");
            let (cu, ca) = (canonical(&u2, &plain), canonical(&a, &plain));
            if cu.0 != ca.0 {
                return fail("used-root", "on a used generator the root schema differs in more than definition names", case("used", &a, &u2));
            }
            let self_mark = a.get("x-mark").and_then(Value::as_str).unwrap_or("").to_string();
            // (when inlining, how far a recursive definition is unrolled depends on where it was first needed)
            for (m, x) in ca.1.iter().filter(|_| !set.inline_subschemas) {
                if *m != self_mark && cu.1.get(m).is_some_and(|y| y != x) {
                    return fail("used-definition", format!("on a used generator the definition of {m} differs"), case("used", &a, &u2));
                }
            }
            if !before.iter().all(|(k, x)| defs_at(&u, &plain).and_then(|d| d.get(k)).is_some_and(|y| dialect != "draft2020_12" || x == y)) {
                return fail("earlier-definitions", "definitions from earlier calls are missing or changed", case("used", &json!(before), &u));
            }
            // the generator's own definitions are never transformed
            if g.definitions().values().any(|x| x.get("x-log").is_some()) {
                return fail("definitions-transformed", "root_schema_for transformed the generator's own definitions", case("used", &json!(g.definitions()), &u));
            }
        }
        let mut g2 = g.clone();
        let raw = g.take_definitions(false);
        let done = g2.take_definitions(true);
        if raw.keys().ne(done.keys()) || !g.definitions().is_empty() || !g2.definitions().is_empty() {
            return fail("take", "take_definitions does not return all definitions or leaves some", case("take", &json!(raw), &json!(done)));
        }
        let settings2 = set.clone();
        for (k, x) in &raw {
            let mut e = Schema::try_from(x.clone()).unwrap();
            for tr in settings2.clone().transforms.iter_mut() {
                tr.transform(&mut e);
            }
            if e.as_value() != &done[k] {
                return fail("take-transformed", format!("take_definitions(true): {k:?} is not transformed exactly once"), case("take", e.as_value(), &done[k]));
            }
        }
        if reached >= 2 && !pre.is_empty() {
            st.nontrivial(&(d.to_string(), u.to_string()), || case("sample", &a, &u));
        }
        st.class(if pre.is_empty() { "fresh" } else { "used" });
        Ok(())
    });
    super::derive::derived(ck, "c09", (60, 60));
    super::recursion::campaign(ck, "c09r", true, (24, 60));
}

// ---------------------------------------------------------------- C04 and C05 over type graphs

fn four(t: &Table, n: usize, w: Wrap, ser: bool, inline: bool) -> [Value; 4] {
    set_table(t);
    [0, 1, 2, 3].map(|i| {
        let (_, mut set, _) = stock(i);
        set.inline_subschemas = inline;
        if ser {
            set = set.for_serialize();
        }
        dynty::into_root_schema_for(set.into_generator(), n, w).to_value()
    })
}

fn dialect_case(s: &mut Src, st: &mut Stats) -> (Table, usize, Wrap, [Value; 4], Value) {
    let (ser, inline) = (s.chance(1, 3), s.chance(1, 3));
    let mut c = cfg(s.chance(1, 4));
    c.bool_types = s.chance(1, 3);
    let t = table(s, &c);
    let (n, w) = roots(s, &t);
    classify(st, &t, n);
    let sch = four(&t, n, w, ser, inline);
    let case = json!({"types": show_from(&t, n), "root": n, "wrapper": format!("{w:?}"), "inline_subschemas": inline, "serialize": ser,
        "draft2020_12": sch[0], "draft07": sch[1], "draft2019_09": sch[2], "openapi3": sch[3]});
    (t, n, w, sch, case)
}

pub fn c04_graphs(ck: &mut Check) {
    ck.campaign("graphs", 40_000, 600_000, 320, |s, st| {
        let (_, _, _, sch, case) = dialect_case(s, st);
        for (i, x) in sch.iter().enumerate() {
            if let Err(e) = crate::dialect::conforms(i, x) {
                return fail(format!("{}-conformance", crate::dialect::NAMES[i]), format!("{}: {e}", crate::dialect::NAMES[i]), case);
            }
        }
        if sch[0] != sch[1] {
            st.nontrivial(&sch[0].to_string(), || case.clone());
        }
        Ok(())
    });
}

pub fn c05_graphs(ck: &mut Check) {
    ck.campaign("graphs", 40_000, 600_000, 420, |s, st| {
        let (t, n, w, sch, case) = dialect_case(s, st);
        let sup = crate::dialect::has_combined_restriction(&sch[0]);
        let contract = if case["serialize"] == json!(true) { "ser" } else { "de" };
        for doc in documents(s, &model(&t, n, w, contract), 6) {
            match crate::dialect::agree(&sch, &doc, sup) {
                Ok(a) => st.class(if a { "document accepted" } else { "document rejected" }),
                Err(e) => return fail("dialects-disagree", e, case),
            }
        }
        st.nontrivial(&sch[0].to_string(), || case.clone());
        Ok(())
    });
}

pub fn c04() -> Check {
    Check::new("C04", "generated type graphs x four stock settings x contracts x inlining; independent list of each dialect's forbidden keywords plus meta-schema validation; non-trivial: dialects differ")
}
pub fn run_c04(ck: &mut Check) {
    c04_graphs(ck);
    super::derive::derived(ck, "c04", (60, 60));
    super::recursion::campaign(ck, "c04r", false, (16, 60));
}
pub fn c05() -> Check {
    Check::new("C05", "generated type graphs, one schema per dialect, compared on documents aimed at the graph and mutated; non-trivial: a distinct graph")
}
pub fn run_c05(ck: &mut Check) {
    c05_graphs(ck);
    super::derive::derived(ck, "c05", (200, 3000));
    super::recursion::campaign(ck, "c05r", true, (60, 400));
}
