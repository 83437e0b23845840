//! Run-time defined types: `Dyn<N>` implements JsonSchema from a thread-local table, so arbitrary type
//! graphs (names, ids, recursion, inlining) can be generated, shrunk and replayed.
use crate::src::Src;
use crate::{eval, jsongen, schemagen};
use schemars::generate::{Contract, SchemaGenerator, SchemaSettings};
use schemars::{JsonSchema, Schema};
use serde_json::{json, Map, Value};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const N: usize = 8;

#[derive(Clone, Debug)]
pub enum Node {
    Leaf(Value),
    Use(usize, Wrap),
    Obj { props: Vec<(String, bool, Node)>, rest: Rest },
    Arr(Box<Node>),
    Comb(&'static str, Vec<Node>),
}
#[derive(Clone, Debug)]
pub enum Rest {
    Open,
    AdditionalFalse,
    UnevaluatedFalse,
    Additional(Box<Node>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Wrap {
    Direct,
    Boxed,
    Opt,
    Vect,
    MapStr,
    Arr2,
    Tup,
    Res,
    OptVec,
    Bound,
    OptOpt,
}
pub const WRAPS: &[Wrap] =
    &[Wrap::Direct, Wrap::Direct, Wrap::Opt, Wrap::Vect, Wrap::Boxed, Wrap::MapStr, Wrap::Arr2, Wrap::Tup, Wrap::Res, Wrap::OptVec, Wrap::Bound, Wrap::OptOpt];
impl Wrap {
    /// does the wrapper put the type below another JSON level?
    pub fn descends(self) -> bool {
        !matches!(self, Wrap::Direct | Wrap::Boxed | Wrap::Opt | Wrap::OptOpt)
    }
    /// is it the type's own schema (never a schema around it)?
    pub fn transparent(self) -> bool {
        matches!(self, Wrap::Direct | Wrap::Boxed)
    }
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub name: String,
    pub id: String,
    pub inline: bool,
    pub title: Option<String>,
    pub body: Node,
    pub mark: bool,
}
pub type Table = Vec<Spec>;

thread_local! { static TABLE: RefCell<Table> = const { RefCell::new(Vec::new()) }; }
pub fn set_table(t: &Table) {
    TABLE.with(|x| *x.borrow_mut() = t.clone());
}
fn spec(n: usize) -> Spec {
    TABLE.with(|x| x.borrow()[n].clone())
}

pub struct Dyn<const K: usize>;

impl<const K: usize> JsonSchema for Dyn<K> {
    fn inline_schema() -> bool {
        spec(K).inline
    }
    fn schema_name() -> Cow<'static, str> {
        spec(K).name.into()
    }
    fn schema_id() -> Cow<'static, str> {
        spec(K).id.into()
    }
    fn json_schema(g: &mut SchemaGenerator) -> Schema {
        let s = spec(K);
        let contract = contract_name(g.contract());
        let mut v = build(&s.body, g);
        decorate(&mut v, K, &s, contract);
        Schema::try_from(v).expect("object or bool")
    }
}

pub fn contract_name(c: &Contract) -> &'static str {
    if c.is_serialize() {
        "ser"
    } else {
        "de"
    }
}
pub fn mark(n: usize, contract: &str) -> String {
    format!("{n}|{contract}")
}

fn decorate(v: &mut Value, n: usize, s: &Spec, contract: &str) {
    if let Value::Object(o) = v {
        if s.mark {
            o.insert("x-mark".into(), json!(mark(n, contract)));
        }
        if let Some(t) = &s.title {
            o.insert("title".into(), json!(t));
        }
        if let Some(Value::Object(p)) = o.get_mut("properties") {
            if let Some(k) = p.get_mut("k") {
                *k = json!({ "const": mark(n, contract) });
            }
        }
    }
}

macro_rules! dispatch {
    ($g:expr, $n:expr, $w:expr, $method:ident) => {
        match $n {
            0 => dispatch!(@w $g, 0, $w, $method),
            1 => dispatch!(@w $g, 1, $w, $method),
            2 => dispatch!(@w $g, 2, $w, $method),
            3 => dispatch!(@w $g, 3, $w, $method),
            4 => dispatch!(@w $g, 4, $w, $method),
            5 => dispatch!(@w $g, 5, $w, $method),
            6 => dispatch!(@w $g, 6, $w, $method),
            _ => dispatch!(@w $g, 7, $w, $method),
        }
    };
    (@w $g:expr, $k:literal, $w:expr, $method:ident) => {
        match $w {
            Wrap::Direct => $g.$method::<Dyn<$k>>(),
            Wrap::Boxed => $g.$method::<Box<Dyn<$k>>>(),
            Wrap::Opt => $g.$method::<Option<Dyn<$k>>>(),
            Wrap::Vect => $g.$method::<Vec<Dyn<$k>>>(),
            Wrap::MapStr => $g.$method::<BTreeMap<String, Dyn<$k>>>(),
            Wrap::Arr2 => $g.$method::<[Dyn<$k>; 2]>(),
            Wrap::Tup => $g.$method::<(Dyn<$k>, bool)>(),
            Wrap::Res => $g.$method::<Result<Dyn<$k>, bool>>(),
            Wrap::OptVec => $g.$method::<Option<Vec<Dyn<$k>>>>(),
            Wrap::Bound => $g.$method::<std::ops::Bound<Dyn<$k>>>(),
            Wrap::OptOpt => $g.$method::<Option<Option<Dyn<$k>>>>(),
        }
    };
}
pub fn subschema_for(g: &mut SchemaGenerator, n: usize, w: Wrap) -> Schema {
    dispatch!(g, n, w, subschema_for)
}
pub fn root_schema_for(g: &mut SchemaGenerator, n: usize, w: Wrap) -> Schema {
    dispatch!(g, n, w, root_schema_for)
}
pub fn into_root_schema_for(g: SchemaGenerator, n: usize, w: Wrap) -> Schema {
    dispatch!(g, n, w, into_root_schema_for)
}
/// schema_for!(Dyn<n>)
pub fn schema_for_macro(n: usize) -> Schema {
    match n {
        0 => schemars::schema_for!(Dyn<0>),
        1 => schemars::schema_for!(Dyn<1>),
        2 => schemars::schema_for!(Dyn<2>),
        3 => schemars::schema_for!(Dyn<3>),
        4 => schemars::schema_for!(Dyn<4>),
        5 => schemars::schema_for!(Dyn<5>),
        6 => schemars::schema_for!(Dyn<6>),
        _ => schemars::schema_for!(Dyn<7>),
    }
}

fn build(n: &Node, g: &mut SchemaGenerator) -> Value {
    match n {
        Node::Leaf(v) => v.clone(),
        Node::Use(k, w) => {
            let mut v = subschema_for(g, *k, *w).to_value();
            // note beside the reference which type it was obtained for
            if let Value::Object(o) = &mut v {
                o.insert("x-expect".into(), json!(mark(*k, contract_name(g.contract()))));
            }
            v
        }
        Node::Arr(i) => json!({"type": "array", "items": build(i, g)}),
        Node::Comb(kw, xs) => {
            let a: Vec<Value> = xs.iter().map(|x| build(x, g)).collect();
            json!({ *kw: a })
        }
        Node::Obj { props, rest } => {
            let mut o = Map::new();
            o.insert("type".into(), json!("object"));
            let mut p = Map::new();
            let mut req = vec![];
            for (name, r, x) in props {
                p.insert(name.clone(), build(x, g));
                if *r {
                    req.push(name.clone());
                }
            }
            if !p.is_empty() {
                o.insert("properties".into(), Value::Object(p));
            }
            if !req.is_empty() {
                o.insert("required".into(), json!(req));
            }
            match rest {
                Rest::Open => {}
                Rest::AdditionalFalse => {
                    o.insert("additionalProperties".into(), json!(false));
                }
                Rest::UnevaluatedFalse => {
                    o.insert("unevaluatedProperties".into(), json!(false));
                }
                Rest::Additional(x) => {
                    o.insert("additionalProperties".into(), build(x, g));
                }
            }
            Value::Object(o)
        }
    }
}

/// The reference meaning, written without the generator: every use is a `$ref` into `/m`.
fn model_node(n: &Node) -> Value {
    match n {
        Node::Leaf(v) => v.clone(),
        Node::Use(k, w) => wrap_model(*k, *w),
        Node::Arr(i) => json!({"type": "array", "items": model_node(i)}),
        Node::Comb(kw, xs) => json!({ *kw: xs.iter().map(model_node).collect::<Vec<_>>() }),
        Node::Obj { props, rest } => {
            let mut o = json!({"type": "object"});
            let m = o.as_object_mut().unwrap();
            m.insert("properties".into(), Value::Object(props.iter().map(|(k, _, x)| (k.clone(), model_node(x))).collect()));
            m.insert("required".into(), json!(props.iter().filter(|x| x.1).map(|x| x.0.clone()).collect::<Vec<_>>()));
            match rest {
                Rest::Open => {}
                Rest::AdditionalFalse => {
                    m.insert("additionalProperties".into(), json!(false));
                }
                Rest::UnevaluatedFalse => {
                    m.insert("unevaluatedProperties".into(), json!(false));
                }
                Rest::Additional(x) => {
                    m.insert("additionalProperties".into(), model_node(x));
                }
            }
            o
        }
    }
}
fn wrap_model(k: usize, w: Wrap) -> Value {
    let r = json!({ "$ref": format!("#/m/{k}") });
    match w {
        Wrap::Direct | Wrap::Boxed => r,
        Wrap::Opt | Wrap::OptOpt => json!({"anyOf": [r, {"type": "null"}]}),
        Wrap::Vect => json!({"type": "array", "items": r}),
        Wrap::OptVec => json!({"anyOf": [{"type": "null"}, {"type": "array", "items": r}]}),
        Wrap::MapStr => json!({"type": "object", "additionalProperties": r}),
        Wrap::Arr2 => json!({"type": "array", "items": r, "minItems": 2, "maxItems": 2}),
        Wrap::Tup => json!({"type": "array", "prefixItems": [r, {"type": "boolean"}], "minItems": 2, "maxItems": 2}),
        Wrap::Res => json!({"oneOf": [{"type": "object", "properties": {"Ok": r}, "required": ["Ok"]},
                                       {"type": "object", "properties": {"Err": {"type": "boolean"}}, "required": ["Err"]}]}),
        Wrap::Bound => json!({"oneOf": [{"type": "object", "properties": {"Included": r}, "required": ["Included"]},
                                         {"type": "object", "properties": {"Excluded": r}, "required": ["Excluded"]}, {"const": "Unbounded"}]}),
    }
}
pub fn model(t: &Table, root: usize, w: Wrap, contract: &str) -> Value {
    let mut m = Map::new();
    for (i, s) in t.iter().enumerate() {
        let mut v = model_node(&s.body);
        decorate(&mut v, i, s, contract);
        m.insert(i.to_string(), v);
    }
    let mut r = wrap_model(root, w);
    r["m"] = Value::Object(m);
    r
}

/// Direct uses of a node.
fn uses(n: &Node, out: &mut BTreeSet<usize>) {
    match n {
        Node::Leaf(_) => {}
        Node::Use(k, _) => {
            out.insert(*k);
        }
        Node::Arr(i) => uses(i, out),
        Node::Comb(_, xs) => xs.iter().for_each(|x| uses(x, out)),
        Node::Obj { props, rest } => {
            props.iter().for_each(|x| uses(&x.2, out));
            if let Rest::Additional(x) = rest {
                uses(x, out);
            }
        }
    }
}
pub fn reach(t: &Table, from: usize) -> BTreeSet<usize> {
    let mut seen = BTreeSet::new();
    let mut todo = BTreeSet::new();
    uses(&t[from].body, &mut todo);
    while let Some(x) = todo.pop_first() {
        if seen.insert(x) {
            let mut u = BTreeSet::new();
            uses(&t[x].body, &mut u);
            todo.extend(u.difference(&seen));
        }
    }
    seen
}
pub fn recursive(t: &Table, n: usize) -> bool {
    reach(t, n).contains(&n)
}

pub struct GraphCfg {
    pub wild_names: bool,
    pub inline: bool,
    pub bool_types: bool,
    /// put the type's mark in a required const property now and then
    pub const_marks: bool,
}

const NAMES: &[&str] = &["A", "A", "A2", "B", "A3", "B2", "A22"];
const WILD: &[&str] = &[
    "A B", "a/b", "a~b", "a~1b", "x%y", "x%20y", "A%20B", "é", "🚀", "\t", "\u{1}", "", "#", "~", "/", "~1", "%", "\"q\"", "a\\b", "$defs", "A+", "[]", "<T>", "?", "A2", "..", "^",
];

fn leaf(s: &mut Src) -> Value {
    s.pick(&[
        json!({"type": "integer"}),
        json!({"type": "string"}),
        json!({"type": "boolean"}),
        json!(true),
        json!({"type": "null"}),
        json!({"const": 1}),
        json!({"enum": ["x", "y"]}),
        json!({"type": ["string", "null"]}),
        json!({"type": "array", "prefixItems": [{"type": "integer"}, true], "minItems": 1, "maxItems": 2}),
        json!({"type": "array", "prefixItems": [{"type": "integer"}], "items": {"type": "string"}}),
        json!({"type": "integer", "minimum": 0, "examples": [1, 2]}),
        json!(false),
        json!({"const": null}),
        json!({"type": "string", "description": "d", "default": {"const": 1, "type": "null"}}),
    ])
    .clone()
}

fn node(s: &mut Src, k: usize, depth: usize, descended: bool, cfg: &GraphCfg) -> Node {
    let c = if depth == 0 { s.below(4) } else { s.below(10) };
    match c {
        0 => Node::Leaf(leaf(s)),
        1..=3 => {
            let w = *s.pick(WRAPS);
            let d = descended || w.descends();
            // without a JSON level in between, only refer forward (otherwise the schema is meaningless)
            if d {
                Node::Use(s.below(N), w)
            } else if k + 1 < N {
                Node::Use(k + 1 + s.below(N - k - 1), w)
            } else {
                Node::Leaf(leaf(s))
            }
        }
        4..=7 => obj(s, k, depth, cfg),
        8 => Node::Arr(Box::new(node(s, k, depth - 1, true, cfg))),
        _ => {
            let kw = *s.pick(&["anyOf", "allOf", "oneOf"]);
            let n = 1 + s.below(2);
            Node::Comb(kw, (0..n).map(|_| node(s, k, depth - 1, descended, cfg)).collect())
        }
    }
}
fn obj(s: &mut Src, k: usize, depth: usize, cfg: &GraphCfg) -> Node {
    let mut props: Vec<(String, bool, Node)> = vec![];
    for _ in 0..s.below(4) {
        let name = (*s.pick(&["a", "b", "c", "d", "$ref", "const", "a/b"])).to_string();
        if props.iter().any(|p| p.0 == name) {
            continue;
        }
        let r = s.chance(1, 3);
        props.push((name, r, node(s, k, depth.saturating_sub(1), true, cfg)));
    }
    let rest = match s.below(6) {
        0..=2 => Rest::Open,
        3 => Rest::AdditionalFalse,
        4 => Rest::UnevaluatedFalse,
        _ => Rest::Additional(Box::new(node(s, k, depth.saturating_sub(1), true, cfg))),
    };
    Node::Obj { props, rest }
}

pub fn table(s: &mut Src, cfg: &GraphCfg) -> Table {
    let mut t: Table = vec![];
    for k in 0..N {
        let name: String = if cfg.wild_names && s.chance(2, 3) {
            if s.chance(1, 3) {
                s.string(4)
            } else {
                (*s.pick(WILD)).into()
            }
        } else {
            (*s.pick(NAMES)).into()
        };
        let id = match s.below(4) {
            0 => format!("{name}#{k}"),
            1 => format!("id{k}"),
            2 => format!("crate::m{k}::{name}"),
            _ => format!("{k}::A"),
        };
        let mut body = if cfg.bool_types && s.chance(1, 12) {
            Node::Leaf(json!(s.bool()))
        } else if s.chance(3, 4) {
            obj(s, k, 2, cfg)
        } else {
            match node(s, k, 2, false, cfg) {
                // the mark must not land beside another type's mark
                Node::Use(n, w) => Node::Comb("allOf", vec![Node::Use(n, w)]),
                Node::Leaf(Value::Bool(b)) => Node::Comb("allOf", vec![Node::Leaf(json!(b))]),
                n => n,
            }
        };
        if let (Node::Obj { props, .. }, true) = (&mut body, cfg.const_marks && s.chance(2, 3)) {
            props.push(("k".into(), true, Node::Leaf(json!(true))));
        }
        let mark = !matches!(body, Node::Leaf(Value::Bool(_)));
        let title = s.chance(1, 5).then(|| format!("T{k}"));
        t.push(Spec { name, id, inline: false, title, body, mark });
    }
    if cfg.inline {
        for k in 0..N {
            if s.chance(1, 4) {
                t[k].inline = true;
            }
        }
        for k in 0..N {
            if t[k].inline && recursive(&t, k) {
                t[k].inline = false;
            }
        }
    }
    t
}

pub fn show(t: &Table) -> Value {
    json!(t
        .iter()
        .enumerate()
        .map(|(i, s)| json!({"type": i, "schema_name": s.name, "schema_id": s.id, "inline_schema": s.inline, "body": format!("{:?}", s.body)}))
        .collect::<Vec<_>>())
}
/// Only the types reachable from n.
pub fn show_from(t: &Table, n: usize) -> Value {
    let mut r = reach(t, n);
    r.insert(n);
    json!(show(t).as_array().unwrap().iter().enumerate().filter(|x| r.contains(&x.0)).map(|x| x.1.clone()).collect::<Vec<_>>())
}

// ---- checks on generated documents

/// A definitions path: how it is written, and the plain pointer it means.
pub fn definitions_path(s: &mut Src) -> (String, String) {
    const SEGS: &[&str] = &["$defs", "definitions", "components", "schemas", "x", "a b", "é", "%41", "~0", "~1", "x~1y", "x~0y", "~01", "a~01b", "~10", "%2F", "x%", "🚀", "\t", "q?", "#", "\"", "0", "[", "^a|b", "x-y"];
    let n = s.below(4);
    let mut p = String::new();
    for i in 0..n {
        p.push('/');
        let seg = *s.pick(SEGS);
        p.push_str(seg);
        if i == 0 && s.chance(1, 5) {
            p.push_str(&s.string(3).replace(['/', '~'], "_"));
        }
    }
    if p.is_empty() && s.chance(2, 3) {
        p = "/$defs".into();
    }
    let plain = p.clone();
    let mut written = p;
    if s.chance(1, 4) {
        written = format!("#{written}");
    }
    if s.chance(1, 4) {
        written.push('/');
    }
    (written, plain)
}

/// The object holding the definitions, by an independent reading of the pointer.
pub fn defs_at<'a>(root: &'a Value, plain: &str) -> Option<&'a Map<String, Value>> {
    eval::pointer(root, plain)?.as_object()
}

/// A document with `defs` placed at the path.
pub fn document(defs: &Map<String, Value>, plain: &str) -> Value {
    let mut v = Value::Object(defs.clone());
    let segs: Vec<String> = plain.split('/').skip(1).map(|x| x.replace("~1", "/").replace("~0", "~")).collect();
    for seg in segs.into_iter().rev() {
        v = json!({ seg: v });
    }
    v
}

/// Subschemas of a document whose definitions may sit at any path (nothing else sits there).
pub fn doc_subschemas<'a>(root: &'a Value, plain: &str) -> Vec<(String, &'a Value)> {
    let mut out = vec![];
    schemagen::subschemas(root, "", &mut out);
    let top = plain.split('/').nth(1);
    if let Some(top) = top {
        let p = format!("/{top}/");
        out.retain(|x| !x.0.starts_with(&p) && x.0 != p[..p.len() - 1]);
    }
    if let Some(d) = defs_at(root, plain) {
        for (k, v) in d {
            if top.is_none() && (crate::jsongen::KEYWORDS.contains(&k.as_str()) || k == "x-mark" || k == "x-expect") {
                continue;
            }
            schemagen::subschemas(v, &format!("{plain}/{}", schemagen::esc(k)), &mut out);
        }
    }
    out
}

/// Every reference resolves within the document.
pub fn refs_resolve(root: &Value, plain: &str) -> Result<usize, String> {
    let mut n = 0;
    for (p, s) in doc_subschemas(root, plain) {
        if let Some(r) = s.get("$ref") {
            n += 1;
            let r = r.as_str().ok_or_else(|| format!("$ref at {p:?} is not a string"))?;
            match eval::resolve(root, r) {
                Some(t) if t.is_object() || t.is_boolean() => {}
                Some(t) => return Err(format!("$ref {r:?} at {p:?} resolves to {t}, which is not a schema")),
                None => return Err(format!("$ref {r:?} at {p:?} does not resolve within the document")),
            }
        }
    }
    Ok(n)
}

fn is_bool_form(v: &Value, b: bool) -> bool {
    match v {
        Value::Bool(x) => *x == b,
        Value::Object(o) => {
            let keys: Vec<&str> = o.keys().map(String::as_str).filter(|k| !["x-expect", "title", "$schema"].contains(k)).collect();
            if b {
                keys.is_empty()
            } else {
                keys == ["not"]
            }
        }
        _ => false,
    }
}

/// Every place written for type k reaches type k: `x-expect` notes are compared with the `x-mark` of
/// what is found there, following references.
pub fn marks_agree(t: &Table, root: &Value, plain: &str, contract: &str) -> Result<usize, String> {
    let mut checked = 0;
    fn target_ok(t: &Table, v: &Value, exp: &str) -> bool {
        match v.get("x-mark").and_then(Value::as_str) {
            Some(m) => m == exp,
            None => {
                let k: usize = exp.split('|').next().unwrap().parse().unwrap();
                match &t[k].body {
                    Node::Leaf(Value::Bool(b)) => is_bool_form(v, *b),
                    _ => false,
                }
            }
        }
    }
    for (p, s) in doc_subschemas(root, plain) {
        if let Some(m) = s.get("x-mark").and_then(Value::as_str) {
            if !m.ends_with(contract) {
                return Err(format!("schema at {p:?} was generated for contract {m}, not {contract}"));
            }
        }
        let Some(exp) = s.get("x-expect").and_then(Value::as_str) else { continue };
        // everything below this note, until the next mark
        let mut todo = vec![(p.clone(), s)];
        let mut seen = BTreeSet::new();
        while let Some((q, x)) = todo.pop() {
            if let Some(m) = x.get("x-mark").and_then(Value::as_str) {
                checked += 1;
                if m != exp {
                    return Err(format!("the place {q:?} written for type {exp} holds the schema of {m}"));
                }
                continue;
            }
            if let Some(r) = x.get("$ref").and_then(Value::as_str) {
                checked += 1;
                match eval::resolve(root, r) {
                    Some(y) if target_ok(t, y, exp) => {}
                    // a definition of a built-in wrapper around the type
                    Some(y) if y.get("x-mark").is_none() && y.is_object() => {
                        if seen.insert(r.to_string()) {
                            todo.push((r.to_string(), y));
                        }
                    }
                    Some(y) => return Err(format!("$ref {r:?} at {q:?}, written for type {exp}, reaches {}", y.get("x-mark").unwrap_or(y))),
                    None => return Err(format!("$ref {r:?} at {q:?} does not resolve")),
                }
            }
            let mut o = vec![];
            schemagen::subschemas(x, &q, &mut o);
            for (qq, y) in o.into_iter().skip(1) {
                // direct children only
                let own_defs = q == "#" && plain.split('/').nth(1).is_some_and(|top| qq.starts_with(&format!("#/{top}/")));
                if !own_defs && qq[q.len()..].matches('/').count() <= 3 && is_child(x, &qq[q.len()..]) {
                    todo.push((qq, y));
                }
            }
        }
    }
    Ok(checked)
}
fn is_child(x: &Value, rel: &str) -> bool {
    // a direct subschema: no other subschema lies on the path to it
    let mut o = vec![];
    schemagen::subschemas(x, "", &mut o);
    !o.iter().any(|(p, _)| !p.is_empty() && p != rel && rel.starts_with(&format!("{p}/")))
}

/// Form of a root schema that forgets definition names: references become the mark they reach.
pub fn canonical(root: &Value, plain: &str) -> (Value, BTreeMap<String, Value>) {
    fn strip_refs(v: &Value, root: &Value, found: &mut Vec<String>) -> Value {
        match v {
            Value::Object(o) => Value::Object(
                o.iter()
                    .map(|(k, x)| match (k.as_str(), x) {
                        ("$ref", Value::String(r)) => {
                            let m = match eval::resolve(root, r) {
                                Some(y) => y.get("x-mark").map(|m| m.as_str().unwrap().to_string()).unwrap_or_else(|| format!("plain:{}", strip_refs(y, root, found))),
                                None => "unresolved".into(),
                            };
                            found.push(r.clone());
                            (k.clone(), json!(m))
                        }
                        _ => (k.clone(), strip_refs(x, root, found)),
                    })
                    .collect(),
            ),
            Value::Array(a) => Value::Array(a.iter().map(|x| strip_refs(x, root, found)).collect()),
            v => v.clone(),
        }
    }
    let mut body = root.clone();
    remove_defs(&mut body, plain);
    let mut found = vec![];
    let main = strip_refs(&body, root, &mut found);
    let mut out = BTreeMap::new();
    let mut seen = HashMap::new();
    while let Some(r) = found.pop() {
        if r == "#" || seen.insert(r.clone(), ()).is_some() {
            continue;
        }
        if let Some(y) = eval::resolve(root, &r).filter(|y| y.get("x-mark").is_some()) {
            let b = strip_refs(y, root, &mut found);
            out.insert(y["x-mark"].as_str().unwrap().to_string(), b);
        }
    }
    (main, out)
}
fn remove_defs(v: &mut Value, plain: &str) {
    // remove the top segment of the path (only ever generated for definitions)
    let first = plain.split('/').nth(1).map(|x| x.replace("~1", "/").replace("~0", "~"));
    if let (Some(f), Value::Object(o)) = (first, v) {
        o.remove(&f);
    }
}

pub fn stock(i: usize) -> (&'static str, SchemaSettings, &'static str) {
    match i {
        0 => ("draft2020_12", SchemaSettings::draft2020_12(), "/$defs"),
        1 => ("draft07", SchemaSettings::draft07(), "/definitions"),
        2 => ("draft2019_09", SchemaSettings::draft2019_09(), "/$defs"),
        _ => ("openapi3", SchemaSettings::openapi3(), "/components/schemas"),
    }
}

/// Documents aimed at a schema document.
pub fn documents(s: &mut Src, model: &Value, n: usize) -> Vec<Value> {
    let vocab = jsongen::vocabulary(model);
    (0..n)
        .map(|i| {
            let mut d = jsongen::instance(s, model, model, 7, &vocab);
            if i % 2 == 1 {
                for _ in 0..1 + s.below(2) {
                    jsongen::mutate(s, &mut d, &vocab);
                }
            }
            d
        })
        .collect()
}
