//! An independent JSON Schema evaluator: drafts 07, 2019-09, 2020-12 and the OpenAPI 3.0 reading
//! (`nullable`).  Used as oracle; verdicts that would become violations are cross-checked against
//! the `jsonschema` crate (see `agree`).
use serde_json::{Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// `$ref` siblings are ignored
    Draft07,
    /// 2019-09 and 2020-12
    Modern,
    /// as Draft07 plus `nullable`
    OpenApi,
}

#[derive(Default, Clone)]
struct Ann {
    props: BTreeSet<String>,
    all_items: bool,
    items: usize,
    item_set: BTreeSet<usize>,
}
impl Ann {
    fn merge(&mut self, o: Ann) {
        self.props.extend(o.props);
        self.all_items |= o.all_items;
        self.items = self.items.max(o.items);
        self.item_set.extend(o.item_set);
    }
}

type Resolver<'a> = dyn Fn(&str) -> Option<&'a Value> + 'a;

pub struct Eval<'a> {
    root: &'a Value,
    mode: Mode,
    resolver: Option<&'a Resolver<'a>>,
    pub formats: bool,
    /// read `nullable: true` as adding null to `type`
    pub nullable: bool,
}

thread_local! {
    static FMT: RefCell<HashMap<String, jsonschema::Validator>> = RefCell::new(HashMap::new());
    static PAT: RefCell<HashMap<String, Option<jsonschema::Validator>>> = RefCell::new(HashMap::new());
}

pub fn format_ok(format: &str, s: &Value) -> bool {
    FMT.with(|f| {
        let mut f = f.borrow_mut();
        if !f.contains_key(format) {
            let v = jsonschema::options()
                .with_draft(jsonschema::Draft::Draft202012)
                .should_validate_formats(true)
                .should_ignore_unknown_formats(true)
                .build(&serde_json::json!({ "format": format }))
                .expect("format schema");
            f.insert(format.to_string(), v);
        }
        f[format].is_valid(s)
    })
}
pub fn pattern_ok(pat: &str, s: &str) -> Option<bool> {
    PAT.with(|f| {
        let mut f = f.borrow_mut();
        if f.len() > 5000 {
            f.clear();
        }
        let e = f.entry(pat.to_string()).or_insert_with(|| {
            jsonschema::options().with_draft(jsonschema::Draft::Draft202012).build(&serde_json::json!({ "pattern": pat })).ok()
        });
        e.as_ref().map(|v| v.is_valid(&Value::String(s.to_string())))
    })
}

pub fn num_cmp(a: &serde_json::Number, b: &serde_json::Number) -> std::cmp::Ordering {
    let ai = a.as_i64().map(|x| x as i128).or(a.as_u64().map(|x| x as i128));
    let bi = b.as_i64().map(|x| x as i128).or(b.as_u64().map(|x| x as i128));
    if let (Some(x), Some(y)) = (ai, bi) {
        return x.cmp(&y);
    }
    a.as_f64().unwrap().partial_cmp(&b.as_f64().unwrap()).unwrap()
}

/// JSON equality with numbers compared by value.
pub fn json_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => num_cmp(x, y).is_eq(),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| json_eq(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| json_eq(v, w))),
        _ => a == b,
    }
}

pub fn is_integer(v: &Value) -> bool {
    match v {
        Value::Number(n) => n.is_i64() || n.is_u64() || n.as_f64().is_some_and(|f| f.fract() == 0.0),
        _ => false,
    }
}

pub fn type_matches(t: &str, v: &Value) -> bool {
    match t {
        "null" => v.is_null(),
        "boolean" => v.is_boolean(),
        "string" => v.is_string(),
        "array" => v.is_array(),
        "object" => v.is_object(),
        "number" => v.is_number(),
        "integer" => is_integer(v),
        _ => false,
    }
}

pub fn percent_decode_ref(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = b.get(i + 1..i + 3)?;
            let hex = |c: u8| (c as char).to_digit(16);
            out.push((hex(h[0])? * 16 + hex(h[1])?) as u8);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).ok()
}

/// Independent strict resolution of a `#...` reference against a document (RFC 3986 fragment,
/// RFC 6901 pointer).
pub fn resolve<'a>(root: &'a Value, reference: &str) -> Option<&'a Value> {
    let frag = reference.strip_prefix('#')?;
    // only characters allowed in a URI fragment
    if !frag.bytes().all(|c| c.is_ascii_alphanumeric() || b"-._~!$&'()*+,;=:@/?%".contains(&c)) {
        return None;
    }
    let ptr = percent_decode_ref(frag)?;
    pointer(root, &ptr)
}
pub fn pointer<'a>(root: &'a Value, ptr: &str) -> Option<&'a Value> {
    if ptr.is_empty() {
        return Some(root);
    }
    let mut cur = root;
    for seg in ptr.strip_prefix('/')?.split('/') {
        let seg = seg.replace("~1", "/").replace("~0", "~");
        cur = match cur {
            Value::Object(o) => o.get(&seg)?,
            Value::Array(a) => a.get(seg.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(cur)
}

impl<'a> Eval<'a> {
    pub fn new(root: &'a Value, mode: Mode) -> Self {
        Eval { root, mode, resolver: None, formats: true, nullable: mode == Mode::OpenApi }
    }
    pub fn with_resolver(root: &'a Value, mode: Mode, r: &'a Resolver<'a>) -> Self {
        Eval { root, mode, resolver: Some(r), formats: true, nullable: mode == Mode::OpenApi }
    }
    pub fn valid(&self, inst: &Value) -> bool {
        self.check(self.root, inst, 0).is_some()
    }
    pub fn valid_sub(&self, schema: &'a Value, inst: &Value) -> bool {
        self.check(schema, inst, 0).is_some()
    }

    fn check(&self, schema: &'a Value, inst: &Value, depth: usize) -> Option<Ann> {
        assert!(depth < 2000, "evaluator recursion limit");
        let obj = match schema {
            Value::Bool(true) => return Some(Ann::default()),
            Value::Bool(false) => return None,
            Value::Object(o) => o,
            _ => return None,
        };
        let d = depth + 1;
        let mut ann = Ann::default();
        if let Some(Value::String(r)) = obj.get("$ref") {
            let target = match self.resolver {
                Some(f) => f(r),
                None => resolve(self.root, r),
            };
            let target = target.unwrap_or(&Value::Null); // unresolvable: rejects everything
            if !(target.is_object() || target.is_boolean()) {
                return None;
            }
            ann.merge(self.check(target, inst, d)?);
            if self.mode != Mode::Modern {
                return Some(ann);
            }
        }
        if !self.scalar(obj, inst) {
            return None;
        }
        for s in list(obj.get("allOf")) {
            ann.merge(self.check(s, inst, d)?);
        }
        if let Some(Value::Array(a)) = obj.get("anyOf") {
            let mut any = false;
            for s in a {
                if let Some(x) = self.check(s, inst, d) {
                    any = true;
                    ann.merge(x);
                }
            }
            if !any {
                return None;
            }
        }
        if let Some(Value::Array(a)) = obj.get("oneOf") {
            let mut n = 0;
            for s in a {
                if let Some(x) = self.check(s, inst, d) {
                    n += 1;
                    ann.merge(x);
                }
            }
            if n != 1 {
                return None;
            }
        }
        if let Some(s) = obj.get("not") {
            if self.check(s, inst, d).is_some() {
                return None;
            }
        }
        if let Some(s) = obj.get("if") {
            match self.check(s, inst, d) {
                Some(x) => {
                    ann.merge(x);
                    if let Some(t) = obj.get("then") {
                        ann.merge(self.check(t, inst, d)?);
                    }
                }
                None => {
                    if let Some(t) = obj.get("else") {
                        ann.merge(self.check(t, inst, d)?);
                    }
                }
            }
        }
        if let Value::Object(io) = inst {
            for k in list(obj.get("required")) {
                if let Value::String(k) = k {
                    if !io.contains_key(k) {
                        return None;
                    }
                }
            }
            let mut local: BTreeSet<String> = BTreeSet::new();
            if let Some(Value::Object(p)) = obj.get("properties") {
                for (k, s) in p {
                    if let Some(v) = io.get(k) {
                        self.check(s, v, d)?;
                        local.insert(k.clone());
                    }
                }
            }
            if let Some(Value::Object(p)) = obj.get("patternProperties") {
                for (pat, s) in p {
                    for (k, v) in io {
                        if pattern_ok(pat, k) == Some(true) {
                            self.check(s, v, d)?;
                            local.insert(k.clone());
                        }
                    }
                }
            }
            if let Some(s) = obj.get("additionalProperties") {
                for (k, v) in io {
                    if !local.contains(k) {
                        self.check(s, v, d)?;
                    }
                }
                local.extend(io.keys().cloned());
            }
            if let Some(s) = obj.get("propertyNames") {
                for k in io.keys() {
                    self.check(s, &Value::String(k.clone()), d)?;
                }
            }
            for kw in ["dependentRequired", "dependentSchemas", "dependencies"] {
                if let Some(Value::Object(p)) = obj.get(kw) {
                    for (k, s) in p {
                        if io.contains_key(k) {
                            match s {
                                Value::Array(a) => {
                                    if !a.iter().all(|n| n.as_str().map_or(true, |n| io.contains_key(n))) {
                                        return None;
                                    }
                                }
                                s => ann.merge(self.check(s, inst, d)?),
                            }
                        }
                    }
                }
            }
            ann.props.extend(local);
            if self.mode == Mode::Modern {
                if let Some(s) = obj.get("unevaluatedProperties") {
                    for (k, v) in io {
                        if !ann.props.contains(k) {
                            self.check(s, v, d)?;
                        }
                    }
                    ann.props.extend(io.keys().cloned());
                }
            }
        }
        if let Value::Array(ia) = inst {
            let mut next = 0;
            let mut all = false;
            if let Some(Value::Array(p)) = obj.get("prefixItems").filter(|_| self.mode == Mode::Modern) {
                for (s, v) in p.iter().zip(ia) {
                    self.check(s, v, d)?;
                }
                next = p.len();
            }
            match obj.get("items") {
                Some(Value::Array(p)) => {
                    for (s, v) in p.iter().zip(ia) {
                        self.check(s, v, d)?;
                    }
                    next = p.len();
                    if let Some(s) = obj.get("additionalItems") {
                        for v in ia.iter().skip(next) {
                            self.check(s, v, d)?;
                        }
                        all = true;
                    }
                }
                Some(s) => {
                    for v in ia.iter().skip(next) {
                        self.check(s, v, d)?;
                    }
                    all = true;
                }
                None => {}
            }
            if let Some(s) = obj.get("contains") {
                let hits: Vec<usize> = ia.iter().enumerate().filter(|(_, v)| self.check(s, v, d).is_some()).map(|x| x.0).collect();
                let min = obj.get("minContains").and_then(Value::as_u64).unwrap_or(1) as usize;
                let max = obj.get("maxContains").and_then(Value::as_u64).map_or(usize::MAX, |x| x as usize);
                if hits.len() < min || hits.len() > max {
                    return None;
                }
                ann.item_set.extend(hits);
            }
            ann.items = ann.items.max(next);
            ann.all_items |= all;
            if self.mode == Mode::Modern {
                if let Some(s) = obj.get("unevaluatedItems") {
                    if !ann.all_items {
                        for (i, v) in ia.iter().enumerate().skip(ann.items) {
                            if !ann.item_set.contains(&i) {
                                self.check(s, v, d)?;
                            }
                        }
                    }
                    ann.all_items = true;
                }
            }
        }
        Some(ann)
    }

    fn scalar(&self, o: &'a Map<String, Value>, inst: &Value) -> bool {
        if let Some(t) = o.get("type") {
            let ok = match t {
                Value::String(t) => type_matches(t, inst),
                Value::Array(ts) => ts.iter().any(|t| t.as_str().is_some_and(|t| type_matches(t, inst))),
                _ => false,
            };
            let nullable = self.nullable && o.get("nullable") == Some(&Value::Bool(true)) && inst.is_null();
            if !ok && !nullable {
                return false;
            }
        }
        if let Some(Value::Array(e)) = o.get("enum") {
            if !e.iter().any(|x| json_eq(x, inst)) {
                return false;
            }
        }
        if let Some(c) = o.get("const") {
            if !json_eq(c, inst) {
                return false;
            }
        }
        let num = |k: &str| o.get(k).and_then(|v| match v {
            Value::Number(n) => Some(n),
            _ => None,
        });
        match inst {
            Value::Number(n) => {
                if num("minimum").is_some_and(|m| num_cmp(n, m).is_lt())
                    || num("maximum").is_some_and(|m| num_cmp(n, m).is_gt())
                    || num("exclusiveMinimum").is_some_and(|m| num_cmp(n, m).is_le())
                    || num("exclusiveMaximum").is_some_and(|m| num_cmp(n, m).is_ge())
                {
                    return false;
                }
                if let Some(m) = num("multipleOf") {
                    let (a, b) = (n.as_f64().unwrap(), m.as_f64().unwrap());
                    if (a / b).fract() != 0.0 {
                        return false;
                    }
                }
            }
            Value::String(s) => {
                let len = s.chars().count() as f64;
                if num("minLength").is_some_and(|m| len < m.as_f64().unwrap()) || num("maxLength").is_some_and(|m| len > m.as_f64().unwrap()) {
                    return false;
                }
                if let Some(p) = o.get("pattern").and_then(Value::as_str) {
                    if pattern_ok(p, s) != Some(true) {
                        return false;
                    }
                }
                if self.formats {
                    if let Some(f) = o.get("format").and_then(Value::as_str) {
                        if !format_ok(f, inst) {
                            return false;
                        }
                    }
                }
            }
            Value::Array(a) => {
                let len = a.len() as f64;
                if num("minItems").is_some_and(|m| len < m.as_f64().unwrap()) || num("maxItems").is_some_and(|m| len > m.as_f64().unwrap()) {
                    return false;
                }
                if o.get("uniqueItems") == Some(&Value::Bool(true)) {
                    for i in 0..a.len() {
                        for j in 0..i {
                            if json_eq(&a[i], &a[j]) {
                                return false;
                            }
                        }
                    }
                }
            }
            Value::Object(m) => {
                let len = m.len() as f64;
                if num("minProperties").is_some_and(|x| len < x.as_f64().unwrap()) || num("maxProperties").is_some_and(|x| len > x.as_f64().unwrap()) {
                    return false;
                }
            }
            _ => {}
        }
        true
    }
}

fn list(v: Option<&Value>) -> &[Value] {
    match v {
        Some(Value::Array(a)) => a,
        _ => &[],
    }
}

/// The mode implied by a root schema's `$schema`.
pub fn mode_of(root: &Value) -> Mode {
    match root.get("$schema").and_then(Value::as_str) {
        Some(s) if s.contains("draft-07") => Mode::Draft07,
        Some(s) if s.contains("oas/3.0") => Mode::OpenApi,
        _ => Mode::Modern,
    }
}

/// Verdict of the `jsonschema` crate for a root schema declaring a JSON Schema dialect.
pub fn crate_valid(root: &Value, inst: &Value) -> Option<bool> {
    jsonschema::options().should_validate_formats(true).build(root).ok().map(|v| v.is_valid(inst))
}

pub fn valid(root: &Value, inst: &Value) -> bool {
    Eval::new(root, mode_of(root)).valid(inst)
}

/// Own verdict is `v`; does the independent validator agree (or is it not applicable)?
pub fn confirmed(root: &Value, inst: &Value, v: bool) -> bool {
    if mode_of(root) == Mode::OpenApi {
        return true;
    }
    match crate_valid(root, inst) {
        Some(x) => x == v,
        None => true,
    }
}

/// Whether some `$ref` leads back to itself without going into the instance (such schemas have no meaning).
pub fn loops_in_place(root: &Value) -> bool {
    fn go<'a>(root: &'a Value, v: &'a Value, active: &mut Vec<*const Value>, done: &mut std::collections::HashSet<*const Value>) -> bool {
        let p = v as *const Value;
        if active.contains(&p) {
            return true;
        }
        let Value::Object(o) = v else { return false };
        if !done.insert(p) {
            return false;
        }
        active.push(p);
        let mut next: Vec<&'a Value> = vec![];
        for (k, x) in o {
            match k.as_str() {
                "$ref" => next.extend(x.as_str().and_then(|r| resolve(root, r))),
                "not" | "if" | "then" | "else" => next.push(x),
                "allOf" | "anyOf" | "oneOf" => next.extend(x.as_array().into_iter().flatten()),
                "dependentSchemas" | "dependencies" => next.extend(x.as_object().into_iter().flat_map(|m| m.values())),
                _ => {}
            }
        }
        let r = next.into_iter().any(|x| go(root, x, active, done));
        active.pop();
        r
    }
    let mut all = vec![];
    crate::schemagen::subschemas(root, "", &mut all);
    let mut done = std::collections::HashSet::new();
    all.iter().any(|(_, v)| go(root, v, &mut vec![], &mut done))
}
