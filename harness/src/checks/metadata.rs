//! C17: metadata attributes and doc comments, against a model that applies them to the schema of the
//! same type without them.
use crate::lab::Ctx;
use crate::labrun::{self, Lab, UnitSrc};
use crate::run::*;
use crate::schemagen::esc;
use crate::src::Src;
use crate::tyspec::lit;
use schemars::generate::SchemaSettings;
use serde_json::{json, Map, Value};
use std::collections::BTreeSet;
use std::fmt::Write;

pub fn c17() -> Check {
    Check::new("C17", "a generated type's schema (per contract and settings) compared with the model's, where at least two items carry metadata")
}
pub fn run_c17(ck: &mut Check) {
    labrun::campaign(ck, &Lab { name: "c17", units: (1600, 8000), unit_len: 700, cases: (16, 24), case_len: 8, report_compile_errors: true, generate: &generate });
}

#[derive(Clone, Copy, PartialEq)]
enum Place {
    Container,
    Variant,
    Field,
}

/// Constants and functions that attributes refer to.
#[derive(Default)]
struct Consts {
    src: String,
    n: usize,
}
impl Consts {
    fn text(&mut self, v: &str) -> String {
        self.n += 1;
        writeln!(self.src, "    pub const K{}: &str = {};", self.n, lit(v)).unwrap();
        format!("super::K{}", self.n)
    }
    fn func(&mut self, ty: &str, v: &str) -> String {
        self.n += 1;
        let (ty, v) = (ty.replace("super::", ""), v.replace("super::", ""));
        writeln!(self.src, "    pub fn f{}() -> {ty} {{ {v} }}", self.n).unwrap();
        format!("super::f{}()", self.n)
    }
}

const TEXTS: [&str; 16] = [
    "plain", "Two words", "with \"quotes\" and \\ back", "{braces} {} {0}", "é ünïcode 🚀", "# Heading", "## Second", "#NoSpace", "trailing   ", "  lead", "`code`",
    "line\nbreak", "tab\there", "null", "#", "'x' /* not a comment */",
];

/// An expression for a string.
fn text_expr(v: &str, s: &mut Src, c: &mut Consts) -> String {
    let m = v.char_indices().nth(v.chars().count() / 2).map_or(0, |x| x.0);
    match s.below(7) {
        0..=2 => lit(v),
        3 => c.text(v),
        4 => c.func("String", &format!("String::from({})", lit(v))),
        5 => format!("concat!({}, {})", lit(&v[..m]), lit(&v[m..])),
        _ => format!("format!(\"{{}}{{}}\", {}, {})", lit(&v[..m]), lit(&v[m..])),
    }
}

const LINES: [&str; 24] = [
    "", "", "text", "Second sentence.", "# Heading", "## Two ##", "#NoSpace", "#", "    indented code", "```rust", "let x = \"1\";", "```", "- item", "  - nested", "{braces}", "é ünïcode 🚀",
    "trailing   ", "#[attr]", "back\\slash", "\ttabbed", "  two", "a # b", "1. one", "> quote",
];

/// Doc attributes as written, and the text they stand for.
fn docs(s: &mut Src) -> (Vec<String>, String) {
    let n = 1 + s.below(5);
    let mut out = vec![];
    let mut vals = vec![];
    let heading = s.chance(2, 5);
    for i in 0..n {
        let l = if i == 0 && heading { *s.pick(&["# Heading", "## Two ##", "#NoSpace", "# A title, with: punctuation", "#  spaced  ", "#"]) } else { *s.pick(&LINES) };
        // the attribute's value
        let (attr, v) = match s.below(9) {
            0..=3 => (format!("/// {l}"), format!(" {l}")),
            4 if !l.starts_with('/') => (format!("///{l}"), l.to_string()),
            5 => (format!("#[doc = {}]", lit(l)), l.to_string()),
            6 => {
                let t = format!("{l}\n{}", s.pick(&LINES));
                (format!("#[doc = {}]", lit(&t)), t)
            }
            7 => (format!("#[doc = concat!({}, \"\", {})]", lit(&l.chars().take(1).collect::<String>()), lit(&l.chars().skip(1).collect::<String>())), l.to_string()),
            8 => (format!("#[cfg_attr(all(), doc = {})]", lit(l)), l.to_string()),
            _ => (format!("/** {l} */"), format!(" {l} ")),
        };
        out.push(attr);
        // concat! is not a literal: its leading space stays
        let strip = !out.last().unwrap().contains("concat!");
        vals.push(if strip { v.strip_prefix(' ').map(str::to_string).unwrap_or(v) } else { v });
        if s.chance(1, 10) {
            out.push("#[doc(hidden)]".into());
        }
        if s.chance(1, 14) {
            out.push("#[cfg_attr(any(), doc = \"not this\")]".into());
        }
    }
    (out, vals.join("\n"))
}
/// Title and description of a doc comment.
fn split_doc(doc: &str) -> (String, String) {
    let ws = |c: char| c.is_ascii_whitespace();
    let d = doc.trim_matches(ws);
    if !d.starts_with('#') {
        return (String::new(), d.to_string());
    }
    let (t, rest) = d.split_once('\n').unwrap_or((d, ""));
    (t.trim_start_matches('#').trim_matches(ws).to_string(), rest.trim_matches(ws).to_string())
}

/// JSON as tokens for `json!`.
fn tokens(v: &Value) -> String {
    match v {
        Value::String(t) => lit(t),
        Value::Array(a) => format!("[{}]", a.iter().map(tokens).collect::<Vec<_>>().join(", ")),
        Value::Object(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{}: {}", lit(k), tokens(v))).collect::<Vec<_>>().join(", ")),
        _ => v.to_string(),
    }
}
fn small_json(s: &mut Src, d: usize) -> Value {
    match s.below(if d > 0 { 9 } else { 7 }) {
        0 => Value::Null,
        1 => s.bool().into(),
        2 => (s.below(2000) as i64 - 1000).into(),
        3 => json!(s.below(100) as f64 / 8.0),
        4 | 5 => (*s.pick(&TEXTS)).into(),
        6 => "".into(),
        7 => Value::Array((0..s.below(3)).map(|_| small_json(s, d - 1)).collect()),
        _ => Value::Object((0..s.below(3)).map(|i| (format!("{}{i}", s.pick(&["k", "a b", "$ref", "é\""])), small_json(s, d - 1))).collect()),
    }
}
fn example(s: &mut Src, c: &mut Consts) -> (String, Value) {
    match s.below(16) {
        0 => ("1".into(), 1.into()),
        1 => ("-2.5".into(), json!(-2.5)),
        2 => ("\"two words\"".into(), "two words".into()),
        3 => ("&\"word\"".into(), "word".into()),
        4 => ("true".into(), true.into()),
        5 => ("None::<u8>".into(), Value::Null),
        6 => ("Some(3)".into(), 3.into()),
        7 => ("(1u8, \"a b\")".into(), json!([1, "a b"])),
        8 => (c.func("Inner", "Inner { a: 7 }"), json!({"a": 7})),
        9 => ("super::Inner::default()".into(), json!({"a": 0})),
        10 => ("vec![\"x\", \"y\"]".into(), json!(["x", "y"])),
        11 => ("&(1, 1)".into(), json!([1, 1])),
        12 => ("1 + super::TEN[0] - (1, 3).1".into(), 8.into()),
        13 => ("Ok::<u8, u8>(4)".into(), json!({"Ok": 4})),
        14 => ("18446744073709551615u64".into(), json!(u64::MAX)),
        _ => {
            let v = small_json(s, 2);
            (format!("serde_json::json!({})", tokens(&v)), v)
        }
    }
}

#[derive(Default)]
struct Deco {
    attrs: Vec<String>,
    ops: Vec<Value>,
    explicit_title: bool,
}
impl Deco {
    fn text(&self, indent: &str) -> String {
        self.attrs.iter().map(|a| format!("{indent}{a}\n")).collect()
    }
}
fn set(k: &str, v: impl Into<Value>) -> Value {
    json!({"set": k, "v": v.into()})
}

/// Metadata of one item.  `keep`: keywords that later steps read.
fn deco(s: &mut Src, place: Place, keep: bool, c: &mut Consts) -> Deco {
    let mut d = Deco::default();
    if s.chance(1, 4) {
        return d;
    }
    let mut items: Vec<String> = vec![];
    let mut lines: Vec<String> = vec![];
    let (mut title, mut desc) = (None, None);
    if s.chance(1, 4) {
        let t = if s.chance(1, 6) { "" } else { s.pick(&TEXTS) };
        items.push(format!("title = {}", text_expr(t, s, c)));
        title = Some(t.to_string());
        d.explicit_title = true;
    }
    if s.chance(1, 4) {
        let t = if s.chance(1, 6) { "" } else { s.pick(&TEXTS) };
        items.push(format!("description = {}", text_expr(t, s, c)));
        desc = Some(t.to_string());
    }
    if s.bool() {
        let (a, doc) = docs(s);
        lines.extend(a);
        let (t, e) = split_doc(&doc);
        title = title.or(Some(t));
        desc = desc.or(Some(e));
    }
    if let Some(t) = title.filter(|t| !t.is_empty()) {
        d.ops.push(set("title", t));
    }
    if let Some(t) = desc.filter(|t| !t.is_empty()) {
        d.ops.push(set("description", t));
    }
    let mut deprecated = None;
    if s.chance(1, 5) {
        deprecated = Some(s.pick(&["#[deprecated]", "#[deprecated = \"old\"]", "#[deprecated(since = \"1.0.0\", note = \"old\")]"]).to_string());
        d.ops.push(set("deprecated", true));
    }
    let n = if s.chance(1, 4) { 1 + s.below(3) } else { 0 };
    if n > 0 {
        let ex: Vec<_> = (0..n).map(|_| example(s, c)).collect();
        d.ops.push(set("examples", ex.iter().map(|e| e.1.clone()).collect::<Vec<_>>()));
        items.extend(ex.into_iter().map(|e| format!("example = {}", e.0)));
    }
    if s.chance(1, 3) {
        let mut used = BTreeSet::new();
        let mut exts = vec![];
        for _ in 0..1 + s.below(3) {
            let k = match s.below(3) {
                0 => *s.pick(&["x-a", "x-b", "", "a b", "é\"q\\", "$comment", "x-t1"]),
                1 => *s.pick(&["title", "description", "examples", "deprecated", "default", "readOnly", "writeOnly"]),
                _ if keep => "x-c",
                _ => *s.pick(&["minimum", "maximum", "minLength", "format", "pattern", "x-d", "multipleOf"]),
            };
            if !used.insert(k) {
                continue;
            }
            let (t, v) = match s.below(5) {
                0 => ("super::Inner { a: 1 + 2 }".to_string(), json!({"a": 3})),
                1 => ("[super::N + 1, null]".to_string(), json!([42, null])),
                _ => {
                    let v = small_json(s, 2);
                    (tokens(&v), v)
                }
            };
            exts.push(format!("{} = {t}", lit(k)));
            d.ops.push(set(k, v));
        }
        // one attribute or several
        if s.bool() {
            items.push(format!("extend({})", exts.join(", ")));
        } else {
            items.extend(exts.into_iter().map(|e| format!("extend({e})")));
        }
    }
    if !keep && s.chance(1, 3) {
        for _ in 0..1 + s.below(2) {
            let (t, op) = match s.below(6) {
                0 => ("super::snap1".to_string(), json!({"snap": "x-t1"})),
                1 => ("super::snap2".into(), json!({"snap": "x-t2"})),
                2 => ("super::Snap(\"x-t3\")".into(), json!({"snap": "x-t3"})),
                3 => ("super::closure()".into(), set("x-cl", true)),
                4 => ("super::snapper(4)".into(), json!({"snap": "x-t4"})),
                _ => ("super::undescribe".into(), json!({"undescribe": 41})),
            };
            items.push(format!("transform = {t}"));
            d.ops.push(op);
        }
    }
    // examples, extensions and transforms keep their relative order; the rest is free
    let (mut free, fixed): (Vec<_>, Vec<_>) = items.into_iter().partition(|i| i.starts_with("title") || i.starts_with("desc"));
    let mut items = fixed;
    while let Some(f) = free.pop() {
        let k = s.below(items.len() + 1);
        items.insert(k, f);
    }
    let mut attrs: Vec<String> = vec![];
    let mut group: Vec<String> = vec![];
    for i in items {
        group.push(i);
        if s.bool() {
            attrs.push(format!("#[schemars({})]", group.join(", ")));
            group.clear();
        }
    }
    if !group.is_empty() {
        attrs.push(format!("#[schemars({})]", group.join(", ")));
    }
    attrs.extend(deprecated);
    // doc lines in order, anywhere between the attributes
    let mut k = 0;
    for l in lines {
        k += s.below(attrs.len() - k + 1);
        attrs.insert(k, l);
        k += 1;
    }
    if place == Place::Field && s.chance(1, 8) {
        attrs.push("#[schemars()]".into());
    }
    d.attrs = attrs;
    d
}

/// type, `Default::default()`, another value; None: no JSON form
type FieldTy = (&'static str, Option<&'static str>, &'static str, Option<&'static str>);
const TYPES: [FieldTy; 16] = [
    ("u8", Some("0"), "7u8", Some("7")),
    ("u8", Some("0"), "7u8", Some("7")),
    ("String", Some("\"\""), "String::from(\"d \\\"q\\\"\")", Some("\"d \\\"q\\\"\"")),
    ("Option<u8>", Some("null"), "Some(3)", Some("3")),
    ("Vec<String>", Some("[]"), "vec![String::from(\"a\")]", Some("[\"a\"]")),
    ("bool", Some("false"), "true", Some("true")),
    ("(u8, bool)", Some("[0,false]"), "(1, true)", Some("[1,true]")),
    ("super::Inner", Some("{\"a\":0}"), "super::Inner { a: 9 }", Some("{\"a\":9}")),
    ("Option<super::Inner>", Some("null"), "Some(super::Inner { a: 9 })", Some("{\"a\":9}")),
    ("Box<super::Inner>", Some("{\"a\":0}"), "Box::new(super::Inner { a: 9 })", Some("{\"a\":9}")),
    ("BTreeMap<String, u8>", Some("{}"), "[(String::from(\"k\"), 1)].into()", Some("{\"k\":1}")),
    ("super::NoSer", None, "super::NoSer", None),
    ("super::Fails", None, "super::Fails", None),
    ("serde_json::Value", Some("null"), "serde_json::json!([1])", Some("[1]")),
    ("super::Choice", Some("\"First\""), "super::Choice::Second(2)", Some("{\"Second\":2}")),
    ("i64", Some("0"), "-5i64", Some("-5")),
];

#[derive(Clone, Copy, PartialEq)]
enum Shape {
    Unit,
    Newtype,
    Tuple,
    Struct,
}

struct Gen {
    plain: String,
    deco: String,
    items: Vec<Value>,
    consts: Consts,
    decorated: usize,
}

impl Gen {
    fn item(&mut self, loc: &[Value], inn: [bool; 2], mut pre: Vec<Value>, d: Deco) {
        if !d.attrs.is_empty() {
            self.decorated += 1;
        }
        pre.extend(d.ops);
        self.items.push(json!({"loc": loc, "in": inn, "ops": pre}));
    }
    /// Fields of a struct or variant at `loc`; returns (plain, decorated) source and the default values of the container.
    fn fields(&mut self, s: &mut Src, shape: Shape, loc: &[Value], cont_default: bool, vis: &str, internal: bool, prefix: &str) -> (String, String, String) {
        let n = match shape {
            Shape::Unit => return (String::new(), String::new(), String::new()),
            Shape::Newtype => 1,
            Shape::Tuple => 2 + s.below(2),
            Shape::Struct => s.below(4),
        };
        let (mut p, mut q, mut def) = (String::new(), String::new(), String::new());
        let mut idx = [0usize; 2];
        for i in 0..n {
            let ty: FieldTy = if internal { *s.pick(&[TYPES[7], TYPES[10], TYPES[9]]) } else { *s.pick(&TYPES) };
            let mut both: Vec<String> = vec![];
            let mut pre: Vec<Value> = vec![];
            let mut inn = [true, true];
            let word = |s: &mut Src| *s.pick(&["serde", "schemars"]);
            if shape != Shape::Newtype && s.chance(1, 8) {
                if s.bool() {
                    both.push(format!("#[{}(skip_serializing)]", word(s)));
                    inn[0] = false;
                } else {
                    both.push(format!("#[{}(skip_deserializing)]", word(s)));
                    inn[1] = false;
                }
            }
            // validation, on types written in place
            if s.chance(1, 8) && !internal {
                match ty.0 {
                    "u8" | "i64" => both.push("#[schemars(range(min = 3))]".into()),
                    "String" => both.push("#[validate(length(min = 2))]".into()),
                    "Vec<String>" => both.push("#[garde(length(max = 4))]".into()),
                    _ => {}
                }
            }
            let name = format!("{prefix}{i}");
            let mut shown = name.clone();
            let custom = s.bool();
            if shape == Shape::Struct {
                if s.chance(1, 6) {
                    shown = format!("{} {i}", s.pick(&["re/named", "p%~", "type", "é"]));
                    both.push(format!("#[{}(rename = {})]", word(s), lit(&shown)));
                }
                // where the default comes from
                let own = s.chance(2, 5);
                let value = if own {
                    if s.bool() {
                        both.push(format!("#[{}(default)]", word(s)));
                        ty.1
                    } else {
                        let f = self.consts.func(ty.0, ty.2).replace("()", "");
                        both.push(format!("#[{}(default = {})]", word(s), lit(&f)));
                        ty.3
                    }
                } else if cont_default {
                    if custom {
                        ty.3
                    } else {
                        ty.1
                    }
                } else if !inn[1] {
                    // never deserialized, so always the type's default
                    ty.1
                } else {
                    None
                };
                let mut value: Option<Value> = value.map(|v| serde_json::from_str(v).unwrap());
                if ty.1.is_some() && s.chance(1, 4) {
                    both.push("#[serde(skip_serializing_if = \"vh::lab::empty\")]".into());
                    value = value.filter(|v| !["null", "[]", "{}", "\"\""].contains(&v.to_string().as_str()));
                }
                if ty.0 == "u8" && s.chance(1, 4) {
                    both.push("#[serde(serialize_with = \"super::hex::serialize\")]".into());
                    if s.bool() {
                        both.push("#[schemars(with = \"u8\")]".into());
                    }
                    value = value.map(|v| json!(format!("0x{v}")));
                }
                if inn[0] {
                    if let Some(v) = value {
                        pre.push(set("default", v));
                    }
                }
                write!(def, "{name}: {}, ", if custom { ty.2 } else { "Default::default()" }).unwrap();
            }
            let mut l = loc.to_vec();
            match shape {
                Shape::Struct => l.push(json!({"prop": shown})),
                Shape::Tuple => {
                    let at = |k: usize| if inn[k] { json!(idx[k]) } else { Value::Null };
                    l.push(json!({"item": [at(0), at(1)]}));
                    (0..2).for_each(|k| idx[k] += inn[k] as usize);
                }
                _ => {}
            }
            let d = deco(s, Place::Field, internal, &mut self.consts);
            let dt = d.text("            ");
            let both: String = both.iter().map(|b| format!("            {b}\n")).collect();
            let decl = if shape == Shape::Struct { format!("            {vis}{name}: {},\n", ty.0) } else { format!("            {vis}{},\n", ty.0) };
            writeln!(p, "{both}{decl}").unwrap();
            if s.bool() {
                writeln!(q, "{both}{dt}{decl}").unwrap();
            } else {
                writeln!(q, "{dt}{both}{decl}").unwrap();
            }
            self.item(&l, inn, pre, d);
        }
        (p, q, def)
    }
    fn body(shape: Shape, f: &str, end: &str) -> String {
        match shape {
            Shape::Unit => end.to_string(),
            Shape::Struct => format!(" {{\n{f}        }}{}", if end == ";" { "" } else { end }),
            _ => format!("(\n{f}        ){end}"),
        }
    }
    fn container(&mut self, s: &mut Src, name: &str, base: &[Value]) -> Value {
        if s.chance(1, 14) {
            // variants' metadata has no place in the schema
            let d = deco(s, Place::Container, false, &mut self.consts);
            let head = format!("        #[derive({})] #[repr(u8)]\n", s.pick(&["JsonSchema_repr", "schemars::JsonSchema_repr"]));
            let body = format!("        pub enum {name} {{ A = 1, B, C = 9 }}\n");
            write!(self.plain, "{head}{body}").unwrap();
            write!(self.deco, "{head}{}{body}", d.text("        ")).unwrap();
            self.item(base, [true, true], vec![], d);
            Value::Null
        } else if s.chance(1, 2) {
            self.enumeration(s, name, base)
        } else {
            let shape = *s.pick(&[Shape::Struct, Shape::Struct, Shape::Struct, Shape::Tuple, Shape::Newtype, Shape::Unit]);
            self.structure(s, name, base, shape);
            Value::Null
        }
    }
    fn emit(&mut self, s: &mut Src, both: &str, decl: &str, p: &str, q: &str, base: &[Value]) {
        let d = deco(s, Place::Container, false, &mut self.consts);
        let derive = "        #[derive(JsonSchema)]\n";
        writeln!(self.plain, "{derive}{both}        {decl}{p}").unwrap();
        let dt = d.text("        ");
        if s.bool() {
            writeln!(self.deco, "{derive}{both}{dt}        {decl}{q}").unwrap();
        } else {
            // the derive after other attributes
            let (a, b) = (d.attrs.iter().take_while(|a| a.starts_with("///") || a.starts_with("#[doc")).map(|a| format!("        {a}\n")).collect::<String>(), d.attrs.iter().skip_while(|a| a.starts_with("///") || a.starts_with("#[doc")).map(|a| format!("        {a}\n")).collect::<String>());
            writeln!(self.deco, "{a}{derive}{b}{both}        {decl}{q}").unwrap();
        }
        self.item(base, [true, true], vec![], d);
    }
    fn structure(&mut self, s: &mut Src, name: &str, base: &[Value], shape: Shape) {
        let cd = shape == Shape::Struct && s.chance(1, 3);
        let (p, q, def) = self.fields(s, shape, base, cd, "pub ", false, "f");
        let mut both = String::new();
        if cd {
            if s.bool() {
                both.push_str("        #[serde(default)]\n");
                let imp = format!("        impl Default for {name} {{ fn default() -> Self {{ {name} {{ {def} }} }} }}\n");
                self.plain.push_str(&imp);
                self.deco.push_str(&imp);
            } else {
                writeln!(both, "        #[schemars(default = \"make_{}\")]", name.to_lowercase()).unwrap();
                let imp = format!("        fn make_{}() -> {name} {{ {name} {{ {def} }} }}\n", name.to_lowercase());
                self.plain.push_str(&imp);
                self.deco.push_str(&imp);
            }
        }
        if s.chance(1, 6) && shape == Shape::Struct {
            both.push_str("        #[serde(deny_unknown_fields)]\n");
        }
        self.emit(s, &both, &format!("pub struct {name}"), &Self::body(shape, &p, ";"), &Self::body(shape, &q, ";"), base);
    }
    fn enumeration(&mut self, s: &mut Src, name: &str, base: &[Value]) -> Value {
        let tagging = s.below(4);
        let n = 1 + s.below(5);
        let refs = s.chance(1, 8);
        let untagged_from = if tagging < 3 && s.chance(1, 4) { s.below(n) } else { n };
        let mut both = match tagging {
            0 => "".to_string(),
            1 => "        #[serde(tag = \"tag\")]\n".into(),
            2 => "        #[serde(tag = \"tag\", content = \"content\")]\n".into(),
            _ => "        #[serde(untagged)]\n".into(),
        };
        if refs {
            both.push_str("        #[schemars(_unstable_ref_variants)]\n");
        }
        let (mut p, mut q) = (String::new(), String::new());
        let mut unit_decorated = false;
        for i in 0..n {
            let untagged = tagging == 3 || i >= untagged_from;
            let internal = tagging == 1 && !untagged;
            let shape = match s.below(7) {
                0..=2 => Shape::Unit,
                3 => Shape::Newtype,
                4 if tagging != 1 => Shape::Tuple,
                _ => Shape::Struct,
            };
            let vname = format!("V{i}");
            let mut shown = vname.clone();
            let mut vboth = String::new();
            if s.chance(1, 6) && !refs {
                shown = format!("{} {i}", s.pick(&["re/named", "p%~", "é"]));
                writeln!(vboth, "            #[serde(rename = {})]", lit(&shown)).unwrap();
            }
            if untagged && tagging != 3 {
                vboth.push_str("            #[serde(untagged)]\n");
            }
            let kind = if untagged { 3 } else { tagging };
            let mut loc = base.to_vec();
            loc.push(json!({"var": kind, "name": shown, "end": n - i, "ref": refs}));
            let mut inner = loc.clone();
            match kind {
                0 if shape != Shape::Unit => inner.push(json!({"prop": shown})),
                2 if shape != Shape::Unit => inner.push(json!({"prop": "content"})),
                _ => {}
            }
            let at = self.items.len();
            let (fp, fq, _) = self.fields(s, shape, &inner, false, "", internal && shape == Shape::Newtype, &format!("v{i}f"));
            let d = deco(s, Place::Variant, false, &mut self.consts);
            if shape == Shape::Unit && kind == 0 && !d.attrs.is_empty() {
                unit_decorated = true;
            }
            let dt = d.text("            ");
            writeln!(p, "{vboth}            {vname}{}", Self::body(shape, &fp, ",")).unwrap();
            writeln!(q, "{dt}{vboth}            {vname}{}", Self::body(shape, &fq, ",")).unwrap();
            let mut pre = vec![];
            if untagged {
                if !d.explicit_title {
                    pre.push(json!({"variant_title": shown}));
                }
                // before its fields
                self.items.insert(at, json!({"loc": loc, "in": [true, true], "ops": [{"no_variant_title": true}]}));
            }
            // undecorated ones are listed together
            if kind != 0 || shape != Shape::Unit || !d.attrs.is_empty() || refs {
                self.item(&loc, [true, true], pre, d);
            }
        }
        self.emit(s, &both, &format!("pub enum {name}"), &format!(" {{\n{p}        }}"), &format!(" {{\n{q}        }}"), base);
        if tagging == 0 && unit_decorated && !refs {
            json!(base)
        } else {
            Value::Null
        }
    }
}

const HELPERS: &str = r#"
    use vh::lab::prelude::*;
    use schemars::Schema;
    pub const N: u8 = 41;
    pub const TEN: [u8; 1] = [10];
    #[derive(JsonSchema, Serialize, Default, Clone)] pub struct Inner { pub a: u8 }
    #[derive(JsonSchema, Serialize, Default)] pub enum Choice { #[default] First, Second(u8) }
    #[derive(JsonSchema, Default)] pub struct NoSer;
    #[derive(JsonSchema, Default)] pub struct Fails;
    impl Serialize for Fails { fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { Err(serde::ser::Error::custom("no")) } }
    pub mod hex { pub fn serialize<S: serde::Serializer>(v: &u8, s: S) -> Result<S::Ok, S::Error> { s.collect_str(&format_args!("0x{v:x}")) } }
    fn snap(k: &str, s: &mut Schema) {
        let keys: std::collections::BTreeSet<String> = s.as_object().into_iter().flatten().map(|x| x.0.clone()).collect();
        s.insert(k.into(), serde_json::json!(keys));
    }
    pub fn snap1(s: &mut Schema) { snap("x-t1", s) }
    pub fn snap2(s: &mut Schema) { snap("x-t2", s) }
    pub struct Snap(pub &'static str);
    impl schemars::transform::Transform for Snap { fn transform(&mut self, s: &mut Schema) { snap(self.0, s) } }
    pub fn snapper(n: usize) -> impl schemars::transform::Transform { move |s: &mut Schema| snap(&format!("x-t{n}"), s) }
    pub fn closure() -> impl FnMut(&mut Schema) { |s: &mut Schema| { s.insert("x-cl".into(), true.into()); } }
    pub fn undescribe(s: &mut Schema) { s.remove("description"); s.insert("x-n".into(), N.into()); }
"#;

fn generate(name: &str, s: &mut Src) -> UnitSrc {
    let mut g = Gen { plain: String::new(), deco: String::new(), items: vec![], consts: Consts::default(), decorated: 0 };
    let norm = g.container(s, "C", &[]);
    let c_items = std::mem::take(&mut g.items);
    // a struct that refers to it
    let mut holder = vec![];
    for it in &c_items {
        let mut it = it.clone();
        it["loc"].as_array_mut().unwrap().insert(0, json!({"def": "C"}));
        holder.push(it);
    }
    let hnorm = if norm.is_null() { Value::Null } else { json!([{"def": "C"}]) };
    let opt = s.chance(1, 3);
    let d = deco(s, Place::Field, false, &mut g.consts);
    let ty = if opt { "Option<C>" } else { "C" };
    writeln!(g.plain, "        #[derive(JsonSchema)] pub struct H {{\n            pub c: {ty},\n        }}").unwrap();
    writeln!(g.deco, "        #[derive(JsonSchema)] pub struct H {{\n{}            pub c: {ty},\n        }}", d.text("            ")).unwrap();
    g.item(&[json!({"prop": "c"})], [true, true], vec![], d);
    let h_items = std::mem::take(&mut g.items);
    holder.extend(h_items);
    let mut o = format!("pub mod {name} {{\n{HELPERS}{}", g.consts.src);
    let head = "        use vh::lab::prelude::*;\n        use schemars::JsonSchema_repr;\n";
    write!(o, "    pub mod plain {{\n{head}{}    }}\n    pub mod deco {{\n{head}{}    }}\n}}\n", g.plain, g.deco).unwrap();
    let roots = ["plain::C", "deco::C", "plain::H", "deco::H"].iter().map(|t| format!("vh::lab::Root::new::<{name}::{t}>({t:?})")).collect();
    UnitSrc {
        source: o,
        roots,
        meta: json!({"decorated": g.decorated, "docs": [
            {"name": "C", "items": c_items, "norm": norm},
            {"name": "H", "items": holder, "norm": hnorm},
        ]}),
    }
}

// ------------------------------------------------------------------------------------- checking

fn locate(doc: &Value, steps: &[Value], ser: bool) -> Option<String> {
    let mut p = String::new();
    for st in steps {
        if let Some(n) = st["def"].as_str() {
            p = format!("/$defs/{n}");
        } else if let Some(n) = st["prop"].as_str() {
            p += &format!("/properties/{}", esc(n));
        } else if st["item"].is_array() {
            p += &format!("/prefixItems/{}", st["item"][if ser { 0 } else { 1 }].as_u64()?);
        } else {
            let name = &st["name"];
            let key = ["oneOf", "anyOf"].into_iter().find(|k| doc.pointer(&format!("{p}/{k}")).is_some())?;
            let arr = doc.pointer(&format!("{p}/{key}"))?.as_array()?;
            let i = if st["ref"] == true {
                let r = format!("#/$defs/{}", name.as_str()?);
                arr.iter().position(|e| e["$ref"] == r.as_str())?
            } else {
                match st["var"].as_u64()? {
                    0 => arr.iter().position(|e| e["const"] == *name || e["enum"] == json!([name]) || e["properties"].get(name.as_str().unwrap()).is_some())?,
                    3 => arr.len().checked_sub(st["end"].as_u64()? as usize)?,
                    _ => arr.iter().position(|e| e["properties"]["tag"]["const"] == *name || e["properties"]["tag"]["enum"] == json!([name]))?,
                }
            };
            p = if st["ref"] == true { format!("/$defs/{}", name.as_str()?) } else { format!("{p}/{key}/{i}") };
        }
        doc.pointer(&p)?;
    }
    Some(p)
}

/// Writes the unit variants of an externally tagged enum separately, in a fixed order.
fn normalise(doc: &mut Value, p: &str) {
    let Some(Value::Object(o)) = doc.pointer_mut(p) else { return };
    let one = |v: &Value| json!({"type": "string", "const": v});
    if o.get("type") == Some(&json!("string")) && !o.contains_key("oneOf") {
        if let Some(Value::Array(e)) = o.get("enum").cloned() {
            o.remove("type");
            o.remove("enum");
            o.insert("oneOf".into(), e.iter().map(one).collect());
        }
    }
    let Some(key) = ["oneOf", "anyOf"].into_iter().find(|k| o.contains_key(*k)) else { return };
    let Some(Value::Array(a)) = o.remove(key) else { return };
    let mut out: Vec<Value> = vec![];
    for e in a {
        if e["type"] == "string" && e["enum"].is_array() && e.as_object().unwrap().len() == 2 {
            out.extend(e["enum"].as_array().unwrap().iter().map(one));
        } else {
            out.push(e);
        }
    }
    // tagged variants first, by name
    out.sort_by_key(|e| {
        let n = e["const"].as_str().or_else(|| e["properties"].as_object().filter(|_| e["additionalProperties"] == false && e["required"].as_array().is_some_and(|r| r.len() == 1)).and_then(|p| p.keys().next().map(|k| k.as_str())));
        (n.is_none(), n.unwrap_or("").to_string())
    });
    o.insert(key.into(), out.into());
}

fn apply(doc: &mut Value, p: &str, op: &Value, titles: bool) {
    let v = doc.pointer_mut(p).expect("located");
    if let Some(b) = op["no_variant_title"].as_bool() {
        if b && titles {
            v.as_object_mut().map(|o| o.remove("title"));
        }
        return;
    }
    if let Some(t) = op["variant_title"].as_str() {
        if titles {
            if *v == true {
                *v = json!({});
            }
            v["title"] = t.into();
        }
        return;
    }
    if *v == true {
        *v = json!({});
    }
    let o = v.as_object_mut().expect("an object schema");
    if let Some(k) = op["set"].as_str() {
        o.insert(k.into(), op["v"].clone());
    } else if let Some(k) = op["snap"].as_str() {
        let keys: BTreeSet<&String> = o.keys().filter(|k| !(p.is_empty() && *k == "$defs")).collect();
        let keys = json!(keys);
        o.insert(k.into(), keys);
    } else {
        o.remove("description");
        o.insert("x-n".into(), op["undescribe"].clone());
    }
}

pub fn check(ctx: &mut Ctx, s: &mut Src, st: &mut Stats) -> CaseResult {
    let (k, ser, titles) = (s.below(2), s.bool(), s.chance(1, 3));
    let set = || {
        let mut t = SchemaSettings::draft2020_12();
        t.untagged_enum_variant_titles = titles;
        if ser {
            t.for_serialize()
        } else {
            t
        }
    };
    let doc = ctx.meta["docs"][k].clone();
    let plain = (ctx.unit.roots[2 * k].schema)(&set()).to_value();
    let deco = (ctx.unit.roots[2 * k + 1].schema)(&set()).to_value();
    let who = format!("{} {} ({}{})", ctx.unit.name, doc["name"].as_str().unwrap(), if ser { "serialize" } else { "deserialize" }, if titles { ", variant titles" } else { "" });
    let mut want = plain.clone();
    let mut got = deco.clone();
    for v in [&mut want, &mut got] {
        v.as_object_mut().unwrap().remove("$schema");
    }
    want.as_object_mut().unwrap().remove("title");
    if let Some(base) = doc["norm"].as_array() {
        for v in [&mut want, &mut got] {
            if let Some(p) = locate(v, base, ser) {
                normalise(v, &p);
            }
        }
    }
    let items = doc["items"].as_array().unwrap();
    let case = |w: &Value| json!({"plain": plain, "decorated": deco, "expected": w});
    let mut at: Vec<Option<String>> = vec![];
    for it in items {
        let p = locate(&want, it["loc"].as_array().unwrap(), ser);
        let present = it["in"][if ser { 0 } else { 1 }] == true;
        if p.is_some() != present {
            return fail("item-not-found", format!("{who}: the schema of the item at {} is {}", it["loc"], if present { "missing" } else { "unexpected" }), case(&want));
        }
        // generated defaults are part of the model
        if let Some(p) = &p {
            if it["loc"].as_array().unwrap().last().is_some_and(|l| l["prop"].is_string()) {
                if let Some(o) = want.pointer_mut(p).and_then(Value::as_object_mut) {
                    o.remove("default");
                    if o.is_empty() {
                        *want.pointer_mut(p).unwrap() = true.into();
                    }
                }
            }
        }
        at.push(p);
    }
    let mut kinds = BTreeSet::new();
    for (it, p) in items.iter().zip(&at) {
        let Some(p) = p else { continue };
        for op in it["ops"].as_array().unwrap() {
            apply(&mut want, p, op, titles);
            kinds.insert(op["set"].as_str().or(op["snap"].as_str().map(|_| "transform")).unwrap_or("other").to_string());
        }
    }
    let o = want.as_object_mut().unwrap();
    if !o.contains_key("title") {
        o.insert("title".into(), doc["name"].clone());
    }
    if ctx.meta["decorated"].as_u64() >= Some(2) {
        st.nontrivial(&(ctx.unit.name, k, ser, titles), || json!({"type": who, "schema": deco}));
        for w in kinds {
            st.class(&format!("schemas with {w}"));
        }
    }
    if let Some((path, a, b)) = difference("", &want, &got) {
        return fail(
            format!("metadata-{}", path.rsplit('/').next().unwrap_or("").chars().filter(|c| c.is_ascii_alphabetic()).collect::<String>()),
            format!("{who}: at {path:?}, expected {} but the schema has {}", show(&a), show(&b)),
            case(&want),
        );
    }
    Ok(())
}

fn show(v: &Option<Value>) -> String {
    v.as_ref().map_or("nothing".into(), |v| v.to_string().chars().take(300).collect())
}
fn difference(p: &str, a: &Value, b: &Value) -> Option<(String, Option<Value>, Option<Value>)> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                let q = format!("{p}/{}", esc(k));
                match y.get(k) {
                    None => return Some((q, Some(v.clone()), None)),
                    Some(w) => {
                        if let Some(d) = difference(&q, v, w) {
                            return Some(d);
                        }
                    }
                }
            }
            let extra: Map<String, Value> = y.iter().filter(|(k, _)| !x.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect();
            extra.into_iter().next().map(|(k, v)| (format!("{p}/{}", esc(&k)), None, Some(v)))
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(i, (v, w))| difference(&format!("{p}/{i}"), v, w)),
        _ if a == b => None,
        _ => Some((p.to_string(), Some(a.clone()), Some(b.clone()))),
    }
}
