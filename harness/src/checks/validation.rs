//! C16: validation attributes in the three syntaxes, against a direct evaluation of the constraints.
use crate::eval::{self, Eval, Mode};
use crate::jsongen;
use crate::lab::Ctx;
use crate::labrun::{self, Lab, UnitSrc};
use crate::run::*;
use crate::src::Src;
use crate::tyspec::lit;
use schemars::generate::SchemaSettings;
use serde_json::{json, Map, Number, Value};
use std::collections::BTreeSet;
use std::fmt::Write;

pub fn c16() -> Check {
    Check::new("C16", "a document checked, per contract and syntax, against a generated type with validation attributes (distinct by type and document), with at least one constraint deciding about part of it")
}
pub fn run_c16(ck: &mut Check) {
    labrun::campaign(ck, &Lab { name: "c16", units: (700, 2400), unit_len: 500, cases: (150, 1000), case_len: 120, report_compile_errors: false, generate: &generate });
}

/// What is known about a field's type: its kind and its elements.
#[derive(Clone)]
enum K {
    Str,
    Int,
    Float,
    Arr(Box<K>),
    /// several JSON types
    Mix(Box<K>),
    Other,
}
struct FieldTy {
    src: String,
    k: K,
    opt: bool,
    /// attributes giving the schema's type
    attr: Option<String>,
}

fn scalar_ty(s: &mut Src, generic: &mut bool) -> (String, K) {
    match s.below(10) {
        0..=3 => {
            if !*generic && s.chance(1, 8) {
                *generic = true;
                return ("T".into(), K::Str);
            }
            let t = s.pick(&["String", "String", "String", "&'static str", "Cow<'static, str>", "Box<str>", "char", "PathBuf", "smol_str03::SmolStr", "arrayvec07::ArrayString<6>", "url2::Url", "Token", "Named", "Rc<String>"]);
            (t.to_string(), K::Str)
        }
        4..=6 => {
            let t = s.pick(&["i32", "u8", "i64", "u64", "u32", "i8", "i16", "u16", "usize", "isize", "NonZeroU8", "NonZeroI16", "NonZeroU64", "Small", "Box<u16>"]);
            (t.to_string(), K::Int)
        }
        7 | 8 => (s.pick(&["f64", "f32", "f64", "Box<f64>"]).to_string(), K::Float),
        _ => (s.pick(&["bool", "()", "BTreeMap<String, String>", "Unit", "(String, u8)", "Duration"]).to_string(), K::Other),
    }
}
fn field_ty(s: &mut Src, generic: &mut bool, d: usize) -> (String, K) {
    if d > 0 && s.chance(2, 5) {
        let (t, k) = field_ty(s, generic, d - 1);
        let ord = ["String", "i32", "u8", "i64", "char", "bool", "u64"].contains(&t.as_str());
        let w = s.below(if ord { 9 } else { 8 });
        let src = match w {
            0..=2 => format!("Vec<{t}>"),
            3 => format!("[{t}; {}]", s.below(4)),
            4 => format!("VecDeque<{t}>"),
            5 => format!("Box<[{t}]>"),
            6 => format!("smallvec1::SmallVec<[{t}; 2]>"),
            7 => format!("arrayvec07::ArrayVec<{t}, {}>", 1 + s.below(4)),
            _ => format!("BTreeSet<{t}>"),
        };
        return (src, K::Arr(Box::new(k)));
    }
    scalar_ty(s, generic)
}
fn ty(s: &mut Src, generic: &mut bool, named: bool) -> FieldTy {
    if s.chance(1, 12) && named {
        // the schema is another type's, or a function's
        let mix = |k: K| K::Mix(Box::new(k));
        let (attr, k) = match s.below(8) {
            4 | 5 => ("schema_with = \"super::mixed_a\"", mix(K::Str)),
            6 => ("schema_with = \"super::mixed_b\"", mix(K::Int)),
            7 => ("schema_with = \"super::mixed_c\"", mix(K::Float)),
            0 => ("with = \"String\"", K::Str),
            1 => ("with = \"Vec<i32>\"", K::Arr(Box::new(K::Int))),
            2 => ("schema_with = \"super::int_schema\"", K::Int),
            _ => ("schema_with = \"super::list_schema\"", K::Arr(Box::new(K::Str))),
        };
        return FieldTy { src: "NoSchema".into(), k, opt: false, attr: Some(attr.into()) };
    }
    let (t, k) = field_ty(s, generic, 2);
    let opt = s.chance(1, 3);
    FieldTy { src: if opt { format!("Option<{t}>") } else { t }, k, opt, attr: None }
}

const PATTERNS: [(&str, &[&str], &[&str]); 10] = [
    ("^[a-c]+$", &["abc", "a"], &["", "abd", "x"]),
    ("^\\d{2,4}", &["12", "1234x"], &["1", "a12"]),
    ("x$", &["x", "aax"], &["xa", ""]),
    ("^(foo|bar)?$", &["", "foo", "bar"], &["fo", "foobar"]),
    ("é", &["é", "caféx"], &["e", ""]),
    ("^.$", &["a", "é"], &["", "ab"]),
    ("\\.", &["a.b", "."], &["ab", ""]),
    ("[^a-z]", &["A", "1a"], &["abc", ""]),
    ("\"q\" \\\\ /", &["\"q\" \\ /", "a\"q\" \\ /b"], &["q", "/"]),
    ("", &["", "any"], &[]),
];

/// Constants and functions that bounds refer to.
#[derive(Default)]
struct Consts {
    src: String,
    n: usize,
}
impl Consts {
    fn add(&mut self, ty: &str, val: &str) -> String {
        self.n += 1;
        let n = format!("K{}", self.n);
        writeln!(self.src, "    pub const {n}: {ty} = {val};").unwrap();
        n
    }
}

/// An expression for an integer.
fn int_expr(v: i128, s: &mut Src, c: &mut Consts) -> String {
    let ty = if v < 0 || (v <= i64::MAX as i128 && s.bool()) { "i64" } else { "u64" };
    let small = v.abs() < 100;
    match s.below(9) {
        0..=2 => v.to_string(),
        3 => format!("{v}{}", if small && v >= 0 { *s.pick(&["u8", "i16", "usize", "u32"]) } else { ty }),
        4 => {
            let n = c.add(if small && v >= 0 { *s.pick(&["usize", "u8", "i32"]) } else { ty }, &v.to_string());
            format!("super::{n}")
        }
        5 => {
            let n = c.add(ty, &v.to_string());
            lit(&format!("super::{n}"))
        }
        6 if small => format!("{} + {}", v - 1, 1),
        6 if v >= 0 => format!("0x{v:X}"),
        7 => {
            c.n += 1;
            let n = format!("f{}", c.n);
            writeln!(c.src, "    pub const fn {n}() -> {ty} {{ {v} }}").unwrap();
            format!("super::{n}()")
        }
        8 if v >= 1000 => {
            // digit separators
            let t = v.to_string();
            format!("{}_{}", &t[..t.len() - 3], &t[t.len() - 3..])
        }
        _ => lit(&v.to_string()),
    }
}
fn float_expr(v: f64, s: &mut Src, c: &mut Consts) -> String {
    match s.below(5) {
        0..=1 => format!("{v:?}"),
        2 => {
            let n = c.add("f64", &format!("{v:?}"));
            format!("super::{n}")
        }
        3 => format!("{v:?} as f64"),
        _ => lit(&format!("{v:?}")),
    }
}
/// An expression with a `to_string()` giving the text.
fn str_expr(v: &str, s: &mut Src, c: &mut Consts, expr_in_lit: bool) -> String {
    let mut n = || {
        let n = c.add("&str", &lit(v));
        format!("super::{n}")
    };
    let m = v.char_indices().nth(v.chars().count() / 2).map_or(0, |x| x.0);
    let e = match s.below(6) {
        0 if !expr_in_lit => return lit(v),
        1 if !expr_in_lit && !v.contains('\r') => return format!("r##\"{v}\"##"),
        2 if expr_in_lit => return lit(&n()),
        2 => n(),
        3 => format!("concat!({}, {})", lit(&v[..m]), lit(&v[m..])),
        4 => format!("String::from({})", lit(v)),
        5 => {
            n();
            let k = format!("f{}", c.n);
            writeln!(c.src, "    pub fn {k}() -> Shown {{ Shown(K{}) }}", c.n).unwrap();
            return format!("super::{k}()");
        }
        _ => n(),
    };
    e
}

/// One attribute item, as written in each syntax.
struct Item {
    word: &'static str,
    schemars: String,
    /// None: schemars only
    validate: Option<String>,
    garde: String,
}
fn same(word: &'static str, t: String) -> Item {
    Item { word, schemars: t.clone(), validate: Some(t.clone()), garde: t }
}

/// Constraints for a type, as JSON for the check to evaluate.
fn items(k: &K, opt: bool, s: &mut Src, c: &mut Consts, depth: usize) -> (Vec<Item>, Value) {
    let mut out = vec![];
    let mut con = Map::new();
    // attributes that do not apply to the type are put in now and then
    let off = s.chance(1, 8);
    let len = matches!(k, K::Str | K::Arr(_) | K::Mix(_)) || off;
    let num = matches!(k, K::Int | K::Float | K::Mix(_)) || off;
    let text = matches!(k, K::Str | K::Mix(_)) || off;
    if len && s.chance(1, 2) {
        let lo = s.below(4) as i128;
        let hi = lo + s.below(4) as i128;
        let mut parts = vec![];
        match s.below(5) {
            0 => {
                con.insert("equal".into(), json!(lo as i64));
                parts.push(format!("equal = {}", int_expr(lo, s, c)));
            }
            m => {
                if m != 1 {
                    con.insert("min".into(), json!(lo as i64));
                    parts.push(format!("min = {}", int_expr(lo, s, c)));
                }
                if m != 2 {
                    con.insert("max".into(), json!(hi as i64));
                    parts.push(format!("max = {}", int_expr(hi, s, c)));
                }
                if s.bool() {
                    parts.reverse();
                }
            }
        }
        let t = format!("length({})", parts.join(", "));
        out.push(Item {
            word: "length",
            schemars: t.clone(),
            validate: Some(if s.chance(1, 3) { format!("length({}, message = \"no\", code = \"x\")", parts.join(", ")) } else { t.clone() }),
            garde: if s.chance(1, 3) { format!("length(chars, {})", parts.join(", ")) } else { t },
        });
    }
    if num && s.chance(3, 5) {
        let mut parts = vec![];
        let float = matches!(k, K::Float);
        let mut one = |s: &mut Src, c: &mut Consts| -> (Value, String) {
            if float && s.chance(3, 4) {
                let v = if s.chance(1, 6) { 16777217.0 } else { s.below(9) as f64 * 0.5 - 2.0 };
                (json!(v), float_expr(v, s, c))
            } else {
                let v = *s.pick(&[0i128, 1, -1, 5, 10, -5, 127, 255, 256, -129, 40000, 3_000_000_000, -3_000_000_000, i64::MAX as i128, u64::MAX as i128, i64::MIN as i128, i64::MAX as i128 + 1, 2_147_483_648]);
                (Value::Number(Number::from_i128(v).unwrap()), int_expr(v, s, c))
            }
        };
        match s.below(5) {
            0 => {
                let (v, e) = one(s, c);
                con.insert("requal".into(), v);
                parts.push(format!("equal = {e}"));
            }
            m => {
                if m != 1 {
                    let (v, e) = one(s, c);
                    con.insert("rmin".into(), v);
                    parts.push(format!("min = {e}"));
                } else if float && s.chance(1, 3) {
                    parts.push("min = f64::NEG_INFINITY".into());
                }
                if m != 2 {
                    let (v, e) = one(s, c);
                    con.insert("rmax".into(), v);
                    parts.push(format!("max = {e}"));
                } else if float && s.chance(1, 3) {
                    parts.push("max = f64::INFINITY".into());
                }
                if s.bool() {
                    parts.reverse();
                }
            }
        }
        let t = format!("range({})", parts.join(", "));
        out.push(Item {
            word: "range",
            schemars: t.clone(),
            validate: Some(if s.chance(1, 3) { format!("range({}, exclusive_min = 2, message = \"no\")", parts.join(", ")) } else { t.clone() }),
            garde: t,
        });
    }
    if text && s.chance(1, 3) {
        let (p, _, _) = *s.pick(&PATTERNS);
        con.insert("pattern".into(), json!(p));
        let v = if s.chance(1, 3) { ", message = \"no\"" } else { "" };
        out.push(Item {
            word: "pattern",
            schemars: if s.bool() { format!("pattern({})", str_expr(p, s, c, false)) } else { format!("regex(pattern = {})", str_expr(p, s, c, false)) },
            validate: Some(format!("regex(path = {}{v})", str_expr(p, s, c, true))),
            garde: format!("pattern({})", str_expr(p, s, c, false)),
        });
    } else if text && s.chance(1, 3) {
        let p = if s.bool() { s.string(3) } else { s.pick(&["a-b", "c#", "(x", "1.5", "a|b", "^$", "\\d", "~&", "[]", "{2}", "é*", "?", " ", "q\"q", "a/b"]).to_string() };
        con.insert("contains".into(), json!(p));
        let e = |s: &mut Src, c: &mut Consts| if p.chars().count() == 1 && s.chance(1, 4) { format!("{:?}", p.chars().next().unwrap()) } else { str_expr(&p, s, c, false) };
        let v = if s.chance(1, 3) { ", message = \"no\"" } else { "" };
        out.push(Item {
            word: "contains",
            schemars: if s.bool() { format!("contains({})", e(s, c)) } else { format!("contains(pattern = {})", e(s, c)) },
            validate: Some(format!("contains(pattern = {}{v})", e(s, c))),
            garde: format!("contains({})", e(s, c)),
        });
    }
    if matches!(k, K::Str) && s.chance(1, 4) {
        let (w, f) = *s.pick(&[("email", "email"), ("url", "uri"), ("ip", "ip"), ("ipv4", "ipv4"), ("ipv6", "ipv6")]);
        con.insert("format".into(), json!(f));
        let mut i = same(w, w.into());
        if s.chance(1, 3) {
            i.validate = Some(format!("{w}(message = \"no\")"));
        }
        out.push(i);
    }
    if depth == 0 && opt && s.chance(1, 3) {
        con.insert("required".into(), json!(true));
        let mut i = same("required", "required".into());
        if s.chance(1, 3) {
            i.validate = Some("required".into());
        }
        out.push(i);
    }
    if let K::Arr(e) | K::Mix(e) = k {
        if s.chance(1, 2) {
            let (is, ic) = items(e, false, s, c, depth + 1);
            if !is.is_empty() {
                con.insert("inner".into(), ic);
                // several `inner(..)` add up
                let cut = if is.len() > 1 && s.chance(1, 3) { 1 } else { is.len() };
                let side = |f: &dyn Fn(&Item) -> String| {
                    let l = |x: &[Item]| format!("inner({})", x.iter().map(f).collect::<Vec<_>>().join(", "));
                    if cut < is.len() {
                        format!("{}, {}", l(&is[..cut]), l(&is[cut..]))
                    } else {
                        l(&is)
                    }
                };
                out.push(Item { word: "inner", schemars: side(&|i| i.schemars.clone()), validate: None, garde: side(&|i| i.garde.clone()) });
            }
        }
    }
    if out.len() > 1 && s.bool() {
        out.rotate_left(1);
    }
    (out, Value::Object(con))
}

fn kind_json(k: &K) -> Value {
    match k {
        K::Str => json!("str"),
        K::Int => json!("int"),
        K::Float => json!("float"),
        K::Arr(e) => json!(["arr", kind_json(e)]),
        K::Mix(e) => json!(["mix", kind_json(e)]),
        K::Other => json!("other"),
    }
}

struct Fld {
    name: String,
    ty: FieldTy,
    items: Vec<Item>,
    con: Value,
    default: bool,
    skip_if: bool,
    flat: bool,
    /// choices for the mixed spelling
    mix: Vec<u32>,
}

const SYNTAXES: [&str; 5] = ["plain", "schemars_", "validate_", "garde_", "mixed"];
const VALIDATE_NOISE: &[&str] = &["custom(function = \"super::nothing\", message = \"x\")", "credit_card", "must_match(other = \"x\")", "non_control_character", "nested", "does_not_contain(pattern = \"x\")", "skip"];
const GARDE_NOISE: &[&str] = &["dive", "skip", "ascii", "alphanumeric", "custom(super::nothing)", "prefix(\"x\")", "suffix(\"y\")", "matches(other)", "rename = \"zz\"", "credit_card"];

fn field_attrs(f: &Fld, syn: usize) -> Vec<String> {
    let (mut sc, mut va, mut ga) = (vec![], vec![], vec![]);
    let mut s = Src::new(&f.mix);
    for i in &f.items {
        match (syn, &i.validate) {
            (1, _) | (2, None) => sc.push(i.schemars.clone()),
            (2, Some(v)) => va.push(v.clone()),
            (3, _) => ga.push(i.garde.clone()),
            (4, v) => match s.below(4) {
                0 => sc.push(i.schemars.clone()),
                1 => match v {
                    Some(v) => va.push(v.clone()),
                    None => ga.push(i.garde.clone()),
                },
                2 => ga.push(i.garde.clone()),
                _ => {
                    // the schemars item takes precedence
                    sc.push(i.schemars.clone());
                    let other = match i.word {
                        "length" => "length(equal = 77)",
                        "range" => "range(min = 70, max = 71)",
                        "pattern" => "contains(pattern = \"zz\")",
                        "contains" => "contains(pattern = \"yy\")",
                        "email" | "url" | "ip" | "ipv4" | "ipv6" => "email",
                        "required" => "required",
                        _ => "ascii",
                    };
                    va.push(other.into());
                }
            },
            _ => {}
        }
    }
    if syn == 2 || syn == 4 {
        if s.chance(1, 4) {
            va.push(s.pick(VALIDATE_NOISE).to_string());
        }
    }
    if syn == 3 || syn == 4 {
        if s.chance(1, 4) {
            ga.push(s.pick(GARDE_NOISE).to_string());
        }
    }
    let mut out = vec![];
    for (n, l) in [("schemars", sc), ("validate", va), ("garde", ga)] {
        if l.is_empty() {
            continue;
        }
        let cut = if s.chance(1, 4) { s.below(l.len()) } else { 0 };
        for part in [&l[..cut], &l[cut..]] {
            if !part.is_empty() {
                out.push(format!("#[{n}({})]", part.join(", ")));
            }
        }
    }
    if syn == 4 && s.bool() {
        out.reverse();
    }
    if let Some(a) = &f.ty.attr {
        out.push(format!("#[schemars({a})]"));
    }
    out
}

fn generate(name: &str, s: &mut Src) -> UnitSrc {
    let mut c = Consts::default();
    let mut generic = false;
    let enm = s.chance(1, 3);
    let tag = if enm { *s.pick(&["", "tag = \"tag\"", "tag = \"tag\", content = \"content\""]) } else { "" };
    let nv = if enm { 1 + s.below(3) } else { 1 };
    // (shape, fields): 0 named, 1 tuple, 2 newtype
    let mut variants: Vec<(usize, Vec<Fld>)> = vec![];
    for _ in 0..nv {
        let shape = if tag == "tag = \"tag\"" { 0 } else { *s.pick(&[0, 0, 0, 1, 2]) };
        let n = match shape {
            0 => 1 + s.below(5),
            1 => 2 + s.below(2),
            _ => 1,
        };
        let mut fs = vec![];
        for i in 0..n {
            let flat = shape == 0 && s.chance(1, 12) && !fs.iter().any(|f: &Fld| f.flat);
            let (ty, items, con) = if flat {
                (FieldTy { src: "Option<Flat>".into(), k: K::Other, opt: true, attr: None }, vec![same("required", "required".into())], json!({}))
            } else {
                let ty = ty(s, &mut generic, shape == 0);
                let (items, con) = items(&ty.k, ty.opt, s, &mut c, 0);
                (ty, items, con)
            };
            let default = shape == 0 && !flat && ty.opt && s.chance(1, 4);
            let skip_if = shape == 0 && !flat && ty.opt && s.chance(1, 3);
            fs.push(Fld { name: format!("f{i}"), ty, items, con, default, skip_if, flat, mix: (0..16).map(|_| s.next()).collect() });
        }
        variants.push((shape, fs));
    }
    let g = if generic { "<T>" } else { "" };
    let mut o = format!("pub mod {name} {{\n    use vh::lab::prelude::*;\n    use vh::ext::prelude::*;\n");
    o.push_str("    pub struct NoSchema;\n    pub struct Shown(&'static str);\n    impl std::fmt::Display for Shown { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }\n");
    o.push_str("    pub fn int_schema(_: &mut schemars::SchemaGenerator) -> schemars::Schema { schemars::json_schema!({\"type\": \"integer\", \"maximum\": 100}) }\n    pub fn list_schema(_: &mut schemars::SchemaGenerator) -> schemars::Schema { schemars::json_schema!({\"type\": \"array\", \"items\": {\"type\": \"string\", \"minLength\": 1}, \"maxItems\": 3}) }\n");
    for (n, t) in [("a", "[\"null\", \"integer\", \"string\"]"), ("b", "[\"boolean\", \"array\", \"string\", \"object\"]"), ("c", "[\"string\", \"array\", \"number\"]")] {
        let items = ["", ", \"items\": {\"type\": [\"null\", \"integer\"]}", ", \"items\": {\"type\": [\"number\"]}"][(n.as_bytes()[0] - b'a') as usize];
        writeln!(o, "    pub fn mixed_{n}(_: &mut schemars::SchemaGenerator) -> schemars::Schema {{ schemars::json_schema!({{\"type\": {t}{items}}}) }}").unwrap();
    }
    o.push_str("    #[derive(JsonSchema)]\n    #[schemars(inline)]\n    pub struct Token(#[schemars(pattern(\"^[a-z]*$\"), length(max = 5))] String);\n    #[derive(JsonSchema)]\n    #[schemars(inline)]\n    pub struct Small(#[schemars(range(min = -3, max = 30))] i32);\n    #[derive(JsonSchema)]\n    #[schemars(inline)]\n    pub enum Named { A, Ab, Abc }\n    #[derive(JsonSchema)]\n    pub struct Unit;\n    #[derive(JsonSchema)]\n    pub struct Flat { flat_a: u8, flat_b: Option<String> }\n");
    o.push_str(&c.src);
    for (k, syn) in SYNTAXES.iter().enumerate() {
        write!(o, "    pub mod {syn} {{\n        use super::*;\n        #[derive(JsonSchema)]\n").unwrap();
        if !tag.is_empty() {
            writeln!(o, "        #[serde({tag})]").unwrap();
        }
        let body = |o: &mut String, shape: usize, fs: &[Fld], public: &str| {
            let (a, b) = if shape == 0 { (" {\n", "}") } else { ("(\n", ")") };
            o.push_str(a);
            for f in fs {
                for l in field_attrs(f, k) {
                    writeln!(o, "            {l}").unwrap();
                }
                if f.flat {
                    writeln!(o, "            #[serde(flatten)]").unwrap();
                }
                if f.default {
                    writeln!(o, "            #[serde(default)]").unwrap();
                }
                if f.skip_if {
                    writeln!(o, "            #[serde(skip_serializing_if = \"Option::is_none\")]").unwrap();
                }
                let t = if f.flat && k == 0 { "Flat" } else { &f.ty.src };
                if shape == 0 {
                    writeln!(o, "            {public}{}: {t},", f.name).unwrap();
                } else {
                    writeln!(o, "            {public}{t},").unwrap();
                }
            }
            write!(o, "        {b}").unwrap();
        };
        if enm {
            writeln!(o, "        pub enum R{g} {{").unwrap();
            for (i, (shape, fs)) in variants.iter().enumerate() {
                write!(o, "        V{i}").unwrap();
                body(&mut o, *shape, fs, "");
                o.push_str(",\n");
            }
            o.push_str("        }\n");
        } else {
            let (shape, fs) = &variants[0];
            write!(o, "        pub struct R{g}").unwrap();
            body(&mut o, *shape, fs, "pub ");
            o.push_str(if *shape == 0 { "\n" } else { ";\n" });
        }
        o.push_str("    }\n");
    }
    o.push_str("}\n");
    let vs: Vec<Value> = variants
        .iter()
        .map(|(shape, fs)| {
            json!({"shape": shape, "fields": fs.iter().map(|f| json!({
                "name": f.name, "kind": kind_json(&f.ty.k), "opt": f.ty.opt, "con": f.con, "default": f.default, "flat": f.flat, "type": f.ty.src,
            })).collect::<Vec<_>>()})
        })
        .collect();
    let a = if generic { "<String>" } else { "" };
    UnitSrc {
        source: o,
        roots: SYNTAXES.iter().map(|m| format!("vh::lab::Root::new::<{name}::{m}::R{a}>(\"{m}\")")).collect(),
        meta: json!({"tag": tag, "enum": enm, "variants": vs}),
    }
}

// --------------------------------------------------------------------------------------- check

fn cmp(a: &Value, b: &Value) -> std::cmp::Ordering {
    eval::num_cmp(a.as_number().unwrap(), b.as_number().unwrap())
}

/// Direct evaluation of the constraints; counts those that apply.
fn holds(con: &Value, v: &Value, applied: &mut usize) -> bool {
    let mut ok = true;
    let size = match v {
        Value::String(x) => Some(x.chars().count() as i64),
        Value::Array(a) => Some(a.len() as i64),
        _ => None,
    };
    if let Some(n) = size {
        for (k, f) in [("equal", (|n, b| n == b) as fn(i64, i64) -> bool), ("min", |n, b| n >= b), ("max", |n, b| n <= b)] {
            if let Some(b) = con[k].as_i64() {
                *applied += 1;
                ok &= f(n, b);
            }
        }
    }
    if v.is_number() {
        for (k, bad) in [("requal", &["lt", "gt"][..]), ("rmin", &["lt"]), ("rmax", &["gt"])] {
            if con[k].is_number() {
                *applied += 1;
                let o = cmp(v, &con[k]);
                ok &= !bad.iter().any(|b| if *b == "lt" { o.is_lt() } else { o.is_gt() });
            }
        }
    }
    if let Value::String(x) = v {
        if let Some(p) = con["pattern"].as_str() {
            *applied += 1;
            ok &= fancy_regex::Regex::new(p).unwrap().is_match(x).unwrap();
        }
        if let Some(p) = con["contains"].as_str() {
            *applied += 1;
            ok &= x.contains(p);
        }
    }
    if let (Value::Array(a), true) = (v, con["inner"].is_object()) {
        for e in a {
            ok &= holds(&con["inner"], e, applied);
        }
    }
    ok
}

fn sample(kind: &Value, con: &Value, s: &mut Src) -> Value {
    match kind {
        Value::String(k) if k == "str" => {
            if s.chance(1, 3) {
                if let Some(p) = con["pattern"].as_str() {
                    let (_, y, n) = PATTERNS.iter().find(|x| x.0 == p).unwrap();
                    let pool = if s.chance(2, 3) || n.is_empty() { y } else { n };
                    return json!(*s.pick(pool));
                }
            }
            if let (Some(p), true) = (con["contains"].as_str(), s.chance(2, 3)) {
                let mut cs: Vec<char> = p.chars().collect();
                match s.below(6) {
                    0 if !cs.is_empty() => {
                        cs.pop();
                    }
                    1 if !cs.is_empty() => {
                        let i = s.below(cs.len());
                        cs[i] = s.ch();
                    }
                    2 if cs.len() > 1 => cs.insert(1, 'z'),
                    _ => {}
                }
                let (a, b) = (s.string(1), s.string(1));
                return json!(a + &cs.into_iter().collect::<String>() + &b);
            }
            match s.below(6) {
                0 => json!(*s.pick(&["A", "Ab", "Abc", "1.2.3", "http://a.b/", "abc", "a", ""])),
                1 => json!(s.string(7)),
                _ => {
                    let n = s.below(8);
                    json!((0..n).map(|_| *s.pick(&['a', 'b', 'é', '🚀', '1'])).collect::<String>())
                }
            }
        }
        Value::String(k) if k == "int" || k == "float" => {
            let near: Vec<&Value> = ["requal", "rmin", "rmax"].iter().filter_map(|k| con.get(*k)).collect();
            if !near.is_empty() && s.chance(4, 5) {
                let b = s.pick(&near);
                if let (Some(i), true) = (b.as_i64().map(|x| x as i128).or(b.as_u64().map(|x| x as i128)), s.chance(4, 5)) {
                    let v = i + *s.pick(&[0i128, 1, -1]);
                    if let Some(n) = Number::from_i128(v) {
                        return Value::Number(n);
                    }
                }
                let f = b.as_f64().unwrap() + *s.pick(&[0.0, 0.5, -0.5, 1.0, -1.0]);
                return if f.fract() == 0.0 && f.abs() < 1e15 { json!(f as i64) } else { json!(f) };
            }
            match s.below(3) {
                0 => json!(*s.pick(&[0, 1, -1, 5, 100, 101, 30, 31, -3, -4, 255, 256])),
                1 if k == "float" => json!(s.float()),
                _ => jsongen::number(s),
            }
        }
        Value::Array(a) if a[0] == "mix" && s.chance(2, 3) => {
            let k = *s.pick(&["str", "str", "int", "int", "float", "other"]);
            sample(&json!(k), con, s)
        }
        Value::Array(a) => {
            let mut n = s.below(5);
            if let (Some(b), true) = (con["min"].as_i64().or(con["max"].as_i64()).or(con["equal"].as_i64()), s.bool()) {
                n = (b + s.below(3) as i64 - 1).max(0) as usize;
            }
            Value::Array((0..n).map(|_| sample(&a[1], &con["inner"], s)).collect())
        }
        _ => match s.below(6) {
            0 => json!(null),
            1 => json!(true),
            2 => json!({"a": "b"}),
            3 => json!(["x", 1]),
            4 => json!({"secs": 1, "nanos": 2}),
            _ => jsongen::value(s, 1, &[]),
        },
    }
}

const KEYS: [&str; 8] = ["minLength", "maxLength", "minItems", "maxItems", "minimum", "maximum", "pattern", "allOf"];

/// The constrained schema differs from the unconstrained one only in the constraints' keywords.
fn only_constraints(con: &Value, c: &Value, p: &Value, at: &str) -> Result<(), String> {
    let (Value::Object(c), Value::Object(p)) = (c, p) else {
        return if c == p { Ok(()) } else { Err(format!("{at}: {c} instead of {p}")) };
    };
    let has = |k: &[&str]| k.iter().any(|k| !con[*k].is_null());
    let may: BTreeSet<&str> = KEYS
        .iter()
        .filter(|k| match **k {
            "minLength" | "minItems" => has(&["min", "equal"]),
            "maxLength" | "maxItems" => has(&["max", "equal"]),
            "minimum" => has(&["rmin", "requal"]),
            "maximum" => has(&["rmax", "requal"]),
            _ => has(&["pattern", "contains"]),
        })
        .copied()
        .collect();
    let keys: BTreeSet<&String> = c.keys().chain(p.keys()).collect();
    for k in keys {
        let (x, y) = (c.get(k), p.get(k));
        if k == "items" && con["inner"].is_object() {
            if let (Some(x), Some(y)) = (x, y) {
                only_constraints(&con["inner"], x, y, &format!("{at}/items"))?;
                continue;
            }
        }
        let want = if k == "format" && con["format"].is_string() { Some(&con["format"]) } else { y };
        if x != want && !may.contains(k.as_str()) {
            return Err(format!("{at}/{k}: {} instead of {}", show(x), show(want)));
        }
    }
    // escapes of `contains` that ECMA-262 does not know
    if con["contains"].is_string() {
        let pats = c.get("pattern").into_iter().chain(c.get("allOf").and_then(Value::as_array).into_iter().flatten().filter_map(|x| x.get("pattern")));
        for pat in pats.filter_map(Value::as_str) {
            let mut cs = pat.chars();
            while let Some(x) = cs.next() {
                if x == '\\' && !cs.next().is_some_and(|e| "^$\\.*+?()[]{}|/dDsSwWpPbBtnrvf0".contains(e)) {
                    return Err(format!("{at}/pattern: {pat:?} has an escape that is no ECMA-262 escape"));
                }
            }
        }
    }
    Ok(())
}
fn show(v: Option<&Value>) -> String {
    v.map_or("nothing".into(), Value::to_string)
}

/// The schema a field's value gets in the document of a type.
fn field_pointer(meta: &Value, v: usize, f: usize) -> String {
    let var = &meta["variants"][v];
    let field = &var["fields"][f];
    let base = if meta["enum"] == true {
        let b = format!("/oneOf/{v}");
        match meta["tag"].as_str().unwrap() {
            "" => format!("{b}/properties/V{v}"),
            "tag = \"tag\"" => b,
            _ => format!("{b}/properties/content"),
        }
    } else {
        String::new()
    };
    match var["shape"].as_u64().unwrap() {
        0 => format!("{base}/properties/{}", field["name"].as_str().unwrap()),
        1 => format!("{base}/prefixItems/{f}"),
        _ => base,
    }
}

pub fn check(ctx: &mut Ctx, s: &mut Src, st: &mut Stats) -> CaseResult {
    let ser = s.chance(1, 4);
    let syn = 1 + s.below(4);
    let mut get = |k: usize| {
        let r = ctx.unit.roots[k].clone();
        ctx.cached(&format!("{k} {ser}"), || {
            let set = SchemaSettings::draft2020_12();
            (r.schema)(&if ser { set.for_serialize() } else { set }).to_value()
        })
    };
    let (plain, con_doc, first) = (get(0), get(syn), get(1));
    let meta = ctx.meta.clone();
    let name = SYNTAXES[syn];
    let case = |extra: Value| json!({"syntax": name, "unconstrained": *plain, "constrained": *con_doc, "detail": extra});
    if con_doc != first {
        let at = crate::equiv::same(&first, &con_doc, false).err().unwrap_or_else(|| "definitions".into());
        return fail("syntaxes-differ", format!("{}: the {name} syntax gives another schema than the schemars syntax: {at}", ctx.unit.name), case(json!({"schemars": *first})));
    }
    // nothing but the annotated fields changes
    let once = ctx.cached(&format!("structure {syn} {ser}"), || {
        let mut rest = (*con_doc).clone();
        let mut whole = (*plain).clone();
        for (v, var) in meta["variants"].as_array().unwrap().iter().enumerate() {
            for (f, field) in var["fields"].as_array().unwrap().iter().enumerate() {
                if field["flat"] == true {
                    continue;
                }
                let p = field_pointer(&meta, v, f);
                let (Some(c), Some(u)) = (con_doc.pointer(&p), plain.pointer(&p)) else { return json!(format!("no schema at {p}")) };
                if field["con"]["required"] != true {
                    if let Err(e) = only_constraints(&field["con"], c, u, &p) {
                        return json!(e);
                    }
                }
                if !p.is_empty() {
                    for d in [&mut rest, &mut whole] {
                        *d.pointer_mut(&p).unwrap() = json!("field");
                        // which fields are required is for the documents to show
                        if let Some(req) = p.rsplit_once("/properties/").and_then(|x| d.pointer_mut(&format!("{}/required", x.0))) {
                            *req = json!("required");
                        }
                    }
                }
            }
        }
        let newtype = meta["enum"] != true && meta["variants"][0]["shape"] == 2;
        for d in [&mut rest, &mut whole] {
            if let Value::Object(o) = d {
                o.remove("$defs");
                if !o.contains_key("required") && !newtype {
                    o.insert("required".into(), json!("required"));
                }
            }
        }
        if !newtype && norm(&rest) != norm(&whole) {
            return json!(format!("the schema differs outside the annotated fields: {} instead of {}", rest, whole));
        }
        Value::Null
    });
    if let Some(e) = once.as_str() {
        return fail("other-change", format!("{}: {e}", ctx.unit.name), case(Value::Null));
    }
    // formats are annotations here
    let bare = |ctx: &mut Ctx, k: usize, d: &Value| ctx.cached(&format!("bare {k} {ser}"), || without_formats(d));
    let (plain_b, con_b) = (bare(ctx, 0, &plain), bare(ctx, syn, &con_doc));
    // a document
    let vs = meta["variants"].as_array().unwrap();
    let v = s.below(vs.len());
    let var = &vs[v];
    let mut applied = 0;
    let mut ok = true;
    let mut parts: Vec<(String, Value)> = vec![];
    let shape = var["shape"].as_u64().unwrap();
    for field in var["fields"].as_array().unwrap() {
        let n = field["name"].as_str().unwrap();
        if field["flat"] == true {
            if s.chance(4, 5) {
                parts.push(("flat_a".into(), json!(3)));
            }
            if s.bool() {
                parts.push(("flat_b".into(), if s.bool() { json!("x") } else { json!(null) }));
            }
            continue;
        }
        let (con, opt) = (&field["con"], field["opt"] == true);
        let required = con["required"] == true;
        if shape == 0 && s.chance(1, if opt { 5 } else { 20 }) {
            if required && !ser && field["default"] != true {
                ok = false;
                applied += 1;
            }
            continue;
        }
        let val = if opt && s.chance(1, 4) {
            json!(null)
        } else if s.chance(1, 15) {
            jsongen::scalar(s)
        } else {
            sample(&field["kind"], con, s)
        };
        if required && val.is_null() {
            // (a type that allows null by itself still does)
            if field["kind"] == "other" {
                return Ok(());
            }
            ok = false;
            applied += 1;
        }
        ok &= holds(con, &val, &mut applied);
        parts.push((n.into(), val));
    }
    let inner = match shape {
        0 => Value::Object(parts.into_iter().collect()),
        1 => Value::Array(parts.into_iter().map(|x| x.1).collect()),
        _ => parts.pop().unwrap().1,
    };
    let doc = if meta["enum"] == true {
        match meta["tag"].as_str().unwrap() {
            "" => json!({format!("V{v}"): inner}),
            "tag = \"tag\"" => {
                let mut d = json!({"tag": format!("V{v}")});
                d.as_object_mut().unwrap().extend(inner.as_object().unwrap().clone());
                d
            }
            _ => json!({"tag": format!("V{v}"), "content": inner}),
        }
    } else {
        inner
    };
    let base = Eval::new(&plain_b, Mode::Modern).valid(&doc);
    if applied > 0 && base {
        st.class(if ok { "constraints met" } else { "constraints broken" });
        st.nontrivial(&(ctx.unit.name, ser, syn, doc.to_string()), || case(json!({"document": doc, "meets constraints": ok})));
    }
    let got = Eval::new(&con_b, Mode::Modern).valid(&doc);
    if got != (base && ok) && eval::confirmed(&con_b, &doc, got) {
        return fail(
            "constraint",
            format!("{} ({name} syntax): the unconstrained schema {} {doc} and the constraints are {}, but the constrained schema {} it", ctx.unit.name, if base { "accepts" } else { "rejects" }, if ok { "met" } else { "not met" }, if got { "accepts" } else { "rejects" }),
            case(json!({"document": doc})),
        );
    }
    Ok(())
}

/// Drops empty and placeholder `required` lists, which a constraint may have added.
fn norm(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.iter().filter(|(k, v)| !(*k == "required" && **v == json!("required"))).map(|(k, v)| (k.clone(), norm(v))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(norm).collect()),
        v => v.clone(),
    }
}

fn without_formats(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.iter().filter(|(k, v)| !(*k == "format" && v.is_string())).map(|(k, v)| (k.clone(), without_formats(v))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(without_formats).collect()),
        v => v.clone(),
    }
}
