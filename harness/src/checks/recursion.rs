//! Generated types that contain themselves in every way the derive supports (C04, C06, C08, C09). They only
//! derive JsonSchema: serde need not be able to produce values of them.
use crate::labrun::{self, Lab, UnitSrc};
use crate::run::*;
use crate::src::Src;
use serde_json::json;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Named,
    Tuple,
    Newtype,
    External,
    Internal,
    Adjacent,
    Untagged,
}

struct G {
    n: usize,
    kinds: Vec<Kind>,
    edges: Vec<Vec<usize>>,
    /// only flatten and tag what serializes as an object, and is not a `$ref` itself
    strict: bool,
}

impl G {
    fn target(&mut self, from: usize, s: &mut Src) -> usize {
        // mostly the type itself or a neighbour, so that cycles are common
        let j = match s.below(4) {
            0 => from,
            1 => (from + 1) % self.n,
            _ => s.below(self.n),
        };
        self.edges[from].push(j);
        j
    }
    fn boxed(&mut self, from: usize, s: &mut Src) -> String {
        let j = self.target(from, s);
        self.pointer(j, s)
    }
    /// what may be flattened or tagged
    fn object(&mut self, from: usize, s: &mut Src) -> String {
        let mut j = self.target(from, s);
        if self.strict && matches!(self.kinds[j], Kind::Newtype | Kind::Tuple | Kind::Untagged) {
            match self.kinds.iter().position(|k| !matches!(k, Kind::Newtype | Kind::Tuple | Kind::Untagged)) {
                Some(k) => j = k,
                None => return "Plain".into(),
            }
            self.edges[from].push(j);
        }
        self.pointer(j, s)
    }
    fn pointer(&mut self, j: usize, s: &mut Src) -> String {
        match s.below(6) {
            0 => format!("std::rc::Rc<D{j}>"),
            1 => format!("Box<G<D{j}>>"),
            2 => format!("std::sync::Arc<D{j}>"),
            _ => format!("Box<D{j}>"),
        }
    }
    fn leaf(&self, s: &mut Src) -> String {
        s.pick(&["i32", "String", "()", "Option<bool>", "(u8, String)", "Value", "Plain", "PlainEnum"]).to_string()
    }
    fn ty(&mut self, from: usize, s: &mut Src) -> String {
        match s.below(12) {
            0..=2 => self.leaf(s),
            3 | 4 => self.boxed(from, s),
            5 | 6 => format!("Option<{}>", self.boxed(from, s)),
            7 => format!("Vec<D{}>", self.target(from, s)),
            8 => format!("BTreeMap<String, D{}>", self.target(from, s)),
            9 => format!("({}, i32)", self.boxed(from, s)),
            10 => format!("[{}; 2]", self.boxed(from, s)),
            _ => format!("Option<Vec<Option<{}>>>", self.boxed(from, s)),
        }
    }
    /// attributes and type of a field
    fn field(&mut self, from: usize, named: bool, s: &mut Src) -> String {
        let mut a = String::new();
        if s.chance(1, 6) {
            a.push_str("/// about the field\n        ");
        }
        if s.chance(1, 10) {
            a.push_str("#[schemars(extend(\"x-e\" = 1))] ");
        }
        if named && s.chance(1, 4) {
            let t = match s.below(4) {
                0 | 1 => self.object(from, s),
                2 => format!("Option<{}>", self.object(from, s)),
                _ => s.pick(&["BTreeMap<String, i32>", "PlainEnum", "Plain", "Option<Plain>"]).to_string(),
            };
            return format!("#[serde(flatten)] {a}{{}}{t}");
        }
        let t = self.ty(from, s);
        if t.starts_with("Option") {
            match s.below(6) {
                0 | 1 => a.push_str("#[schemars(required)] "),
                2 if named => a.push_str("#[serde(default)] "),
                _ => {}
            }
        } else if s.chance(1, 12) {
            a.push_str("#[serde(skip_serializing)] ");
        } else if s.chance(1, 12) {
            let w = self.ty(from, s);
            let _ = write!(a, "#[schemars(with = \"{w}\")] ");
        }
        format!("{a}{{}}{t}")
    }
    fn named(&mut self, from: usize, max: usize, s: &mut Src) -> String {
        let mut o = String::from("{ ");
        for k in 0..s.below(max + 1) {
            let f = self.field(from, true, s);
            let _ = write!(o, "{}, ", f.replacen("{}", &format!("f{k}: "), 1));
        }
        o + "}"
    }
    fn tuple(&mut self, from: usize, n: usize, s: &mut Src) -> String {
        let fs: Vec<String> = (0..n).map(|_| self.field(from, false, s).replacen("{}", "", 1)).collect();
        format!("({})", fs.join(", "))
    }
    fn body(&mut self, i: usize, s: &mut Src) -> String {
        match self.kinds[i] {
            Kind::Named => format!("struct D{i} {}", self.named(i, 4, s)),
            Kind::Tuple => format!("struct D{i}{};", self.tuple(i, 2, s)),
            Kind::Newtype => {
                let t = self.boxed(i, s);
                // (flattening a newtype around an Option is one of the known limits)
                let t = s.pick(&["@", "@", "Vec<@>"]).replace('@', &t);
                format!("struct D{i}({t});")
            }
            k => {
                let mut o = format!("enum D{i} {{ ");
                for v in 0..1 + s.below(3) {
                    let untagged = k != Kind::Untagged && v > 0 && s.chance(1, 5) && !self.strict;
                    if s.chance(1, 6) {
                        o.push_str("/// about the variant\n    ");
                    }
                    if untagged {
                        o.push_str("#[serde(untagged)] ");
                    }
                    match s.below(if k == Kind::Internal { 4 } else { 5 }) {
                        0 => {
                            let _ = write!(o, "V{v}, ");
                        }
                        1 | 2 => {
                            // (what an internally tagged variant holds is an object, or nothing)
                            let t = if k == Kind::Internal && !untagged {
                                let b = self.object(i, s);
                                s.pick(&["@", "@", "@", "BTreeMap<String, @>", "Plain", "PlainEnum"]).replace('@', &b)
                            } else {
                                self.ty(i, s)
                            };
                            let _ = write!(o, "V{v}({t}), ");
                        }
                        3 => {
                            let b = self.named(i, 3, s);
                            let _ = write!(o, "V{v} {b}, ");
                        }
                        _ => {
                            let b = self.tuple(i, 2, s);
                            let _ = write!(o, "V{v}{b}, ");
                        }
                    }
                    if untagged {
                        break; // (no others may follow)
                    }
                }
                o + "}"
            }
        }
    }
}

fn any(name: &str, s: &mut Src) -> UnitSrc {
    generate(name, false, s)
}
fn strict(name: &str, s: &mut Src) -> UnitSrc {
    generate(name, true, s)
}
fn generate(name: &str, strict: bool, s: &mut Src) -> UnitSrc {
    let n = 1 + s.below(4);
    let kinds: Vec<Kind> = (0..n).map(|_| *s.pick(&[Kind::Named, Kind::Named, Kind::Named, Kind::Internal, Kind::Internal, Kind::Newtype, Kind::Tuple, Kind::External, Kind::Adjacent, Kind::Untagged])).collect();
    let mut g = G { n, kinds, edges: vec![vec![]; n], strict };
    let bodies: Vec<String> = (0..n).map(|i| g.body(i, s)).collect();
    let mut o = format!("mod {name} {{\nuse schemars::JsonSchema; use serde_json::Value; use std::collections::BTreeMap;\n");
    o.push_str("#[derive(JsonSchema)] pub struct Plain { p: i32, q: Option<String> }\n#[derive(JsonSchema)] pub enum PlainEnum { Pa, Pb { z: bool }, /// doc\n Pc }\n#[derive(JsonSchema)] pub struct G<T> { v: T, next: Option<Box<G<T>>> }\n");
    let mut recursive = json!({"G": true});
    for (i, b) in bodies.iter().enumerate() {
        // reaches itself?
        let mut seen = vec![];
        let mut todo = g.edges[i].clone();
        while let Some(x) = todo.pop() {
            if !seen.contains(&x) {
                seen.push(x);
                todo.extend(&g.edges[x]);
            }
        }
        recursive[format!("D{i}")] = json!(seen.contains(&i));
        let mut a = String::from("#[derive(JsonSchema)] ");
        match g.kinds[i] {
            Kind::Internal => a.push_str("#[serde(tag = \"t\")] "),
            Kind::Adjacent => a.push_str("#[serde(tag = \"t\", content = \"c\")] "),
            Kind::Untagged => a.push_str("#[serde(untagged)] "),
            _ => {}
        }
        if s.chance(1, 8) && !b.contains("flatten") {
            a.push_str("#[serde(deny_unknown_fields)] ");
        }
        if s.chance(1, 4) && !seen.contains(&i) {
            a.push_str("#[schemars(inline)] ");
        }
        if s.chance(1, 6) {
            a.push_str("/// about the type\n");
        }
        let _ = writeln!(o, "{a}pub {b}");
    }
    o.push_str("}\n");
    let mut roots: Vec<String> = (0..n).map(|i| format!("vh::lab::Root::new::<{name}::D{i}>(\"D{i}\")")).collect();
    roots.push(format!("vh::lab::Root::new::<Vec<{name}::D0>>(\"Vec<D0>\")"));
    roots.push(format!("vh::lab::Root::new::<(Box<{name}::D0>, Option<Box<{name}::D{}>>)>(\"pair\")", n - 1));
    UnitSrc { source: o, roots, meta: json!({"recursive": recursive}) }
}

pub fn campaign(ck: &mut Check, name: &str, is_strict: bool, cases: (usize, usize)) {
    let generate: fn(&str, &mut Src) -> UnitSrc = if is_strict { strict } else { any };
    labrun::campaign(ck, &Lab { name, units: (500, 2000), unit_len: 160, cases, case_len: 120, report_compile_errors: false, generate: &generate });
}
