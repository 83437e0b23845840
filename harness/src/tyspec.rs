//! Generated Rust type definitions: a small syntax tree, its generator, and its rendering as Rust
//! source (with Serialize/Deserialize/JsonSchema derives and value generators).
use crate::src::Src;
use std::collections::BTreeSet;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    P(&'static str),
    Opt(Box<Ty>),
    Vec(Box<Ty>),
    Set(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Tup(Vec<Ty>),
    Arr(Box<Ty>, usize),
    Wrap(&'static str, Box<Ty>),
    User(usize, Vec<Ty>),
    Param(usize),
    /// source text
    Raw(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape {
    Unit,
    Newtype,
    Tuple,
    Named,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tag {
    External,
    Internal(String),
    Adjacent(String, String),
    Untagged,
}

/// Attributes of one item.
#[derive(Clone, Debug, Default)]
pub struct Attrs {
    /// understood by serde and schemars alike
    pub shared: Vec<String>,
    /// schemars only
    pub own: Vec<String>,
    /// serde only
    pub serde: Vec<String>,
    /// other attributes and doc comments, rendered as they are
    pub raw: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub ident: String,
    pub ty: Ty,
    pub a: Attrs,
    /// serialize and deserialize name given by `rename`
    pub rename: Option<(String, String)>,
    pub flatten: bool,
    pub skip_ser: bool,
    pub skip_de: bool,
    pub skip_if: Option<String>,
    pub default: Option<Option<String>>,
    /// (serde `with` module, schemars `with` type)
    pub with: Option<(String, String)>,
}

#[derive(Clone, Debug)]
pub struct Variant {
    pub ident: String,
    pub shape: Shape,
    pub fields: Vec<Field>,
    pub a: Attrs,
    pub rename: Option<(String, String)>,
    pub rename_all: Option<(String, String)>,
    pub skip_ser: bool,
    pub skip_de: bool,
    pub untagged: bool,
}

#[derive(Clone, Debug)]
pub enum Body {
    Struct(Shape, Vec<Field>),
    Enum(Tag, Vec<Variant>),
}

#[derive(Clone, Debug)]
pub struct Def {
    pub name: String,
    pub params: usize,
    pub body: Body,
    pub a: Attrs,
    pub rename: Option<(String, String)>,
    pub rename_all: Option<(String, String)>,
    pub rename_all_fields: Option<(String, String)>,
    pub deny: bool,
    pub default: bool,
    pub transparent: bool,
    pub inline: bool,
    pub from: Option<(Ty, bool)>,
    pub into: Option<Ty>,
    pub recursive: bool,
}

#[derive(Clone, Debug)]
pub struct Module {
    pub defs: Vec<Def>,
    /// types checked: monomorphic instances
    pub roots: Vec<Ty>,
}

pub struct TyCfg {
    pub max_defs: usize,
    pub generics: bool,
    pub conversions: bool,
    pub recursion: bool,
    pub with: bool,
    pub inline: bool,
    /// map keys that are char or bool (their schema says nothing about the keys)
    pub loose_keys: bool,
    /// `schemars(required)` on fields that are not `Option`s
    pub required: bool,
}
impl Default for TyCfg {
    fn default() -> Self {
        TyCfg { max_defs: 5, generics: true, conversions: true, recursion: true, with: true, inline: true, loose_keys: true, required: true }
    }
}

pub const CASES: [&str; 8] = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"];
const RENAMES: &[&str] = &["a b", "$ref", "type", "é", "a/b", "x~y", "properties", "0", "A-B", "%41", "", "\\\"q", "items", "🚀", "true", "{T}"];
const CONTAINER_RENAMES: &[&str] = &["My Type", "T/x", "Ünï", "A~1", "%41", "Result", "Any thing", "0", "a-b_c"];
const WORDS: &[&str] = &["alpha", "beta_two", "x", "gamma3_d", "http_url", "_lead", "tail_", "i_d"];
const RAW_WORDS: &[&str] = &["r#type", "r#fn", "r#match", "r#struct", "r#enum", "r#where"];
const VARIANTS: &[&str] = &["Foo", "BarBaz", "Qux1", "A", "HttpGet", "XmlDoc2b", "Unit", "Other"];
const TAGS: &[&str] = &["type", "k-d", "t$", "@type", "tag name"];

pub fn user_has(ty: &Ty, f: &mut dyn FnMut(&Ty) -> bool) -> bool {
    if f(ty) {
        return true;
    }
    match ty {
        Ty::P(_) | Ty::Param(_) | Ty::Raw(_) => false,
        Ty::Opt(t) | Ty::Vec(t) | Ty::Set(t) | Ty::Arr(t, _) | Ty::Wrap(_, t) => user_has(t, f),
        Ty::Map(k, v) => user_has(k, f) || user_has(v, f),
        Ty::Tup(ts) | Ty::User(_, ts) => ts.iter().any(|t| user_has(t, f)),
    }
}

fn uses_param(t: &Ty, this: usize, p: usize) -> bool {
    match t {
        Ty::Param(q) => *q == p,
        Ty::User(i, _) if *i == this => false,
        Ty::P(_) | Ty::Raw(_) => false,
        Ty::Opt(t) | Ty::Vec(t) | Ty::Set(t) | Ty::Arr(t, _) | Ty::Wrap(_, t) => uses_param(t, this, p),
        Ty::Map(a, b) => uses_param(a, this, p) || uses_param(b, this, p),
        Ty::Tup(ts) | Ty::User(_, ts) => ts.iter().any(|t| uses_param(t, this, p)),
    }
}

pub struct TyGen<'a> {
    pub cfg: &'a TyCfg,
    pub defs: Vec<Def>,
    /// number of type parameters in scope
    params: usize,
    /// the definition under construction
    this: Option<usize>,
    /// the definition after this one, where it may be mentioned already
    next: Option<usize>,
    /// the definition before this one, where that may mention this one
    previous: Option<usize>,
    /// does the definition under construction flatten most of its fields?
    flatty: bool,
}

fn pair(s: &mut Src, pool: &[&str], used: &mut BTreeSet<String>) -> Option<(String, String)> {
    let mut one = |s: &mut Src| {
        let a = s.pick(pool).to_string();
        if used.insert(a.clone()) {
            Some(a)
        } else {
            None
        }
    };
    let a = one(s)?;
    if s.chance(1, 3) {
        let b = one(s)?;
        Some((a, b))
    } else {
        Some((a.clone(), a))
    }
}
fn case_pair(s: &mut Src) -> (String, String) {
    let a = s.pick(&CASES).to_string();
    if s.chance(1, 4) {
        (a, s.pick(&CASES).to_string())
    } else {
        (a.clone(), a)
    }
}

fn field(ident: &str, ty: Ty) -> Field {
    Field { ident: ident.into(), ty, a: Attrs::default(), rename: None, flatten: false, skip_ser: false, skip_de: false, skip_if: None, default: None, with: None }
}

impl<'a> TyGen<'a> {
    pub fn new(cfg: &'a TyCfg) -> Self {
        TyGen { cfg, defs: vec![], params: 0, this: None, next: None, previous: None, flatty: false }
    }

    pub fn prim(s: &mut Src) -> Ty {
        Ty::P(s.pick(&["i32", "String", "bool", "u8", "f64", "String", "i64", "u64", "char", "()", "u16", "i8", "f32", "usize", "Value", "u32"]))
    }
    fn key(&self, s: &mut Src) -> Ty {
        match s.below(8) {
            0..=3 => Ty::P("String"),
            4 => Ty::P(s.pick(&["u8", "i32", "u64", "i64"])),
            5 if self.cfg.loose_keys => Ty::P(s.pick(&["char", "bool"])),
            _ => {
                let c: Vec<usize> = (0..self.defs.len()).filter(|i| self.unit_enum(*i)).collect();
                if c.is_empty() {
                    Ty::P("String")
                } else {
                    Ty::User(*s.pick(&c), vec![])
                }
            }
        }
    }
    pub fn unit_enum(&self, i: usize) -> bool {
        let d = &self.defs[i];
        d.params == 0
            && d.from.is_none()
            && d.into.is_none()
            && matches!(&d.body, Body::Enum(Tag::External, vs) if !vs.is_empty() && vs.iter().all(|v| v.shape == Shape::Unit && !v.untagged))
    }

    pub fn ty(&self, s: &mut Src, d: usize) -> Ty {
        if d == 0 {
            return if self.params > 0 && s.chance(1, 3) { Ty::Param(s.below(self.params)) } else { Self::prim(s) };
        }
        match s.below(if self.next.is_some() { 22 } else { 20 }) {
            0..=4 => self.ty(s, 0),
            5..=8 => self.user(s, d),
            9 | 10 => Ty::Opt(Box::new(self.ty(s, d - 1))),
            11 | 12 => Ty::Vec(Box::new(self.ty(s, d - 1))),
            13 => Ty::Set(Box::new(Ty::P(s.pick(&["i32", "String", "bool", "u8", "char"])))),
            14 | 15 => Ty::Map(Box::new(self.key(s)), Box::new(self.ty(s, d - 1))),
            16 => {
                let n = 1 + s.below(3);
                Ty::Tup((0..n).map(|_| self.ty(s, d - 1)).collect())
            }
            17 => Ty::Arr(Box::new(self.ty(s, d - 1)), s.below(4)),
            18 => Ty::Wrap(s.pick(&["Box", "Rc", "Arc", "Box"]), Box::new(self.ty(s, d - 1))),
            _ => match self.this {
                Some(k) if self.cfg.recursion => {
                    let me = match self.next {
                        Some(n) if s.chance(3, 4) => Ty::User(n, vec![]),
                        _ => Ty::User(k, (0..self.params).map(Ty::Param).collect()),
                    };
                    match s.below(3) {
                        0 => Ty::Opt(Box::new(Ty::Wrap("Box", Box::new(me)))),
                        1 => Ty::Vec(Box::new(me)),
                        _ => Ty::Map(Box::new(Ty::P("String")), Box::new(me)),
                    }
                }
                _ => self.ty(s, 0),
            },
        }
    }
    fn user(&self, s: &mut Src, d: usize) -> Ty {
        if self.defs.is_empty() {
            return self.ty(s, 0);
        }
        let i = match self.previous {
            Some(p) if s.bool() => p,
            _ => s.below(self.defs.len()),
        };
        Ty::User(i, (0..self.defs[i].params).map(|_| self.ty(s, d.saturating_sub(1).min(1))).collect())
    }

    fn attr_default_ok(&self, t: &Ty) -> bool {
        // serde and schemars need `T: Default` and give no bound for it
        !user_has(t, &mut |t| matches!(t, Ty::Param(_)))
    }

    /// Definitions reached through flattening from a definition.
    fn flat_reach(&self, i: usize, out: &mut BTreeSet<usize>) {
        if i >= self.defs.len() || !out.insert(i) {
            return;
        }
        let mut next = vec![];
        let of = |fs: &Vec<Field>, first: bool, next: &mut Vec<usize>| {
            for (n, f) in fs.iter().enumerate() {
                if f.flatten || (first && n == 0) {
                    next.extend(flat_user(&f.ty));
                }
            }
        };
        match &self.defs[i].body {
            Body::Struct(sh, fs) => of(fs, *sh == Shape::Newtype || self.defs[i].transparent, &mut next),
            Body::Enum(_, vs) => vs.iter().for_each(|v| of(&v.fields, v.shape == Shape::Newtype, &mut next)),
        }
        for j in next {
            self.flat_reach(j, out);
        }
    }
    /// Property names written out in what flattening a definition brings in.
    fn flat_names(&self, reach: &BTreeSet<usize>) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        for i in reach {
            let d = &self.defs[*i];
            for f in def_fields(d) {
                if let Some((a, b)) = &f.rename {
                    out.insert(a.clone());
                    out.insert(b.clone());
                }
                if let Some(r) = f.ident.strip_prefix("r#") {
                    out.insert(r.to_lowercase());
                }
            }
            if let Body::Enum(t, vs) = &d.body {
                match t {
                    Tag::Internal(t) => {
                        out.insert(t.clone());
                    }
                    Tag::Adjacent(t, c) => {
                        out.insert(t.clone());
                        out.insert(c.clone());
                    }
                    _ => {}
                }
                for v in vs {
                    if let Some((a, b)) = &v.rename {
                        out.insert(a.clone());
                        out.insert(b.clone());
                    }
                }
            }
        }
        out
    }
    /// Does flattening this definition take up arbitrary keys?
    fn greedy(&self, i: usize) -> bool {
        let mut r = BTreeSet::new();
        self.flat_reach(i, &mut r);
        r.iter().any(|j| {
            let d = &self.defs[*j];
            let maps = |f: &Field| {
                let mut t = &f.ty;
                while let Ty::Wrap(_, u) | Ty::Opt(u) = t {
                    t = u;
                }
                matches!(t, Ty::Map(..) | Ty::P("Value"))
            };
            match &d.body {
                Body::Struct(sh, fs) => fs.iter().any(|f| (f.flatten || *sh == Shape::Newtype || d.transparent) && maps(f)),
                Body::Enum(tag, vs) => *tag == Tag::Untagged || vs.iter().any(|v| v.untagged || (v.shape == Shape::Newtype && v.fields.iter().any(maps)) || v.fields.iter().any(|f| f.flatten && maps(f))),
            }
        })
    }
    fn optish(&self, t: &Ty) -> bool {
        match t {
            Ty::Opt(_) => true,
            Ty::Wrap(_, t) => self.optish(t),
            Ty::User(i, _) if *i < self.defs.len() => {
                let d = &self.defs[*i];
                (d.transparent && def_types(d).any(|t| self.optish(t))) || d.from.as_ref().is_some_and(|(t, _)| self.optish(t))
            }
            _ => false,
        }
    }
    /// Can a type be flattened although it is only reached through a `$ref`? (see DESIGN.md, known findings)
    fn seen_through_ref(&self, t: &Ty) -> bool {
        match flat_user(t) {
            None => matches!(t, Ty::Map(..)),
            Some(i) => {
                let mut r = BTreeSet::new();
                self.flat_reach(i, &mut r);
                !self.greedy(i) && !r.iter().any(|j| self.defs[*j].deny || matches!(self.defs[*j].body, Body::Enum(Tag::External, _)))
            }
        }
    }
    /// Can a field of this type be flattened (it serializes as an object)?
    fn flattenable(&self, t: &Ty) -> bool {
        match t {
            Ty::User(i, _) => self.objectlike(*i),
            Ty::Wrap("Box", t) => self.flattenable(t),
            Ty::Opt(t) => matches!(&**t, Ty::User(..)) && self.flattenable(t),
            Ty::Map(k, _) => **k == Ty::P("String"),
            _ => false,
        }
    }
    fn objectlike(&self, i: usize) -> bool {
        let d = &self.defs[i];
        if d.from.is_some() || d.into.is_some() {
            return false;
        }
        match &d.body {
            Body::Struct(Shape::Named, fs) => !d.transparent || self.flattenable(&fs[0].ty),
            Body::Struct(Shape::Newtype, fs) => self.flattenable(&fs[0].ty) && fs[0].with.is_none(),
            Body::Struct(..) => false,
            Body::Enum(t, vs) => vs.iter().all(|v| match (t, v.untagged) {
                (Tag::Untagged, _) | (_, true) => match v.shape {
                    Shape::Named => true,
                    Shape::Newtype => self.flattenable(&v.fields[0].ty) && v.fields[0].with.is_none() && self.seen_through_ref(&v.fields[0].ty),
                    _ => false,
                },
                _ => true,
            }),
        }
    }

    fn fields(&mut self, s: &mut Src, k: usize, shape: Shape, in_variant: bool, internal: bool, used: &mut BTreeSet<String>, flats: &mut BTreeSet<usize>, flat_map: &mut bool, may_skip: bool) -> Vec<Field> {
        let n = match shape {
            Shape::Unit => 0,
            Shape::Newtype => 1,
            Shape::Tuple => *s.pick(&[2, 2, 3, 0]),
            Shape::Named => s.below(5),
        };
        let mut words: Vec<&str> = WORDS.to_vec();
        let mut out: Vec<Field> = vec![];
        for i in 0..n {
            let ident = match shape {
                Shape::Named => {
                    if s.chance(1, 14) && !used.contains("raw") {
                        let w = RAW_WORDS[k % RAW_WORDS.len()];
                        if used.insert(w[2..].to_string()) {
                            used.insert("raw".into());
                            w.to_string()
                        } else {
                            used.insert("raw".into());
                            format!("raw{k}")
                        }
                    } else {
                        let w = words.remove(s.below(words.len()));
                        format!("{w}{}{k}", if s.bool() { "_" } else { "" })
                    }
                }
                _ => i.to_string(),
            };
            let mut ty = if internal && shape == Shape::Newtype {
                self.internal_newtype(s)
            } else {
                self.ty(s, 2)
            };
            // flattened fields
            if shape == Shape::Named && (if self.flatty { s.chance(2, 3) } else { s.chance(1, 5) }) && !self.defs.is_empty() {
                // (often one that flattens something itself)
                let mut nested: Vec<usize> = vec![];
                if s.bool() {
                    nested = (0..self.defs.len()).filter(|j| self.defs[*j].params == 0 && def_fields(&self.defs[*j]).iter().any(|f| f.flatten)).collect();
                }
                let u = if nested.is_empty() { self.user(s, 1) } else { Ty::User(*s.pick(&nested), vec![]) };
                let t = match s.below(6) {
                    0 => Ty::Map(Box::new(Ty::P("String")), Box::new(self.ty(s, 1))),
                    1 | 2 => Ty::Opt(Box::new(u)),
                    3 => Ty::Wrap("Box", Box::new(u)),
                    _ => u,
                };
                ty = t;
            }
            if shape == Shape::Newtype {
                // a newtype around `Option<Box<Self>>` would have an endless chain of references
                let mut t = &ty;
                while let Ty::Opt(u) | Ty::Wrap(_, u) = t {
                    t = u;
                }
                if matches!(t, Ty::User(j, _) if *j >= k) {
                    ty = Ty::Vec(Box::new(t.clone()));
                }
            }
            let mut f = field(&ident, ty);
            if shape == Shape::Named && self.flattenable(&f.ty) && s.chance(2, 3) {
                match flat_user(&f.ty) {
                    Some(j) => {
                        let mut r = BTreeSet::new();
                        self.flat_reach(j, &mut r);
                        let greedy = self.greedy(j);
                        // serde does not support flattening a type that denies unknown fields
                        let denies = r.iter().any(|k| self.defs[*k].deny);
                        let names = self.flat_names(&r);
                        if !denies && r.is_disjoint(flats) && !(greedy && *flat_map) && names.is_disjoint(used) {
                            flats.extend(r);
                            used.extend(names);
                            *flat_map |= greedy;
                            f.flatten = true;
                        }
                    }
                    None => {
                        if !*flat_map {
                            *flat_map = true;
                            f.flatten = true;
                        }
                    }
                }
            }
            if !f.flatten {
                if self.cfg.with && s.chance(1, 25) && matches!(f.ty, Ty::P("i32" | "u8" | "i64" | "u64" | "bool" | "u16" | "u32")) && !(internal && shape == Shape::Newtype) {
                    f.with = Some(("vh::lab::as_str".into(), "String".into()));
                }
                if shape == Shape::Named && s.chance(1, 6) {
                    f.rename = pair(s, RENAMES, used);
                }
                let has_default = self.attr_default_ok(&f.ty);
                if shape == Shape::Named && has_default && s.chance(1, 5) {
                    f.default = Some(if s.chance(1, 3) && f.with.is_none() { Some(String::new()) } else { None });
                }
                if shape == Shape::Named && s.chance(1, 4) && f.with.is_none() {
                    f.skip_if = match &f.ty {
                        Ty::Opt(_) => Some("Option::is_none".into()),
                        Ty::Vec(_) => Some("Vec::is_empty".into()),
                        Ty::P("String") => Some("String::is_empty".into()),
                        Ty::P("bool") => Some("std::ops::Not::not".into()),
                        Ty::Map(..) => Some("BTreeMap::is_empty".into()),
                        Ty::Set(..) => Some("BTreeSet::is_empty".into()),
                        _ => None,
                    };
                }
                // (changes nothing for a field that is not an `Option`)
                if shape == Shape::Named && self.cfg.required && matches!(f.ty, Ty::P(_) | Ty::Vec(_) | Ty::Map(..) | Ty::Set(_)) && s.chance(1, if f.skip_if.is_some() { 5 } else { 15 }) {
                    f.a.own.push("required".into());
                }
                if may_skip && (shape == Shape::Named || shape == Shape::Tuple) && has_default && s.chance(1, 12) {
                    match s.below(3) {
                        0 => {
                            f.skip_ser = true;
                            f.skip_de = true;
                        }
                        1 => f.skip_ser = true,
                        _ => f.skip_de = true,
                    }
                    if f.skip_ser {
                        f.skip_if = None;
                    }
                }
            }
            let _ = in_variant;
            out.push(f);
        }
        out
    }

    fn internal_newtype(&self, s: &mut Src) -> Ty {
        for _ in 0..3 {
            let t = match s.below(6) {
                0 => Ty::Map(Box::new(Ty::P("String")), Box::new(self.ty(s, 1))),
                1 => Ty::Wrap("Box", Box::new(self.user(s, 1))),
                _ => self.user(s, 1),
            };
            let mut u = &t;
            while let Ty::Wrap(_, x) = u {
                u = x;
            }
            match u {
                Ty::Map(..) => return t,
                Ty::User(i, _) if self.objectlike(*i) || matches!(self.defs[*i].body, Body::Struct(Shape::Unit, _)) => return t,
                _ => {}
            }
        }
        Ty::Map(Box::new(Ty::P("String")), Box::new(Ty::P("i32")))
    }

    pub fn def(&mut self, s: &mut Src) {
        let k = self.defs.len();
        let params = if self.previous.is_none() && self.cfg.generics && s.chance(1, 6) { 1 + s.below(2) } else { 0 };
        self.params = params;
        // (recursion refers to the name only)
        self.this = Some(k);
        self.flatty = s.chance(1, 5);
        let mut d = Def {
            name: format!("{}{k}", s.pick(&["T", "My", "Thing_"])),
            params,
            body: Body::Struct(Shape::Unit, vec![]),
            a: Attrs::default(),
            rename: None,
            rename_all: None,
            rename_all_fields: None,
            deny: false,
            default: false,
            transparent: false,
            inline: false,
            from: None,
            into: None,
            recursive: false,
        };
        // a placeholder so that `self.defs[k]` exists for recursive mentions is not needed: mentions
        // of the definition under construction are only made by `ty`
        let mut used = BTreeSet::new();
        let mut flats = BTreeSet::new();
        let mut flat_map = false;
        let kind = s.weighted(&[9, 8, 2, 2, 1]);
        d.body = match kind {
            0 => Body::Struct(Shape::Named, self.fields(s, k, Shape::Named, false, false, &mut used, &mut flats, &mut flat_map, true)),
            1 => {
                let tag = match s.weighted(&[7, 6, 5, 4]) {
                    0 => Tag::External,
                    1 => Tag::Internal(TAGS[(k + s.below(2)) % TAGS.len()].to_string()),
                    2 => Tag::Adjacent(TAGS[k % TAGS.len()].to_string(), s.pick(&["c", "content", "v l"]).to_string()),
                    _ => Tag::Untagged,
                };
                let n = 1 + s.below(4);
                let mut names: Vec<&str> = VARIANTS.to_vec();
                let mut vs: Vec<Variant> = vec![];
                let mut vused = BTreeSet::new();
                for _ in 0..n {
                    let name = names.remove(s.below(names.len()));
                    let mut shape = *s.pick(&[Shape::Unit, Shape::Newtype, Shape::Named, Shape::Named, Shape::Tuple]);
                    let internal = matches!(tag, Tag::Internal(_));
                    if internal && shape == Shape::Tuple {
                        shape = Shape::Named;
                    }
                    // fields of different variants may share names
                    let (mut used, mut flats, mut flat_map) = (BTreeSet::new(), BTreeSet::new(), false);
                    if let Tag::Internal(t) = &tag {
                        used.insert(t.clone());
                    }
                    let fields = self.fields(s, k, shape, true, internal, &mut used, &mut flats, &mut flat_map, true);
                    let mut v = Variant { ident: format!("{name}{}", if k == 0 { String::new() } else { k.to_string() }), shape, fields, a: Attrs::default(), rename: None, rename_all: None, skip_ser: false, skip_de: false, untagged: false };
                    if s.chance(1, 6) {
                        v.rename = pair(s, RENAMES, &mut vused);
                    }
                    if shape == Shape::Named && s.chance(1, 5) {
                        v.rename_all = Some(case_pair(s));
                    }
                    if s.chance(1, 8) {
                        v.a.raw.push("/// A documented variant".into());
                    }
                    if s.chance(1, 12) {
                        match s.below(3) {
                            0 => {
                                v.skip_ser = true;
                                v.skip_de = true;
                            }
                            1 => v.skip_ser = true,
                            _ => v.skip_de = true,
                        }
                    }
                    vs.push(v);
                }
                if tag != Tag::Untagged && s.chance(1, 6) {
                    if let Some(v) = vs.last_mut() {
                        v.untagged = true;
                        v.rename = None;
                    }
                }
                if vs.iter().any(|v| v.fields.iter().any(|f| f.skip_ser || f.skip_de) && v.shape == Shape::Tuple) && tag == Tag::Untagged {}
                d.deny = s.chance(1, 5);
                if d.deny && vs.iter().any(|v| v.fields.iter().any(|f| f.flatten && self.takes_any(&f.ty))) {
                    d.deny = false;
                }
                // serde ignores unknown fields of internally tagged unit variants regardless
                if matches!(tag, Tag::Internal(_)) && vs.iter().any(|v| v.shape == Shape::Unit) {
                    d.deny = false;
                }
                if s.chance(1, 4) {
                    d.rename_all_fields = Some(case_pair(s));
                }
                Body::Enum(tag, vs)
            }
            2 => Body::Struct(Shape::Newtype, self.fields(s, k, Shape::Newtype, false, false, &mut used, &mut flats, &mut flat_map, false)),
            3 => Body::Struct(Shape::Tuple, self.fields(s, k, Shape::Tuple, false, false, &mut used, &mut flats, &mut flat_map, true)),
            _ => Body::Struct(Shape::Unit, vec![]),
        };
        for p in 0..params {
            let uses = |t: &Ty| uses_param(t, k, p);
            let of = |fs: &Vec<Field>| fs.iter().any(|f| uses(&f.ty));
            match &mut d.body {
                Body::Struct(sh, fs) => {
                    if !of(fs) {
                        if *sh == Shape::Newtype || *sh == Shape::Unit {
                            *sh = Shape::Tuple;
                        }
                        let n = if *sh == Shape::Named { format!("p{p}_{k}") } else { fs.len().to_string() };
                        fs.push(field(&n, Ty::Param(p)));
                    }
                }
                Body::Enum(_, vs) => {
                    if !vs.iter().any(|v| of(&v.fields)) {
                        let at = if vs.last().is_some_and(|v| v.untagged) { vs.len() - 1 } else { vs.len() };
                        let v = Variant { ident: format!("P{p}"), shape: Shape::Named, fields: vec![field(&format!("p{p}_{k}"), Ty::Param(p))], a: Attrs::default(), rename: None, rename_all: None, skip_ser: false, skip_de: false, untagged: false };
                        vs.insert(at, v);
                    }
                }
            }
        }
        let all_default_ok = |b: &Body, me: &TyGen| match b {
            Body::Struct(_, fs) => fs.iter().all(|f| me.attr_default_ok(&f.ty)),
            _ => false,
        };
        let plain = |f: &Field| !f.skip_ser && !f.skip_de && !f.flatten && f.default.is_none() && f.rename.is_none() && f.skip_if.is_none();
        if let Body::Struct(sh, fs) = &d.body {
            if matches!(sh, Shape::Named) {
                d.deny = s.chance(1, 5) && !fs.iter().any(|f| f.flatten && self.takes_any(&f.ty));
                d.default = s.chance(1, 6) && params == 0 && all_default_ok(&d.body, self);
            }
            if fs.len() == 1 && matches!(sh, Shape::Newtype | Shape::Named) && plain(&fs[0]) && !user_has(&fs[0].ty, &mut |t| matches!(t, Ty::User(j, _) if *j >= k)) && s.chance(1, 3) {
                d.transparent = true;
                d.deny = false;
                d.default = false;
            }
        }
        if !d.transparent {
            if matches!(d.body, Body::Struct(Shape::Named, _) | Body::Enum(..)) && s.chance(1, 4) {
                d.rename_all = Some(case_pair(s));
            }
            if s.chance(1, 6) && params == 0 {
                let mut u: BTreeSet<String> = self.defs.iter().filter_map(|d| d.rename.clone()).flat_map(|(a, b)| [a, b]).collect();
                let r = pair(s, CONTAINER_RENAMES, &mut u);
                d.rename = r;
            }
        }
        if self.cfg.inline && s.chance(1, 10) && !d.transparent {
            d.inline = true;
        }
        self.this = None;
        let rec = def_types(&d).collect::<Vec<_>>().into_iter().any(|t| user_has(t, &mut |t| matches!(t, Ty::User(j, _) if *j == k)));
        d.recursive = rec;
        if d.recursive && d.inline {
            d.inline = false;
        }
        if self.cfg.conversions && params == 0 && !d.transparent && !d.recursive && self.previous.is_none() && s.chance(1, 12) {
            if s.bool() {
                // (a missing field would be read from an `Option`; see DESIGN.md, known findings)
                let t = match self.ty(s, 1) {
                    t if self.optish(&t) => Ty::Vec(Box::new(t)),
                    t => t,
                };
                d.from = Some((t, s.bool()));
            }
            if d.from.is_none() || s.bool() {
                d.into = Some(self.ty(s, 1));
            }
            d.default = false;
        }
        self.params = 0;
        self.defs.push(d);
    }

    /// A flattened type that leaves its keys in place or takes any key (unusable under deny_unknown_fields).
    fn takes_any(&self, t: &Ty) -> bool {
        match flat_user(t) {
            None => true,
            Some(j) => {
                let mut r = BTreeSet::new();
                self.flat_reach(j, &mut r);
                self.greedy(j) || r.iter().any(|k| matches!(&self.defs[*k].body, Body::Enum(t, _) if *t != Tag::External))
            }
        }
    }

    pub fn concrete(&self, s: &mut Src, i: usize) -> Ty {
        Ty::User(i, (0..self.defs[i].params).map(|_| if s.chance(1, 3) && i > 0 { Self::prim(s) } else { Ty::P(s.pick(&["u8", "String", "bool", "i64"])) }).collect())
    }
}

pub fn flat_user(t: &Ty) -> Option<usize> {
    match t {
        Ty::User(i, _) => Some(*i),
        Ty::Wrap(_, t) | Ty::Opt(t) => flat_user(t),
        _ => None,
    }
}

pub fn def_types(d: &Def) -> impl Iterator<Item = &Ty> {
    let v: Vec<&Ty> = match &d.body {
        Body::Struct(_, fs) => fs.iter().map(|f| &f.ty).collect(),
        Body::Enum(_, vs) => vs.iter().flat_map(|v| v.fields.iter().map(|f| &f.ty)).collect(),
    };
    v.into_iter()
}
pub fn def_fields(d: &Def) -> Vec<&Field> {
    match &d.body {
        Body::Struct(_, fs) => fs.iter().collect(),
        Body::Enum(_, vs) => vs.iter().flat_map(|v| v.fields.iter()).collect(),
    }
}

pub fn module(s: &mut Src, cfg: &TyCfg) -> Module {
    let n = 1 + s.below(cfg.max_defs);
    let mut g = TyGen::new(cfg);
    for k in 0..n {
        let next = cfg.recursion && k + 1 < n && s.chance(1, 3);
        g.next = next.then_some(k + 1);
        g.def(s);
        g.previous = next.then_some(k);
        g.next = None;
    }
    // types that lead back to themselves by way of others
    for k in 0..n {
        let mut seen = BTreeSet::new();
        let mut todo = vec![k];
        while let Some(j) = todo.pop() {
            let mut at = vec![];
            for t in def_types(&g.defs[j]).chain(g.defs[j].from.iter().map(|x| &x.0)).chain(&g.defs[j].into) {
                user_has(t, &mut |t| {
                    if let Ty::User(i, _) = t {
                        at.push(*i);
                    }
                    false
                });
            }
            todo.extend(at.into_iter().filter(|i| seen.insert(*i)));
        }
        if seen.contains(&k) {
            g.defs[k].recursive = true;
            g.defs[k].inline = false;
        }
    }
    let mut roots: Vec<Ty> = vec![];
    for i in (0..n).rev() {
        if roots.len() < 3 {
            let t = g.concrete(s, i);
            roots.push(t);
        }
    }
    if s.chance(1, 4) {
        let t = roots[0].clone();
        roots.push(match s.below(4) {
            0 => Ty::Opt(Box::new(t)),
            1 => Ty::Vec(Box::new(t)),
            2 => Ty::Tup(vec![t.clone(), t]),
            _ => Ty::Map(Box::new(Ty::P("String")), Box::new(t)),
        });
    }
    Module { defs: g.defs, roots }
}

// ---------------------------------------------------------------- rendering

pub fn lit(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{{{:x}}}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub const PARAMS: [&str; 3] = ["A", "B", "C"];

impl Module {
    /// What a type contains, for the exclusions of the checks.
    pub fn reach(&self, t: &Ty, out: &mut BTreeSet<usize>) {
        user_has(t, &mut |t| {
            if let Ty::User(i, _) = t {
                if out.insert(*i) {
                    let d = &self.defs[*i];
                    def_types(d).for_each(|t| self.reach(t, out));
                    d.from.iter().for_each(|(t, _)| self.reach(t, out));
                    d.into.iter().for_each(|t| self.reach(t, out));
                }
            }
            false
        });
    }
    fn flat_reach(&self, i: usize, out: &mut BTreeSet<usize>) {
        TyGen { cfg: &TyCfg::default(), defs: self.defs.clone(), this: None, next: None, previous: None, flatty: false, params: 0 }.flat_reach(i, out)
    }
    fn greedy(&self, i: usize) -> bool {
        TyGen { cfg: &TyCfg::default(), defs: self.defs.clone(), this: None, next: None, previous: None, flatty: false, params: 0 }.greedy(i)
    }
    fn untagged_map(&self, r: &BTreeSet<usize>) -> bool {
        r.iter().any(|k| matches!(&self.defs[*k].body, Body::Enum(t, vs) if *t == Tag::Untagged || vs.iter().any(|v| v.untagged)))
            && r.iter().any(|k| def_fields(&self.defs[*k]).iter().any(|f| (f.flatten || f.ident == "0") && flat_user(&f.ty).is_none()))
    }
    pub fn optish(&self, t: &Ty) -> bool {
        TyGen { cfg: &TyCfg::default(), defs: self.defs.clone(), this: None, next: None, previous: None, flatty: false, params: 0 }.optish(t)
    }
    /// Flags of a root: where the schema is knowingly looser than serde, or serde than what it documents.
    pub fn flags(&self, t: &Ty) -> (bool, bool, bool, bool) {
        let mut r = BTreeSet::new();
        self.reach(t, &mut r);
        let (mut loose, mut loose_deny, mut flatext, mut adjdeny) = (false, false, false, false);
        // another untagged variant may be taken for one whose values cannot be described (those of a
        // map in a variant that is in turn flattened or tagged internally)
        let untagged = r.iter().any(|k| matches!(&self.defs[*k].body, Body::Enum(t, vs) if *t == Tag::Untagged || vs.iter().any(|v| v.untagged)));
        loose |= untagged
            && r.iter().any(|k| {
                let d = &self.defs[*k];
                let taken = |f: &Field| flat_user(&f.ty).map_or(true, |j| self.greedy(j));
                match &d.body {
                    Body::Struct(..) => false,
                    Body::Enum(t, vs) => vs.iter().any(|v| v.fields.iter().any(|f| (f.flatten || (v.shape == Shape::Newtype && matches!(t, Tag::Internal(_)))) && taken(f))),
                }
            });
        for i in r {
            let d = &self.defs[i];
            if let Body::Enum(tag, vs) = &d.body {
                adjdeny |= matches!(tag, Tag::Adjacent(..)) && d.deny;
                for v in vs {
                    if matches!(tag, Tag::Internal(_)) && !v.untagged && v.shape == Shape::Newtype {
                        if let Some(j) = flat_user(&v.fields[0].ty) {
                            let mut f = BTreeSet::new();
                            self.flat_reach(j, &mut f);
                            loose |= self.untagged_map(&f);
                            for k in f {
                                loose_deny |= self.defs[k].deny;
                                flatext |= matches!(self.defs[k].body, Body::Enum(Tag::External, _));
                            }
                        }
                    }
                }
            }
            // serde gives a flattened map also the properties of what is flattened after it
            let after_map = |fs: &Vec<Field>| {
                let mut flat = fs.iter().filter(|f| f.flatten).map(|f| flat_user(&f.ty).map_or(true, |j| self.greedy(j)));
                flat.by_ref().any(|greedy| greedy) && flat.next().is_some()
            };
            loose |= match &d.body {
                Body::Struct(_, fs) => after_map(fs),
                Body::Enum(_, vs) => vs.iter().any(|v| after_map(&v.fields)),
            };
            for f in def_fields(d) {
                if f.flatten {
                    if let Some(j) = flat_user(&f.ty) {
                        let mut r = BTreeSet::new();
                        self.flat_reach(j, &mut r);
                        flatext |= r.iter().any(|k| matches!(self.defs[*k].body, Body::Enum(Tag::External, _)));
                        loose |= self.untagged_map(&r);
                    }
                }
            }
        }
        (loose, loose_deny, flatext, adjdeny)
    }
    pub fn ty(&self, t: &Ty) -> String {
        match t {
            Ty::P(p) => p.to_string(),
            Ty::Raw(r) => r.clone(),
            Ty::Param(i) => PARAMS[*i].into(),
            Ty::Opt(t) => format!("Option<{}>", self.ty(t)),
            Ty::Vec(t) => format!("Vec<{}>", self.ty(t)),
            Ty::Set(t) => format!("BTreeSet<{}>", self.ty(t)),
            Ty::Map(k, v) => format!("BTreeMap<{}, {}>", self.ty(k), self.ty(v)),
            Ty::Tup(ts) => format!("({},)", ts.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(", ")),
            Ty::Arr(t, n) => format!("[{}; {n}]", self.ty(t)),
            Ty::Wrap("Cow", t) => format!("Cow<'static, {}>", self.ty(t)),
            Ty::Wrap(w, t) => format!("{w}<{}>", self.ty(t)),
            Ty::User(i, a) => {
                let mut o = self.defs[*i].name.clone();
                if !a.is_empty() {
                    write!(o, "<{}>", a.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(", ")).unwrap();
                }
                o
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Flavour {
    /// the types under test
    Main,
    /// Serialize-only copies whose serialized form is what the main types deserialize from
    DeMirror,
}

fn name_attr(key: &str, p: &(String, String), fl: Flavour) -> String {
    if fl == Flavour::DeMirror || p.0 == p.1 {
        format!("{key} = {}", lit(&p.1))
    } else {
        format!("{key}(serialize = {}, deserialize = {})", lit(&p.0), lit(&p.1))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Level {
    Struct,
    Enum,
    Variant,
    Field,
}
/// One item's attributes, by where they may be written.
pub struct Items {
    pub level: Level,
    pub shared: Vec<String>,
    pub own: Vec<String>,
    pub serde: Vec<String>,
    pub raw: Vec<String>,
}
type Speller = Box<dyn FnMut(Items) -> Vec<String>>;
thread_local! {
    static SPELL: std::cell::RefCell<Option<Speller>> = const { std::cell::RefCell::new(None) };
}
/// Renders with another way of writing attributes.
pub fn spelled<T>(sp: Speller, f: impl FnOnce() -> T) -> T {
    SPELL.with(|x| *x.borrow_mut() = Some(sp));
    let r = f();
    SPELL.with(|x| *x.borrow_mut() = None);
    r
}

fn attrs(out: &mut String, ind: &str, level: Level, a: &Attrs, shared: Vec<String>, own: Vec<String>, serde: Vec<String>, fl: Flavour) {
    let mut sh = shared;
    let mut only_serde = serde;
    let mut ow = own;
    if fl == Flavour::Main {
        sh.extend(a.shared.iter().cloned());
        only_serde.extend(a.serde.iter().cloned());
        ow.extend(a.own.iter().cloned());
    }
    let other = SPELL.with(|x| {
        x.borrow_mut().as_mut().map(|f| {
            f(Items { level, shared: sh.clone(), own: ow.clone(), serde: only_serde.clone(), raw: a.raw.clone() })
        })
    });
    if let Some(lines) = other {
        for l in lines {
            writeln!(out, "{ind}{l}").unwrap();
        }
        return;
    }
    if fl == Flavour::Main {
        for r in &a.raw {
            writeln!(out, "{ind}{r}").unwrap();
        }
    }
    sh.extend(only_serde);
    if !sh.is_empty() {
        writeln!(out, "{ind}#[serde({})]", sh.join(", ")).unwrap();
    }
    if !ow.is_empty() && fl == Flavour::Main {
        writeln!(out, "{ind}#[schemars({})]", ow.join(", ")).unwrap();
    }
}

impl Module {
    /// Needs a separate set of types to produce deserializable documents.
    pub fn asymmetric(&self) -> bool {
        let p = |r: &Option<(String, String)>| r.as_ref().is_some_and(|(a, b)| a != b);
        self.defs.iter().any(|d| {
            p(&d.rename_all)
                || p(&d.rename_all_fields)
                || d.from.is_some()
                || d.into.is_some()
                || def_fields(d).iter().any(|f| p(&f.rename) || f.skip_ser != f.skip_de || f.skip_if.is_some())
                || matches!(&d.body, Body::Enum(_, vs) if vs.iter().any(|v| p(&v.rename) || p(&v.rename_all) || v.skip_ser != v.skip_de))
        })
    }

    fn generics(&self, d: &Def, bound: &str) -> (String, String) {
        if d.params == 0 {
            return (String::new(), String::new());
        }
        let ps = &PARAMS[..d.params];
        (format!("<{}>", ps.iter().map(|p| format!("{p}{bound}")).collect::<Vec<_>>().join(", ")), format!("<{}>", ps.join(", ")))
    }

    fn field_attrs(&self, out: &mut String, ind: &str, f: &Field, fl: Flavour, k: usize) {
        let mut sh = vec![];
        let (mut own, mut serde) = (vec![], vec![]);
        if let Some(r) = &f.rename {
            sh.push(name_attr("rename", r, fl));
        }
        if f.flatten {
            sh.push("flatten".into());
        }
        match fl {
            Flavour::Main => {
                match (f.skip_ser, f.skip_de) {
                    (true, true) => sh.push("skip".into()),
                    (true, false) => sh.push("skip_serializing".into()),
                    (false, true) => sh.push("skip_deserializing".into()),
                    _ => {}
                }
                if let Some(p) = &f.skip_if {
                    sh.push(format!("skip_serializing_if = {}", lit(p)));
                }
                match &f.default {
                    Some(None) => sh.push("default".into()),
                    Some(Some(_)) => sh.push(format!("default = {}", lit(&self.default_fn(k, f)))),
                    None => {}
                }
            }
            Flavour::DeMirror => {
                if f.skip_de {
                    sh.push("skip".into());
                }
            }
        }
        if let Some((m, t)) = &f.with {
            serde.push(format!("with = {}", lit(m)));
            own.push(format!("with = {}", lit(t)));
        }
        attrs(out, ind, Level::Field, &f.a, sh, own, serde, fl);
    }

    pub fn default_fn(&self, k: usize, f: &Field) -> String {
        format!("default_{k}_{}_{}", f.ident.trim_start_matches("r#"), crate::run::hash64(&self.ty(&f.ty)) % 1000)
    }

    fn fields_src(&self, out: &mut String, ind: &str, shape: Shape, fs: &[Field], fl: Flavour, k: usize, public: bool) {
        match shape {
            Shape::Unit => {}
            Shape::Named => {
                out.push_str(" {\n");
                for f in fs {
                    self.field_attrs(out, &format!("{ind}    "), f, fl, k);
                    writeln!(out, "{ind}    {}{}: {},", if public { "pub " } else { "" }, f.ident, self.ty(&f.ty)).unwrap();
                }
                write!(out, "{ind}}}").unwrap();
            }
            Shape::Newtype | Shape::Tuple => {
                out.push_str("(\n");
                for f in fs {
                    self.field_attrs(out, &format!("{ind}    "), f, fl, k);
                    writeln!(out, "{ind}    {}{},", if public { "pub " } else { "" }, self.ty(&f.ty)).unwrap();
                }
                write!(out, "{ind})").unwrap();
            }
        }
    }

    fn ctor(&self, shape: Shape, fs: &[Field], expr: &dyn Fn(&Field) -> String) -> String {
        match shape {
            Shape::Unit => String::new(),
            Shape::Named => format!(" {{ {} }}", fs.iter().map(|f| format!("{}: {}", f.ident, expr(f))).collect::<Vec<_>>().join(", ")),
            _ => format!("({})", fs.iter().map(expr).collect::<Vec<_>>().join(", ")),
        }
    }

    pub fn def_src(&self, k: usize, fl: Flavour, derives: &str, gens: bool) -> String {
        let d = &self.defs[k];
        let mut out = String::new();
        writeln!(out, "    #[derive({derives})]").unwrap();
        let mut sh = vec![];
        let mut own = vec![];
        if let Some(r) = &d.rename {
            sh.push(name_attr("rename", r, fl));
        }
        if let Some(r) = &d.rename_all {
            sh.push(name_attr("rename_all", r, fl));
        }
        if let Some(r) = &d.rename_all_fields {
            sh.push(name_attr("rename_all_fields", r, fl));
        }
        if d.deny && fl == Flavour::Main {
            sh.push("deny_unknown_fields".into());
        }
        if d.default && fl == Flavour::Main {
            sh.push("default".into());
        }
        if d.transparent {
            sh.push("transparent".into());
        }
        if d.inline {
            own.push("inline".into());
        }
        match fl {
            Flavour::Main => {
                if let Some((t, tr)) = &d.from {
                    sh.push(format!("{} = {}", if *tr { "try_from" } else { "from" }, lit(&self.ty(t))));
                }
                if let Some(t) = &d.into {
                    sh.push(format!("into = {}", lit(&self.ty(t))));
                }
            }
            Flavour::DeMirror => {
                if let Some((t, _)) = &d.from {
                    sh.push(format!("into = {}", lit(&self.ty(t))));
                }
            }
        }
        if let Body::Enum(t, _) = &d.body {
            match t {
                Tag::External => {}
                Tag::Internal(t) => sh.push(format!("tag = {}", lit(t))),
                Tag::Adjacent(t, c) => sh.extend([format!("tag = {}", lit(t)), format!("content = {}", lit(c))]),
                Tag::Untagged => sh.push("untagged".into()),
            }
        }
        attrs(&mut out, "    ", if matches!(d.body, Body::Enum(..)) { Level::Enum } else { Level::Struct }, &d.a, sh, own, vec![], fl);
        let (g, ga) = self.generics(d, "");
        match &d.body {
            Body::Struct(shape, fs) => {
                write!(out, "    pub struct {}{g}", d.name).unwrap();
                self.fields_src(&mut out, "    ", *shape, fs, fl, k, true);
                if *shape != Shape::Named {
                    out.push(';');
                }
                out.push('\n');
            }
            Body::Enum(_, vs) => {
                writeln!(out, "    pub enum {}{g} {{", d.name).unwrap();
                for v in vs {
                    let mut sh = vec![];
                    if let Some(r) = &v.rename {
                        sh.push(name_attr("rename", r, fl));
                    }
                    if let Some(r) = &v.rename_all {
                        sh.push(name_attr("rename_all", r, fl));
                    }
                    if v.untagged {
                        sh.push("untagged".into());
                    }
                    match (fl, v.skip_ser, v.skip_de) {
                        (_, true, true) | (Flavour::DeMirror, _, true) => sh.push("skip".into()),
                        (Flavour::Main, true, false) => sh.push("skip_serializing".into()),
                        (Flavour::Main, false, true) => sh.push("skip_deserializing".into()),
                        _ => {}
                    }
                    attrs(&mut out, "        ", Level::Variant, &v.a, sh, vec![], vec![], fl);
                    write!(out, "        {}", v.ident).unwrap();
                    self.fields_src(&mut out, "        ", v.shape, &v.fields, fl, k, false);
                    out.push_str(",\n");
                }
                out.push_str("    }\n");
            }
        }
        if !gens {
            return out;
        }
        // value generator and Default
        let (gg, _) = self.generics(d, ": Gen");
        let internal = matches!(&d.body, Body::Enum(Tag::Internal(_), _));
        let gen_field = |f: &Field| -> String {
            if f.flatten || (internal && f.ident == "0") {
                return "vh::lab::flat(s, d)".into();
            }
            if (fl == Flavour::Main && f.skip_ser) || (fl == Flavour::DeMirror && f.skip_de) {
                if user_has(&f.ty, &mut |t| matches!(t, Ty::Param(_))) {
                    "Gen::gen(s, d)".into()
                } else {
                    "Default::default()".into()
                }
            } else {
                "Gen::gen(s, d)".into()
            }
        };
        writeln!(out, "    impl{gg} Gen for {}{ga} {{\n        fn gen(s: &mut Src, d: usize) -> Self {{", d.name).unwrap();
        match &d.body {
            Body::Struct(shape, fs) => writeln!(out, "            {}{}", d.name, self.ctor(*shape, fs, &gen_field)).unwrap(),
            Body::Enum(_, vs) => {
                let ok: Vec<&Variant> = vs.iter().filter(|v| if fl == Flavour::Main { !v.skip_ser } else { !v.skip_de }).collect();
                let ok = if ok.is_empty() { vs.iter().collect() } else { ok };
                writeln!(out, "            match s.below({}) {{", ok.len()).unwrap();
                for (i, v) in ok.iter().enumerate() {
                    let pat = if i + 1 == ok.len() { "_".to_string() } else { i.to_string() };
                    writeln!(out, "                {pat} => {}::{}{},", d.name, v.ident, self.ctor(v.shape, &v.fields, &gen_field)).unwrap();
                }
                writeln!(out, "            }}").unwrap();
            }
        }
        out.push_str("        }\n    }\n");
        let (gd, _) = self.generics(d, ": Default");
        let dflt = |_: &Field| "Default::default()".to_string();
        write!(out, "    impl{gd} Default for {}{ga} {{ fn default() -> Self {{ ", d.name).unwrap();
        if d.params == 0 && d.default && fl == Flavour::Main {
            out.push_str("vh::lab::fixed(7)");
        } else {
            match &d.body {
                Body::Struct(shape, fs) => write!(out, "{}{}", d.name, self.ctor(*shape, fs, &dflt)).unwrap(),
                Body::Enum(_, vs) => write!(out, "{}::{}{}", d.name, vs[0].ident, self.ctor(vs[0].shape, &vs[0].fields, &dflt)).unwrap(),
            }
        }
        out.push_str(" } }\n");
        let conv = |out: &mut String, from: &str, to: &str| {
            writeln!(out, "    impl From<{from}> for {to} {{ fn from(_: {from}) -> Self {{ vh::lab::arbitrary() }} }}").unwrap();
        };
        match fl {
            Flavour::Main => {
                if let Some((t, tr)) = &d.from {
                    if *tr {
                        writeln!(out, "    impl TryFrom<{0}> for {1} {{ type Error = String; fn try_from(_: {0}) -> Result<Self, String> {{ Ok(vh::lab::arbitrary()) }} }}", self.ty(t), d.name).unwrap();
                    } else {
                        conv(&mut out, &self.ty(t), &d.name);
                    }
                }
                if let Some(t) = &d.into {
                    conv(&mut out, &d.name, &self.ty(t));
                }
                for f in def_fields(d) {
                    if let Some(Some(_)) = &f.default {
                        let n = self.default_fn(k, f);
                        if !out.contains(&format!("fn {n}(")) {
                            writeln!(out, "    pub fn {n}() -> {} {{ vh::lab::fixed({}) }}", self.ty(&f.ty), n.len() + 3).unwrap();
                        }
                    }
                }
            }
            Flavour::DeMirror => {
                if let Some((t, _)) = &d.from {
                    conv(&mut out, &d.name, &self.ty(t));
                }
            }
        }
        out
    }

    fn base_derives(&self, k: usize) -> &'static str {
        let d = &self.defs[k];
        let unit = matches!(&d.body, Body::Enum(_, vs) if vs.iter().all(|v| v.shape == Shape::Unit)) && d.params == 0;
        if unit {
            "Clone, PartialEq, Eq, PartialOrd, Ord, "
        } else {
            "Clone, PartialEq, "
        }
    }

    /// Source of a module `name` with the types, and a `mirror` module if needed.
    pub fn source(&self, name: &str) -> String {
        let mut o = format!("pub mod {name} {{\n    use vh::lab::prelude::*;\n");
        for k in 0..self.defs.len() {
            o.push_str(&self.def_src(k, Flavour::Main, &format!("{}Serialize, Deserialize, JsonSchema", self.base_derives(k)), true));
        }
        for (i, r) in self.roots.iter().enumerate() {
            writeln!(o, "    pub type Root{i} = {};", self.ty(r)).unwrap();
        }
        if self.asymmetric() {
            o.push_str("    pub mod mirror {\n    use vh::lab::prelude::*;\n");
            for k in 0..self.defs.len() {
                o.push_str(&self.def_src(k, Flavour::DeMirror, &format!("{}Serialize", self.base_derives(k)), true));
            }
            for (i, r) in self.roots.iter().enumerate() {
                writeln!(o, "    pub type Root{i} = {};", self.ty(r)).unwrap();
            }
            o.push_str("    }\n");
        }
        o.push_str("}\n");
        o
    }
}
