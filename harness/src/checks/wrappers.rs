//! C14: the same type definitions with types swapped for transparently equivalent ones.
use crate::dynty::documents;
use crate::equiv;
use crate::eval::{self, Eval};
use crate::lab::Ctx;
use crate::labrun::{self, Lab, UnitSrc};
use crate::run::*;
use crate::src::Src;
use crate::tyspec::{self, user_has, Body, Flavour, Module, Shape, Tag, Ty, TyCfg};
use schemars::generate::SchemaSettings;
use serde_json::{json, Value};
use std::fmt::Write;

pub fn c14() -> Check {
    Check::new("C14", "a generated type compared, per contract, with the same type after wrappers were put in (distinct by type pair), whose source differs")
}
pub fn run_c14(ck: &mut Check) {
    labrun::campaign(ck, &Lab { name: "c14", units: (260, 900), unit_len: 420, cases: (60, 400), case_len: 160, report_compile_errors: false, generate: &generate });
}

struct W<'a> {
    m: &'a Module,
    /// wrappers whose schemas are only equal in meaning (plain newtypes, NonZero) may be used
    loose: bool,
    changes: usize,
    nonzero: bool,
    newtype: bool,
    names: Vec<String>,
    this: usize,
}

const INTS: [(&str, &str); 10] = [("i8", "I8"), ("i16", "I16"), ("i32", "I32"), ("i64", "I64"), ("isize", "Isize"), ("u8", "U8"), ("u16", "U16"), ("u32", "U32"), ("u64", "U64"), ("usize", "Usize")];

impl W<'_> {
    fn plain(&self, t: &Ty) -> bool {
        !user_has(t, &mut |t| matches!(t, Ty::User(..) | Ty::Param(_)))
    }
    fn note(&mut self, n: &str) {
        self.changes += 1;
        self.names.push(n.to_string());
    }
    /// `flat`: the type is flattened or made part of a tagged object, so only fully transparent wrappers do.
    fn ty(&mut self, t: &Ty, s: &mut Src, flat: bool, key: bool) -> String {
        let inner = self.inner(t, s, flat, key);
        self.wrap(t, inner, s, flat, key)
    }
    fn inner(&mut self, t: &Ty, s: &mut Src, flat: bool, key: bool) -> String {
        match t {
            Ty::P("String") if s.chance(1, 3) => {
                let w = *s.pick(&["Box<str>", "Rc<str>", "Arc<str>", "Cow<'static, str>", "&'static str", "smol_str03::SmolStr", "smol_str02::SmolStr", "arrayvec07::ArrayString<9>"]);
                self.note(w);
                w.into()
            }
            Ty::P("Value") if s.chance(1, 5) => {
                self.note("RawValue");
                "Box<RawValue>".into()
            }
            Ty::P("()") if s.chance(1, 4) => {
                self.note("PhantomData");
                "PhantomData<String>".into()
            }
            Ty::P("bool") if s.chance(1, 4) => {
                self.note("AtomicBool");
                "AtomicBool".into()
            }
            Ty::P(p) => {
                if let Some((_, n)) = INTS.iter().find(|(i, _)| i == p) {
                    if s.chance(1, 5) {
                        self.note("Atomic*");
                        return format!("Atomic{n}");
                    }
                    if self.loose && !key && s.chance(1, 4) {
                        self.note("NonZero*");
                        self.nonzero = true;
                        return format!("NonZero{n}");
                    }
                }
                p.to_string()
            }
            Ty::Opt(x) => {
                if self.plain(x) && s.chance(1, 8) {
                    let i = self.ty(x, s, false, false);
                    let w = *s.pick(&["RcWeak<@>", "SyncWeak<@>"]);
                    self.note(w);
                    return w.replace('@', &i);
                }
                format!("Option<{}>", self.ty(x, s, flat, false))
            }
            Ty::Vec(x) => {
                let i = self.ty(x, s, false, false);
                let w = if self.plain(x) && s.chance(1, 6) {
                    *s.pick(&["smallvec1::SmallVec<[@; 2]>", "&'static [@]", "Cow<'static, [@]>"])
                } else {
                    *s.pick(&["Vec<@>", "Vec<@>", "VecDeque<@>", "LinkedList<@>", "BinaryHeap<@>", "Box<[@]>", "Rc<[@]>", "Arc<[@]>"])
                };
                // (Cow needs a type that can be cloned)
                let (w, i) = if w.starts_with("Cow") { (w, self.m.ty(x)) } else { (w, i) };
                if !w.starts_with("Vec<") {
                    self.note(w);
                }
                w.replace('@', &i)
            }
            Ty::Set(x) => {
                let i = self.ty(x, s, false, false);
                let w = *s.pick(&["BTreeSet<@>", "HashSet<@>", "indexmap2::IndexSet<@>"]);
                if !w.starts_with('B') {
                    self.note(w);
                }
                w.replace('@', &i)
            }
            Ty::Map(k, v) => {
                let (k2, v2) = (self.ty(k, s, false, true), self.ty(v, s, false, false));
                if **k == Ty::P("String") && **v == Ty::P("Value") && s.chance(1, 3) {
                    self.note("serde_json::Map");
                    return "Map<String, Value>".into();
                }
                let w = *s.pick(&["BTreeMap", "HashMap", "indexmap2::IndexMap"]);
                if !w.starts_with('B') {
                    self.note(w);
                }
                format!("{w}<{k2}, {v2}>")
            }
            Ty::Tup(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t, s, false, false)).collect();
                format!("({},)", v.join(", "))
            }
            Ty::Arr(x, n) => format!("[{}; {n}]", self.ty(x, s, false, false)),
            Ty::Wrap(w, x) => format!("{w}<{}>", self.ty(x, s, flat, key)),
            // (polymorphic recursion would be infinite)
            Ty::User(i, _) if *i == self.this => self.m.ty(t),
            Ty::User(i, a) => {
                let a: Vec<String> = a.iter().map(|t| self.ty(t, s, false, false)).collect();
                let n = &self.m.defs[*i].name;
                if a.is_empty() {
                    n.clone()
                } else {
                    format!("{n}<{}>", a.join(", "))
                }
            }
            Ty::Param(_) | Ty::Raw(_) => self.m.ty(t),
        }
    }
    fn wrap(&mut self, t: &Ty, inner: String, s: &mut Src, flat: bool, key: bool) -> String {
        if !s.chance(1, 3) {
            return inner;
        }
        let cloneable = self.plain(t) && inner == self.m.ty(t);
        let param = user_has(t, &mut |t| matches!(t, Ty::Param(_)));
        let mut w = *s.pick(&["Box<@>", "Rc<@>", "Arc<@>", "Mutex<@>", "RwLock<@>", "RefCell<@>", "Cell<@>", "Reverse<@>", "Wrapping<@>", "Cow<'static, @>", "&'static @", "&'static mut @", "TW<@>", "TN<@>", "TP<@>", "PW<@>"]);
        if (w.starts_with("Cow") && !cloneable) || (w.starts_with('&') && param) {
            w = "RefCell<@>";
        }
        if w.starts_with("PW") {
            if !self.loose || flat || key || param || self.m.optish(t) {
                w = "TW<@>";
            } else {
                self.newtype = true;
            }
        }
        self.note(w);
        w.replace('@', &inner)
    }
}

fn variant_module(m: &Module, s: &mut Src, loose: bool) -> (String, Vec<String>, Value) {
    let mut w = W { m, loose, changes: 0, nonzero: false, newtype: false, names: vec![], this: 0 };
    let mut b = m.clone();
    for k in 0..b.defs.len() {
        w.this = k;
        let d = m.defs[k].clone();
        let mut body = d.body.clone();
        let fields: Vec<(&mut tyspec::Field, bool)> = match &mut body {
            Body::Struct(sh, fs) => {
                let newtype = *sh == Shape::Newtype || d.transparent;
                fs.iter_mut().map(|f| { let fl = f.flatten || newtype; (f, fl) }).collect()
            }
            Body::Enum(tag, vs) => {
                let objecty = *tag != Tag::External;
                vs.iter_mut().flat_map(|v| { let nt = v.shape == Shape::Newtype && (objecty || v.untagged); v.fields.iter_mut().map(move |f| { let fl = f.flatten || nt; (f, fl) }) }).collect()
            }
        };
        for (f, flat) in fields {
            let t = f.ty.clone();
            if f.default.is_some() || f.skip_de {
                // the default value needs Default and Serialize
                if s.chance(1, 2) {
                    w.note("Box<@> (defaulted)");
                    f.ty = Ty::Raw(format!("Box<{}>", m.ty(&t)));
                }
                continue;
            }
            let r = w.ty(&t, s, flat, false);
            // `with` in place of the type itself
            if s.chance(1, 7) && !d.transparent && !user_has(&t, &mut |t| matches!(t, Ty::Param(_))) {
                w.note("with");
                f.a.own.push(format!("with = {}", tyspec::lit(&r)));
                f.ty = Ty::Raw("Opaque".into());
            } else {
                f.ty = Ty::Raw(r);
            }
        }
        b.defs[k].body = body;
    }
    w.this = usize::MAX;
    let roots: Vec<String> = m.roots.iter().map(|t| w.ty(t, s, false, false)).collect();
    let mut o = String::new();
    o.push_str("    #[derive(JsonSchema)] #[serde(transparent)] pub struct TW<T>(pub T);\n    #[derive(JsonSchema)] #[schemars(transparent)] pub struct TN<T> { pub inner: T }\n    #[derive(JsonSchema)] #[serde(transparent)] pub struct TP<T> { #[serde(skip)] pub other: u8, pub inner: T }\n    #[derive(JsonSchema)] pub struct PW<T>(pub T);\n    pub struct Opaque;\n");
    for k in 0..b.defs.len() {
        o.push_str(&b.def_src(k, Flavour::Main, "JsonSchema", false));
    }
    for (i, r) in roots.iter().enumerate() {
        writeln!(o, "    pub type Root{i} = {r};").unwrap();
    }
    (o, w.names.clone(), json!({"changes": w.changes, "nonzero": w.nonzero, "newtype": w.newtype, "wrappers": w.names}))
}

const VARIANTS: usize = 2;

fn generate(name: &str, s: &mut Src) -> UnitSrc {
    let cfg = TyCfg { conversions: false, with: false, max_defs: 3, ..TyCfg::default() };
    let mut m = tyspec::module(s, &cfg);
    for d in &mut m.defs {
        d.default = false;
        let user = |t: &Ty| user_has(t, &mut |t| matches!(t, Ty::User(..) | Ty::Param(_)));
        let fix = |f: &mut tyspec::Field| {
            if user(&f.ty) {
                f.default = None;
            }
            if f.default.is_some() {
                f.default = Some(None);
            }
            if f.skip_de && !f.skip_ser && user(&f.ty) {
                f.skip_de = false;
            }
            if f.skip_if.is_some() {
                f.skip_if = Some("vh::lab::empty".into());
            }
        };
        match &mut d.body {
            Body::Struct(_, fs) => fs.iter_mut().for_each(fix),
            Body::Enum(_, vs) => vs.iter_mut().for_each(|v| v.fields.iter_mut().for_each(fix)),
        }
    }
    let head = "    use vh::lab::prelude::*;\n    use vh::ext::prelude::*;\n";
    let mut o = format!("pub mod {name} {{\n    pub mod a {{\n{head}");
    for k in 0..m.defs.len() {
        o.push_str(&m.def_src(k, Flavour::Main, "JsonSchema", false));
    }
    for (i, r) in m.roots.iter().enumerate() {
        writeln!(o, "    pub type Root{i} = {};", m.ty(r)).unwrap();
    }
    o.push_str("    }\n");
    let mut metas = vec![];
    let n = m.roots.len();
    let mut roots: Vec<String> = (0..n).map(|i| format!("vh::lab::Root::new::<{name}::a::Root{i}>(\"Root{i}\")")).collect();
    for v in 0..VARIANTS {
        let loose = s.chance(1, 3);
        let (src, _, meta) = variant_module(&m, s, loose);
        write!(o, "    pub mod b{v} {{\n{head}{src}    }}\n").unwrap();
        metas.push(meta);
        roots.extend((0..n).map(|i| format!("vh::lab::Root::new::<{name}::b{v}::Root{i}>(\"b{v}::Root{i}\")")));
    }
    o.push_str("}\n");
    UnitSrc { source: o, roots, meta: json!({"n": n, "variants": metas}) }
}

fn has_zero(v: &Value) -> bool {
    match v {
        Value::Number(n) => n.as_f64() == Some(0.0),
        Value::Array(a) => a.iter().any(has_zero),
        Value::Object(o) => o.values().any(has_zero),
        _ => false,
    }
}

pub fn check(ctx: &mut Ctx, s: &mut Src, st: &mut Stats) -> CaseResult {
    let n = ctx.meta["n"].as_u64().unwrap() as usize;
    let (i, v, ser) = (s.below(n), s.below(VARIANTS), s.bool());
    let inline = s.chance(1, 4);
    let mut get = |k: usize| {
        let r = ctx.unit.roots[k].clone();
        ctx.cached(&format!("{k} {ser} {inline}"), || {
            let mut set = SchemaSettings::draft2020_12();
            set.inline_subschemas = inline;
            (r.schema)(&if ser { set.for_serialize() } else { set }).to_value()
        })
    };
    let (a, b) = (get(i), get(n * (1 + v) + i));
    let meta = &ctx.meta["variants"][v];
    let who = format!("{} Root{i} ({})", ctx.unit.name, if ser { "serialize" } else { "deserialize" });
    let case = |d: &Value| json!({"plain": *a, "wrapped": *b, "wrappers": meta["wrappers"], "document": d});
    if meta["changes"] != 0 {
        st.nontrivial(&(ctx.unit.name, i, v, ser, inline), || case(&Value::Null));
        for w in meta["wrappers"].as_array().unwrap() {
            st.class(&format!("modules with {}", w.as_str().unwrap()));
        }
    }
    if meta["nonzero"] != true && meta["newtype"] != true {
        if let Err(e) = equiv::same(&a, &b, true) {
            return fail("schema-differs", format!("{who}: the schema differs once types are wrapped transparently: {e}"), case(&Value::Null));
        }
        return Ok(());
    }
    let mode = eval::mode_of(&a);
    let aim = if s.bool() { &a } else { &b };
    for d in documents(s, aim, 4) {
        if meta["nonzero"] == true && has_zero(&d) {
            continue;
        }
        let (x, y) = (Eval::new(&a, mode).valid(&d), Eval::new(&b, mode).valid(&d));
        st.class(if x { "document accepted" } else { "document rejected" });
        if x != y && eval::confirmed(&a, &d, x) && eval::confirmed(&b, &d, y) {
            return fail("meaning-differs", format!("{who}: the document {d} is {} by the plain type's schema only", if x { "accepted" } else { "rejected" }), case(&d));
        }
    }
    Ok(())
}
