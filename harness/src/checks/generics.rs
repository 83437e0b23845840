//! C21: generic types in hostile surroundings, against hand-monomorphised copies of the same types.
use crate::equiv;
use crate::lab::Ctx;
use crate::labrun::{self, Lab, UnitSrc};
use crate::run::*;
use crate::src::Src;
use crate::tyspec::lit;
use schemars::generate::SchemaSettings;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fmt::Write;

pub fn c21() -> Check {
    Check::new("C21", "a set of instances put through one generator in some order, where some definition is generic and two instances are of one definition")
}
pub fn run_c21(ck: &mut Check) {
    labrun::campaign(ck, &Lab { name: "c21", units: (1400, 4000), unit_len: 420, cases: (12, 40), case_len: 24, report_compile_errors: true, generate: &generate });
}

/// What the schema needs of a type parameter.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Role {
    /// its schema
    Needed,
    /// nothing
    Unneeded,
    /// a function named with it in `schema_with`
    Function,
    /// only an associated type's schema, with explicit bounds
    Assoc,
}
#[derive(Clone, Debug)]
struct Param {
    name: String,
    role: Role,
    unsized_ok: bool,
    /// inline bounds
    bounds: Vec<String>,
}
#[derive(Clone, Debug)]
struct Const {
    name: String,
    ty: &'static str,
}

/// Names that items of the surroundings may shadow, without the ones that a definition uses.
const HOSTILE: [&str; 46] = [
    "pub struct Option;", "pub struct Vec;", "pub struct String;", "pub struct Box;", "pub enum Result {}", "pub struct Some;", "pub struct None;", "pub struct Ok;", "pub struct Err;", "pub trait Into {}",
    "pub trait From {}", "pub trait Default {}", "pub trait Clone {}", "pub trait ToString {}", "pub trait ToOwned {}", "pub trait Iterator {}", "pub trait IntoIterator {}", "pub trait FromIterator {}", "pub trait Extend {}",
    "pub trait AsRef {}", "pub trait Fn {}", "pub trait FnOnce {}", "pub mod core {}", "pub mod std {}", "pub mod alloc {}", "pub mod serde {}", "pub mod serde_json {}", "pub trait JsonSchema {}", "pub struct SchemaGenerator;", "pub struct Schema;",
    "pub struct Value;", "pub struct Map;", "pub struct Cow;", "pub mod generate {} pub mod transform {} pub mod _private {}", "macro_rules! vec { ($($t:tt)*) => { compile_error!(\"vec\") } }", "macro_rules! format { ($($t:tt)*) => { compile_error!(\"format\") } }",
    "macro_rules! concat { ($($t:tt)*) => { compile_error!(\"concat\") } }", "macro_rules! json { ($($t:tt)*) => { compile_error!(\"json\") } }", "macro_rules! json_schema { ($($t:tt)*) => { compile_error!(\"json_schema\") } }",
    "macro_rules! stringify { ($($t:tt)*) => { compile_error!(\"stringify\") } }", "macro_rules! module_path { ($($t:tt)*) => { compile_error!(\"module_path\") } }",
    "macro_rules! line { ($($t:tt)*) => { compile_error!(\"line\") } }", "macro_rules! column { ($($t:tt)*) => { compile_error!(\"column\") } }",
    "pub fn generator() {} pub fn schema() {} pub fn map() {} pub fn struct_default() {} pub fn enum_values() {} pub fn default() {} pub fn drop() {}",
    "pub mod generator {} pub mod schema {} pub mod schemas {}", "pub type Self_ = (); pub trait Serialize {} pub trait Serializer {} pub trait Transform {} pub struct MaybeSerializeWrapper; pub struct MaybeJsonSchemaWrapper; pub trait NoJsonSchema {} pub trait NoSerialize {}",
];
const TYPE_NAMES: [&str; 16] = ["T", "U", "V", "S", "D", "E", "C", "Item", "Error", "Ok_", "Schema", "JsonSchema", "Option", "Vec", "r#type", "__D"];
const CONST_NAMES: [&str; 6] = ["N", "M", "LEN", "X", "R", "r#const"];
/// type arguments with a schema: source, default-able and sized (all but str)
const ARGS: [&str; 12] = [
    "u8", "::std::string::String", "bool", "::std::vec::Vec<u8>", "::std::option::Option<i32>", "(u8, ::std::string::String)", "()", "[u16; 2]", "::std::boxed::Box<i64>", "::std::collections::BTreeMap<::std::string::String, u8>",
    "::vh::checks::generics::Marked", "::vh::checks::generics::twin::Marked",
];
const CHARS: [char; 10] = ['a', 'b', ',', ' ', '{', '}', '<', '>', '"', 'é'];

/// Argument types with a schema, usable for any role.
#[derive(Clone, Default, serde::Serialize, serde::Deserialize, schemars::JsonSchema)]
pub struct Marked {
    pub a: u8,
}
pub mod twin {
    #[derive(Clone, Default, serde::Serialize, serde::Deserialize, schemars::JsonSchema)]
    pub struct Marked {
        pub b: String,
    }
}
/// Argument types without a schema.
#[derive(Clone, Default, serde::Serialize)]
pub struct Bare;
#[derive(Clone, Default, serde::Serialize)]
pub struct Bare2;
/// Implements nothing at all.
pub struct Nothing;
/// A schema by constant; an associated type with a schema.
pub trait Tagged {
    const TAG: u8;
    type Item: Default;
}
impl Tagged for Bare {
    const TAG: u8 = 1;
    type Item = String;
}
impl Tagged for Bare2 {
    const TAG: u8 = 2;
    type Item = Vec<u8>;
}
pub fn by_tag<T: Tagged + ?Sized>(_: &mut schemars::SchemaGenerator) -> schemars::Schema {
    schemars::json_schema!({"const": T::TAG})
}
pub mod tags {
    pub fn of<T: super::Tagged + ?Sized>(_: &mut schemars::SchemaGenerator) -> schemars::Schema {
        schemars::json_schema!({"type": "integer", "minimum": T::TAG})
    }
}
pub fn fixed_schema(_: &mut schemars::SchemaGenerator) -> schemars::Schema {
    schemars::json_schema!({"type": "string", "format": "fixed"})
}
pub fn write_as_text<T, S: serde::Serializer>(_: &T, s: S) -> Result<S::Ok, S::Error> {
    s.serialize_str("as text")
}
pub fn never<T>(_: &T) -> bool {
    false
}
pub fn make<T: Default>() -> T {
    T::default()
}

#[derive(Clone, Debug)]
struct FieldDef {
    attrs: Vec<String>,
    ident: String,
    ty: String,
}
#[derive(Clone, Debug)]
struct Family {
    ident: String,
    lifetimes: Vec<String>,
    params: Vec<Param>,
    consts: Vec<Const>,
    cont_attrs: Vec<String>,
    /// pieces of the rename attribute's format string
    rename: Option<Vec<Piece>>,
    where_: Vec<String>,
    derive_default: bool,
    body: Body,
    /// the type is transparent over this type
    transparent: Option<String>,
    raw: bool,
    /// written by a macro that is given the types of the fields
    by_macro: bool,
}
#[derive(Clone, Debug)]
enum Body {
    Struct(Vec<FieldDef>),
    Tuple(Vec<FieldDef>),
    /// attributes, name, fields, named
    Enum(Vec<(Vec<String>, String, Vec<FieldDef>, bool)>),
}
#[derive(Clone, Debug)]
enum Piece {
    Text(String),
    Param(String),
}

/// `@Name@` stands for a parameter in generated text.
fn put(t: &str, map: &BTreeMap<String, String>) -> String {
    let mut o = String::new();
    let mut parts = t.split('@');
    o.push_str(parts.next().unwrap());
    while let Some(name) = parts.next() {
        match map.get(name) {
            Some(v) => o.push_str(v),
            None => panic!("no parameter {name} for {t}"),
        }
        o.push_str(parts.next().unwrap_or(""));
    }
    o
}

fn needed_type(p: &str, s: &mut Src, lts: &[String], unsized_ok: bool) -> String {
    if unsized_ok {
        return format!("::std::{}<@{p}@>", s.pick(&["boxed::Box", "rc::Rc", "sync::Arc"]));
    }
    match s.below(14) {
        0..=2 => format!("@{p}@"),
        3 => format!("::std::vec::Vec<@{p}@>"),
        4 => format!("::std::option::Option<@{p}@>"),
        5 => format!("::std::boxed::Box<@{p}@>"),
        6 => format!("(u8, @{p}@)"),
        7 => format!("[@{p}@; 2]"),
        8 => format!("::std::collections::BTreeMap<::std::string::String, @{p}@>"),
        9 if !lts.is_empty() => format!("&{} @{p}@", lts[0]),
        10 => format!("::std::option::Option<::std::boxed::Box<(@{p}@, ::std::vec::Vec<@{p}@>)>>"),
        11 => format!("::std::result::Result<@{p}@, ::std::string::String>"),
        12 => format!("((@{p}@))"),
        _ => format!("::vh::checks::generics::Other<@{p}@>"),
    }
}

#[derive(Default, serde::Serialize, schemars::JsonSchema)]
pub struct Other<T> {
    pub other: Option<T>,
}

fn field(fam_lts: &[String], p: &Param, i: usize, s: &mut Src, named: bool, defaults: bool, ser: bool, k_explicit: bool) -> FieldDef {
    let n = &p.name;
    let mut attrs: Vec<String> = vec![];
    let ident = if s.chance(1, 12) { ["r#fn", "schema", "generator", "map", "r#struct", "struct_default", "value"][s.below(7)].to_string() } else { format!("f{i}") };
    let ident = if ident.starts_with('f') { ident } else { format!("{}{}", ident, if s.bool() || ident == "schema" || ident == "map" { format!("{i}") } else { format!("_{i}") }) };
    let phantom = format!("::std::marker::PhantomData<@{n}@>");
    let ty = match p.role {
        Role::Needed => match s.below(9) {
            0 if named && !p.unsized_ok => {
                attrs.push(format!("#[schemars(with = \"::std::vec::Vec<@{n}@>\")]"));
                phantom
            }
            1 if !p.unsized_ok && !k_explicit => {
                attrs.push(format!("#[schemars(bound = \"@{n}@: ::schemars::JsonSchema\")]"));
                format!("@{n}@")
            }
            2 if named => {
                let t = needed_type(n, s, fam_lts, p.unsized_ok);
                let (ser, de) = (["#[serde(skip_serializing)]", "#[schemars(skip_serializing)]"], ["#[serde(skip_deserializing)]", "#[schemars(skip_deserializing)]"]);
                // (a field that is not deserialized has a default)
                let defaultable = !t.starts_with('&') && !t.contains("Result<") && !p.unsized_ok && (defaults || t.contains("Option<") || t.contains("Vec<") || t.contains("Map<"));
                let which = if defaultable && s.bool() { de } else { ser };
                attrs.push((*s.pick(&which)).into());
                t
            }
            _ => {
                let t = needed_type(n, s, fam_lts, p.unsized_ok);
                // arguments may all be default-able
                if defaults && named && !t.starts_with('&') && !t.contains("Result<") && !p.unsized_ok {
                    match s.below(9) {
                        0..=2 => attrs.push("#[serde(default)]".into()),
                        3 => attrs.push("#[serde(default = \"::std::default::Default::default\")]".into()),
                        4 => attrs.push("#[serde(default, skip_serializing_if = \"::vh::checks::generics::never\")]".into()),
                        5 => attrs.push("#[serde(default, serialize_with = \"::vh::checks::generics::write_as_text\")]".into()),
                        6 => attrs.push("#[serde(default = \"::vh::checks::generics::make\", serialize_with = \"::vh::checks::generics::write_as_text\", skip_serializing_if = \"::vh::checks::generics::never\")]".into()),
                        _ => {}
                    }
                    // ("Default" must be known for the ones made by function)
                    if attrs.iter().any(|a| a.contains("default = ")) && !p.bounds.iter().any(|b| b.contains("Default")) {
                        attrs.clear();
                    }
                }
                t
            }
        },
        Role::Unneeded => match s.below(8) {
            0..=2 => phantom,
            3 if !p.unsized_ok => {
                attrs.push("#[schemars(skip)]".into());
                format!("@{n}@")
            }
            4 => {
                attrs.push("#[schemars(with = \"u8\")]".into());
                format!("::std::boxed::Box<@{n}@>")
            }
            5 => {
                attrs.push("#[schemars(schema_with = \"::vh::checks::generics::fixed_schema\")]".into());
                format!("::std::boxed::Box<@{n}@>")
            }
            6 => {
                attrs.push("#[serde(skip_serializing, skip_deserializing)]".into());
                format!("::std::option::Option<::std::boxed::Box<@{n}@>>")
            }
            7 => {
                attrs.push("#[schemars(skip)]".into());
                format!("fn(&@{n}@) -> ::std::boxed::Box<@{n}@>")
            }
            _ => phantom,
        },
        Role::Function => {
            attrs.push(format!("#[schemars(schema_with = \"{}::<@{n}@>\")]", s.pick(&["::vh::checks::generics::by_tag", "::vh::checks::generics::tags::of"])));
            if s.bool() { phantom } else { format!("::std::boxed::Box<@{n}@>") }
        }
        Role::Assoc => {
            let a = format!("<@{n}@ as ::vh::checks::generics::Tagged>::Item");
            if !k_explicit {
                attrs.push(format!("#[schemars(bound = \"{a}: ::schemars::JsonSchema\")]"));
            }
            if s.bool() { a } else { format!("::std::vec::Vec<{a}>") }
        }
    };
    let _ = ser;
    FieldDef { attrs, ident, ty }
}

fn family(ident: String, s: &mut Src) -> Family {
    let raw = ident.starts_with("r#");
    let lifetimes: Vec<String> = ["'a", "'b"][..s.below(3)].iter().map(|x| x.to_string()).collect();
    let ntypes = s.below(4);
    let nconsts = if s.chance(1, 3) { 1 + s.below(2) } else { 0 };
    let explicit = s.chance(1, 8);
    let serialize = s.chance(1, 3);
    let mut names: Vec<&str> = TYPE_NAMES.to_vec();
    let mut params = vec![];
    for k in 0..ntypes {
        let name = if s.chance(3, 4) { ["T", "U", "V"][k] } else { names[s.below(names.len())] };
        if params.iter().any(|p: &Param| p.name == name) {
            continue;
        }
        names.retain(|x| *x != name);
        let role = *s.pick(&[Role::Needed, Role::Needed, Role::Needed, Role::Needed, Role::Unneeded, Role::Unneeded, Role::Function, Role::Assoc]);
        let unsized_ok = role == Role::Needed && s.chance(1, 10);
        let mut bounds: Vec<String> = vec![];
        if unsized_ok {
            bounds.push("?::std::marker::Sized".into());
        }
        if matches!(role, Role::Function | Role::Assoc) {
            bounds.push("::vh::checks::generics::Tagged".into());
        }
        if serialize && !unsized_ok {
            bounds.push("::serde::Serialize".into());
        }
        if s.chance(1, 5) && !unsized_ok {
            bounds.push("::std::default::Default".into());
        }
        if s.chance(1, 6) && !unsized_ok {
            bounds.push("::std::clone::Clone".into());
        }
        if !lifetimes.is_empty() {
            bounds.push(lifetimes[0].clone());
        }
        params.push(Param { name: name.to_string(), role, unsized_ok, bounds });
    }
    let mut consts = vec![];
    for k in 0..nconsts {
        consts.push(Const { name: CONST_NAMES[(s.below(3) * 2 + k) % 6].to_string(), ty: *s.pick(&["usize", "usize", "char", "bool", "i32", "u8"]) });
    }
    let mut used = vec![];
    consts.retain(|c| {
        let new = !used.contains(&c.name);
        used.push(c.name.clone());
        new
    });
    let mut cont_attrs = vec![];
    let mut where_ = vec![];
    if s.chance(1, 6) {
        if let Some(p) = params.iter().find(|p| !p.unsized_ok) {
            where_.push(match s.below(2) {
                0 => format!("::std::vec::Vec<@{}@>: ::std::marker::Sized", p.name),
                _ => format!("for<'z> &'z @{}@: ::std::marker::Sized", p.name),
            });
        }
    }
    // fields
    let mut defaults = s.bool();
    let shape = s.below(8);
    let transparent = shape == 7 && params.iter().any(|p| p.role == Role::Needed && !p.unsized_ok);
    let container_default = shape < 4 && !transparent && defaults && s.chance(1, 4) && lifetimes.is_empty() && !params.iter().any(|p| p.unsized_ok);
    if container_default || explicit {
        defaults = false;
    }
    let mut fields: Vec<FieldDef> = vec![];
    let mut variant_skips = vec![];
    for (i, p) in params.iter().enumerate() {
        fields.push(field(&lifetimes, p, i, s, shape < 4, defaults, serialize, explicit));
        if s.chance(1, 4) {
            let mut f = field(&lifetimes, p, 20 + i, s, shape < 4, defaults, serialize, explicit);
            // (a second use that needs no more than the first)
            if container_default {
                f.attrs.retain(|a| !a.contains("default"));
            }
            fields.push(f);
        }
    }
    // every lifetime is used
    for (i, l) in lifetimes.iter().enumerate() {
        let (ty, attrs) = match s.below(4) {
            0 => (format!("::std::marker::PhantomData<&{l} u8>"), vec![]),
            1 => (format!("&{l} str"), vec![]),
            2 => (format!("::std::borrow::Cow<{l}, str>"), if shape < 4 && defaults { vec!["#[serde(default, serialize_with = \"::vh::checks::generics::write_as_text\")]".to_string()] } else { vec![] }),
            _ => (format!("&{l} [u8]"), vec![]),
        };
        fields.push(FieldDef { attrs, ident: format!("l{i}"), ty });
    }
    for c in &consts {
        if c.ty == "usize" && s.bool() && shape < 4 {
            fields.push(FieldDef { attrs: vec![format!("#[schemars(range(max = @{}@))]", c.name)], ident: format!("c{}", c.name.trim_start_matches("r#").to_lowercase()), ty: "usize".into() });
        }
    }
    if s.bool() || fields.is_empty() {
        fields.push(FieldDef { attrs: vec![], ident: "plain".into(), ty: "u8".into() });
    }
    for (i, f) in fields.iter().enumerate().collect::<Vec<_>>() {
        let _ = (i, f);
    }
    let mut derive_default = false;
    if container_default {
        // Default is derived, so all fields need it
        for f in &mut fields {
            if f.ty.contains("Result<") {
                f.ty = f.ty.replace("::std::result::Result<", "::std::collections::BTreeMap<::std::string::String, (").replace(", ::std::string::String>", ",)>");
            } else if f.ty.contains("fn(") {
                let p = params.iter().find(|p| f.ty.contains(&format!("@{}@", p.name))).map(|p| p.name.clone());
                f.ty = p.map_or("u8".into(), |p| format!("::std::marker::PhantomData<@{p}@>"));
                f.attrs.retain(|a| !a.contains("with ="));
            }
        }
        derive_default = true;
        cont_attrs.push("#[serde(default)]".to_string());
    }
    if s.chance(1, 6) && shape < 4 {
        cont_attrs.push("#[serde(rename_all = \"camelCase\")]".into());
    }
    if s.chance(1, 8) {
        cont_attrs.push("#[schemars(description = \"a {description}\")]".into());
    }
    if s.chance(1, 6) {
        cont_attrs.push("/// A heading {T}".into());
    }
    let mut body;
    let mut trans = None;
    if transparent {
        let p = params.iter().find(|p| p.role == Role::Needed && !p.unsized_ok).unwrap();
        let t = needed_type(&p.name, s, &lifetimes, false);
        let mut fs = vec![FieldDef { attrs: vec![], ident: "inner".into(), ty: t.clone() }];
        for (i, q) in params.iter().enumerate() {
            if q.name != p.name {
                fs.push(FieldDef { attrs: vec!["#[serde(skip)]".into()], ident: format!("f{i}"), ty: format!("::std::marker::PhantomData<@{}@>", q.name) });
            }
        }
        for (i, l) in lifetimes.iter().enumerate() {
            fs.push(FieldDef { attrs: vec!["#[serde(skip)]".into()], ident: format!("l{i}"), ty: format!("::std::marker::PhantomData<&{l} u8>") });
        }
        cont_attrs = vec!["#[serde(transparent)]".to_string()];
        trans = Some(t);
        let keep = p.name.clone();
        for q in &mut params {
            if q.name != keep {
                q.role = Role::Unneeded;
                q.bounds.retain(|b| !b.contains("Tagged"));
            }
        }
        derive_default = false;
        body = Body::Struct(fs);
    } else if shape < 4 {
        body = Body::Struct(fields);
    } else if shape == 4 {
        for f in &mut fields {
            f.attrs.retain(|a| !a.contains("default"));
        }
        // (serde does not skip the field of a newtype)
        if fields.len() == 1 && fields[0].attrs.iter().any(|a| a.contains("skip")) {
            fields.push(FieldDef { attrs: vec![], ident: "plain".into(), ty: "u8".into() });
        }
        body = Body::Tuple(fields);
    } else {
        let tag = s.below(4);
        match tag {
            1 => cont_attrs.push("#[serde(tag = \"t\")]".into()),
            2 => cont_attrs.push("#[serde(tag = \"t\", content = \"c\")]".into()),
            3 => cont_attrs.push("#[serde(untagged)]".into()),
            _ => {}
        }
        let mut vs: Vec<(Vec<String>, String, Vec<FieldDef>, bool)> = vec![];
        let mut i = 0;
        let mut rest = fields;
        while !rest.is_empty() {
            let n = (1 + s.below(2)).min(rest.len());
            let mut fs: Vec<FieldDef> = rest.drain(..n).collect();
            let named = tag == 1 || s.bool();
            for f in &mut fs {
                if !named {
                    f.attrs.retain(|a| !a.contains("default"));
                }
            }
            if !named && fs.len() == 1 && fs[0].attrs.iter().any(|a| a.contains("skip")) {
                fs.push(FieldDef { attrs: vec![], ident: "x".into(), ty: "u8".into() });
            }
            vs.push((vec![], format!("V{i}"), fs, named));
            i += 1;
        }
        if s.bool() {
            vs.push((vec![], if s.bool() { "Some".into() } else { "r#Self_".to_string().replace("r#", "") }, vec![], true));
        }
        // variants whose own fields do not matter
        for p in &params {
            if s.chance(1, 3) && p.role == Role::Unneeded {
                let (a, t) = match s.below(3) {
                    0 => ("#[schemars(skip)]".to_string(), format!("::std::boxed::Box<@{}@>", p.name)),
                    1 => ("#[schemars(with = \"u8\")]".to_string(), format!("::std::boxed::Box<@{}@>", p.name)),
                    _ => ("#[schemars(schema_with = \"::vh::checks::generics::fixed_schema\")]".to_string(), format!("::std::boxed::Box<@{}@>", p.name)),
                };
                if tag != 1 || a.contains("skip") {
                    variant_skips.push((vec![a], format!("W{}", variant_skips.len()), vec![FieldDef { attrs: vec![], ident: "w".into(), ty: t }], s.bool()));
                }
            }
            if s.chance(1, 6) && p.role == Role::Needed && !p.unsized_ok && tag != 1 {
                variant_skips.push((vec![format!("#[schemars(with = \"::std::vec::Vec<@{}@>\")]", p.name)], format!("W{}", variant_skips.len()), vec![FieldDef { attrs: vec![], ident: "w".into(), ty: format!("::std::marker::PhantomData<@{}@>", p.name) }], s.bool()));
            }
        }
        vs.extend(variant_skips);
        body = Body::Enum(vs);
    }
    // conversions and `with` of the container
    if !transparent && !container_default && s.chance(1, 7) {
        let needed: Vec<String> = params.iter().filter(|p| p.role == Role::Needed && !p.unsized_ok).map(|p| p.name.clone()).collect();
        let others: Vec<String> = params.iter().filter(|p| p.role != Role::Needed || p.unsized_ok).map(|p| p.name.clone()).collect();
        if others.iter().all(|o| params.iter().any(|p| p.name == *o && p.role == Role::Unneeded)) {
            let fs: Vec<FieldDef> = params
                .iter()
                .enumerate()
                .map(|(i, p)| {
                    // (what fields say is of no effect here)
                    let a = ["", "", "#[serde(default)]", "#[serde(skip)]", "#[serde(default, rename = \"other\")]"][s.below(5)];
                    let attrs = if a.is_empty() { vec![] } else { vec![a.to_string()] };
                    FieldDef { attrs, ident: format!("f{i}"), ty: format!("::std::boxed::Box<@{}@>", p.name) }
                })
                .chain(lifetimes.iter().enumerate().map(|(i, l)| FieldDef { attrs: vec![], ident: format!("l{i}"), ty: format!("&{l} u8") }))
                .collect();
            let t = match needed.len() {
                0 => "u8".to_string(),
                1 => format!("::std::vec::Vec<@{}@>", needed[0]),
                _ => format!("({})", needed.iter().map(|n| format!("@{n}@")).collect::<Vec<_>>().join(", ")),
            };
            cont_attrs.retain(|a| a.starts_with("/") || a.contains("description"));
            match s.below(3) {
                0 => cont_attrs.push(format!("#[schemars(with = {})]", lit(&t))),
                1 => cont_attrs.push(format!("#[serde(from = {}, into = {})]", lit(&t), lit(&t))),
                _ => cont_attrs.push(format!("#[serde(try_from = {}, into = \"u8\")]", lit(&t))),
            }
            if cont_attrs.len() == 1 && cont_attrs[0].contains("with") {
                trans = Some(t);
            }
            body = Body::Struct(fs);
        }
    }
    let mut rename = None;
    if s.chance(1, 3) && trans.is_none() {
        let mut ps = vec![];
        for _ in 0..1 + s.below(4) {
            let all: Vec<&String> = params.iter().filter(|p| p.role == Role::Needed || (p.role == Role::Unneeded && s.chance(1, 4))).map(|p| &p.name).chain(consts.iter().map(|c| &c.name)).collect();
            if s.bool() && !all.is_empty() {
                ps.push(Piece::Param((*s.pick(&all)).clone()));
            } else {
                ps.push(Piece::Text((*s.pick(&["Name", "of_", "{{", "}}", "é", "<", "a b", "Same"])).into()));
            }
        }
        if !ps.iter().any(|p| matches!(p, Piece::Text(_))) {
            ps.push(Piece::Text("Name".into()));
        }
        for p in &mut params {
            if ps.iter().any(|x| matches!(x, Piece::Param(n) if *n == p.name)) {
                p.role = Role::Needed;
            }
        }
        rename = Some(ps);
    }
    if explicit {
        let b: Vec<String> = params
            .iter()
            .filter_map(|p| match p.role {
                Role::Needed => Some(format!("@{}@: ::schemars::JsonSchema", p.name)),
                Role::Assoc => Some(format!("<@{}@ as ::vh::checks::generics::Tagged>::Item: ::schemars::JsonSchema", p.name)),
                _ => None,
            })
            .collect();
        if trans.is_none() || !b.is_empty() {
            let mut b = b;
            if container_default {
                let a: Vec<String> = params.iter().map(|p| format!("@{}@", p.name)).chain(consts.iter().map(|c| format!("@{}@", c.name))).collect();
                let a = if a.is_empty() { String::new() } else { format!("<{}>", a.join(", ")) };
                b.push(format!("{ident}{a}: ::std::default::Default"));
            }
            cont_attrs.push(format!("#[schemars(bound = {})]", lit(&b.join(", "))));
        }
    }
    Family { ident, lifetimes, params, consts, cont_attrs, rename, where_, derive_default, body, transparent: trans, raw, by_macro: s.chance(1, 6) }
}

impl Family {
    fn map(&self, types: &[String], consts: &[String]) -> BTreeMap<String, String> {
        self.params.iter().map(|p| p.name.clone()).zip(types.iter().cloned()).chain(self.consts.iter().map(|c| c.name.clone()).zip(consts.iter().cloned())).collect()
    }
    fn generic_map(&self) -> BTreeMap<String, String> {
        self.map(&self.params.iter().map(|p| p.name.clone()).collect::<Vec<_>>(), &self.consts.iter().map(|c| c.name.clone()).collect::<Vec<_>>())
    }
    fn given_name(&self) -> String {
        match &self.rename {
            Some(ps) => ps
                .iter()
                .map(|p| match p {
                    Piece::Text(t) => t.clone(),
                    Piece::Param(n) => format!("{{{n}}}"),
                })
                .collect(),
            None => self.ident.trim_start_matches("r#").to_string(),
        }
    }
    /// The definition; `mono` gives a rename and leaves the parameters out.
    fn source(&self, map: &BTreeMap<String, String>, mono: bool, head: &str) -> String {
        let mut o = String::new();
        writeln!(o, "#[derive(::schemars::JsonSchema{})]", if self.derive_default { ", ::std::default::Default" } else { "" }).unwrap();
        if !head.is_empty() {
            writeln!(o, "{head}").unwrap();
        }
        for a in &self.cont_attrs {
            if mono && a.contains("bound =") {
                continue;
            }
            writeln!(o, "{}", put(a, map)).unwrap();
        }
        if let Some(ps) = &self.rename {
            if !mono {
                let t: String = ps.iter().map(|p| match p { Piece::Text(t) => t.clone(), Piece::Param(n) => format!("{{{}}}", n.trim_start_matches("r#")) }).collect();
                writeln!(o, "#[schemars(rename = {})]", lit(&t)).unwrap();
            }
        }
        let generics = if mono {
            if self.lifetimes.is_empty() { String::new() } else { format!("<{}>", self.lifetimes.join(", ")) }
        } else {
            let mut g: Vec<String> = self.lifetimes.clone();
            for p in &self.params {
                g.push(if p.bounds.is_empty() { p.name.clone() } else { format!("{}: {}", p.name, p.bounds.join(" + ")) });
            }
            for c in &self.consts {
                g.push(format!("const {}: {}", c.name, c.ty));
            }
            if g.is_empty() { String::new() } else { format!("<{}>", g.join(", ")) }
        };
        let w = if self.where_.is_empty() || mono { String::new() } else { format!(" where {}", self.where_.iter().map(|w| put(w, map)).collect::<Vec<_>>().join(", ")) };
        let captured = std::cell::RefCell::new(vec![]);
        let f = |f: &FieldDef, named: bool| -> String {
            let mut o = String::new();
            for a in &f.attrs {
                if !(mono && a.contains("bound =")) {
                    o.push_str(&put(a, map));
                    o.push(' ');
                }
            }
            if named {
                write!(o, "{}: ", f.ident).unwrap();
            }
            let ty = put(&f.ty, map);
            if self.by_macro && !mono {
                let mut c = captured.borrow_mut();
                c.push(ty);
                return o + &format!("$t{}", c.len());
            }
            o + &ty
        };
        match &self.body {
            Body::Struct(fs) => write!(o, "pub struct {}{generics}{w} {{ {} }}", self.ident, fs.iter().map(|x| f(x, true)).collect::<Vec<_>>().join(", ")).unwrap(),
            Body::Tuple(fs) => write!(o, "pub struct {}{generics}({}){w};", self.ident, fs.iter().map(|x| f(x, false)).collect::<Vec<_>>().join(", ")).unwrap(),
            Body::Enum(vs) => {
                write!(o, "pub enum {}{generics}{w} {{ ", self.ident).unwrap();
                for (attrs, n, fs, named) in vs {
                    for a in attrs {
                        o.push_str(&put(a, map));
                        o.push(' ');
                    }
                    o.push_str(n);
                    if !fs.is_empty() {
                        let l = fs.iter().map(|x| f(x, *named)).collect::<Vec<_>>().join(", ");
                        if *named { write!(o, " {{ {l} }}").unwrap() } else { write!(o, "({l})").unwrap() }
                    }
                    o.push_str(", ");
                }
                o.push('}');
            }
        }
        o.push('\n');
        let c = captured.into_inner();
        if !c.is_empty() {
            let m = format!("make_{}", self.ident.trim_start_matches("r#"));
            let pats: Vec<String> = (1..=c.len()).map(|i| format!("$t{i}:ty")).collect();
            o = format!("macro_rules! {m} {{ ({}) => {{\n{o}}} }}\n{m}!({});\n", pats.join(", "), c.join(", "));
        }
        o
    }
}

struct Inst {
    fam: usize,
    /// without the path
    ty: String,
    mono: String,
    key: String,
    name: Value,
}

fn generate(name: &str, s: &mut Src) -> UnitSrc {
    // surroundings
    let krate = *s.pick(&["", "", "", "#[schemars(crate = \"::schemars\")]", "#[schemars(crate = \"super::renamed\")]"]);
    let local = s.chance(1, 4);
    let krate = if local && krate.contains("super") { "" } else { krate };
    let mut hostile: Vec<&str> = if s.bool() { HOSTILE.iter().copied().filter(|_| s.bool()).collect() } else { vec![] };
    if !krate.is_empty() {
        hostile.push("pub mod schemars {}");
    }
    let nf = 1 + s.below(3);
    let mut fams: Vec<Family> = vec![];
    let mut idents: Vec<String> = vec![];
    for k in 0..nf {
        let ident = if s.chance(1, 10) {
            format!("r#{}", ["struct", "match", "enum"][k])
        } else {
            format!("{}{}", ["Fam", "Same", "Generic"][s.below(3)], ["", "A", "1"][k])
        };
        if idents.contains(&ident) {
            continue;
        }
        idents.push(ident.clone());
        fams.push(family(ident, s));
    }
    // (types of one module that are given the same name are not told apart: DESIGN.md)
    let mut given: Vec<String> = vec![];
    fams.retain(|f| {
        let n = f.given_name();
        !given.contains(&n) && {
            given.push(n);
            true
        }
    });
    let mut insts: Vec<Inst> = vec![];
    let mut args_used: Vec<String> = vec![];
    for (k, f) in fams.iter().enumerate() {
        let mut base: Option<(Vec<String>, Vec<String>)> = None;
        for _ in 0..2 + s.below(3) {
            let mut types: Vec<String> = vec![];
            for p in &f.params {
                types.push(match p.role {
                    Role::Needed if p.unsized_ok && s.bool() => "str".into(),
                    Role::Needed => (*s.pick(&ARGS)).to_string(),
                    Role::Function | Role::Assoc => (*s.pick(&["::vh::checks::generics::Bare", "::vh::checks::generics::Bare2"])).into(),
                    Role::Unneeded if !f.derive_default && s.chance(1, 2) && !p.bounds.iter().any(|b| b.starts_with("::")) => "::vh::checks::generics::Nothing".into(),
                    Role::Unneeded if s.chance(1, 3) => (*s.pick(&ARGS)).to_string(),
                    Role::Unneeded => (*s.pick(&["::vh::checks::generics::Bare", "::vh::checks::generics::Bare2"])).into(),
                });
            }
            let mut cs: Vec<String> = vec![];
            for c in &f.consts {
                cs.push(match c.ty {
                    "usize" | "u8" => (*s.pick(&["0", "1", "2", "12", "23", "3", "123"])).to_string(),
                    "char" => format!("{:?}", s.pick(&CHARS)),
                    "bool" => s.bool().to_string(),
                    _ => (*s.pick(&["1", "-1", "11", "-11", "2"])).to_string(),
                });
            }
            // often one step from an earlier instance
            if let (Some((t, c)), true) = (&base, s.chance(2, 3)) {
                let keep = s.below(t.len() + c.len() + 1);
                for i in 0..t.len() {
                    if i != keep {
                        types[i] = t[i].clone();
                    }
                }
                for i in 0..c.len() {
                    if i + t.len() != keep {
                        cs[i] = c[i].clone();
                    }
                }
            }
            base = Some((types.clone(), cs.clone()));
            let map = f.map(&types, &cs);
            let lts: Vec<String> = f.lifetimes.iter().map(|_| "'static".to_string()).collect();
            let all: Vec<String> = lts.iter().cloned().chain(types.iter().cloned()).chain(cs.iter().map(|c| if c.starts_with('-') { format!("{{ {c} }}") } else { c.clone() })).collect();
            let ty = if all.is_empty() { f.ident.clone() } else { format!("{}<{}>", f.ident, all.join(", ")) };
            let canon = |t: &str| t.replace("::std::boxed::Box<i64>", "i64").replace("::std::string::String", "str");
            let assoc = |t: &str| t.to_string();
            let key = match &f.transparent {
                Some(t) => {
                    let t = put(t, &map);
                    // (wrappers that have the same schema are not told apart)
                    format!("transparent {}", canon(&t).replace("::std::boxed::Box<", "(").replace("&'a ", "").replace('>', ")"))
                }
                None => format!(
                    "{k} {:?} {:?}",
                    f.params.iter().zip(&types).filter(|(p, _)| p.role != Role::Unneeded).map(|(_, t)| assoc(&canon(t))).collect::<Vec<_>>(),
                    cs
                ),
            };
            let plain = f.ident.trim_start_matches("r#").to_string();
            let name = if f.transparent.is_some() {
                Value::Null
            } else {
                match &f.rename {
                    None => json!([plain]),
                    Some(ps) => Value::Array({
                        let formatted = ps.iter().any(|p| matches!(p, Piece::Param(_)) || matches!(p, Piece::Text(t) if t.contains('{')));
                        ps.iter()
                            .map(|p| match p {
                                // (without parameters the text is taken literally)
                                Piece::Text(t) if formatted => {
                                    json!(t.replace("{{", "{").replace("}}", "}"))
                                }
                                Piece::Text(t) => json!(t),
                                Piece::Param(n) => match f.params.iter().position(|p| p.name == *n) {
                                    Some(i) => {
                                        let a = &types[i];
                                        let at = args_used.iter().position(|x| x == a).unwrap_or_else(|| {
                                            args_used.push(a.clone());
                                            args_used.len() - 1
                                        });
                                        json!({"arg": at})
                                    }
                                    None => {
                                        let c = &map[n];
                                        let c = c.strip_prefix('\'').and_then(|c| c.strip_suffix('\'')).unwrap_or(c);
                                        json!(c.replace("\\\"", "\""))
                                    }
                                },
                            })
                            .collect()
                    }),
                }
            };
            insts.push(Inst { fam: k, ty, mono: f.source(&map, true, ""), key, name });
        }
    }
    // text
    let mut o = format!("pub mod {name} {{\n    pub use ::schemars as renamed;\n");
    let mut roots: Vec<String> = vec![];
    // (shadowing what a definition's own text uses would be its mistake)
    let hostile_text: String = hostile
        .iter()
        .filter(|h| {
            let n = h.trim_end_matches([';', '{', '}', ' ']).rsplit(' ').next().unwrap_or("");
            !fams.iter().any(|f| f.ident == n || f.params.iter().any(|p| p.name == n) || f.consts.iter().any(|c| c.name == n))
        })
        .map(|h| format!("        {h}\n"))
        .collect();
    if local {
        writeln!(o, "    pub fn local(i: usize) -> ::vh::lab::Root {{").unwrap();
        for (k, f) in fams.iter().enumerate() {
            writeln!(o, "      {{\n{hostile_text}      {}", f.source(&f.generic_map(), false, krate)).unwrap();
            for (i, x) in insts.iter().enumerate().filter(|x| x.1.fam == k) {
                writeln!(o, "        if i == {i} {{ return ::vh::lab::Root::new::<{}>({}); }}", x.ty, lit(&x.ty)).unwrap();
            }
            o.push_str("      }\n");
        }
        o.push_str("      ::std::unreachable!()\n    }\n");
    } else {
        writeln!(o, "    pub mod g {{\n{hostile_text}").unwrap();
        for f in &fams {
            o.push_str(&f.source(&f.generic_map(), false, krate));
        }
        o.push_str("    }\n");
    }
    for (i, x) in insts.iter().enumerate() {
        writeln!(o, "    pub mod m{i} {{\n{}    }}", x.mono).unwrap();
    }
    o.push_str("}\n");
    for (i, x) in insts.iter().enumerate() {
        roots.push(if local { format!("{name}::local({i})") } else { format!("vh::lab::Root::new::<{name}::g::{}>({})", x.ty, lit(&x.ty)) });
    }
    for (i, x) in insts.iter().enumerate() {
        let f = &fams[x.fam];
        let lts = if f.lifetimes.is_empty() { String::new() } else { format!("<{}>", f.lifetimes.iter().map(|_| "'static").collect::<Vec<_>>().join(", ")) };
        roots.push(format!("vh::lab::Root::new::<{name}::m{i}::{}{lts}>(\"mono\")", f.ident));
    }
    for a in &args_used {
        roots.push(format!("vh::lab::Root::new::<{a}>({})", lit(a)));
    }
    let meta = json!({
        "n": insts.len(),
        "key": insts.iter().map(|x| &x.key).collect::<Vec<_>>(),
        "name": insts.iter().map(|x| &x.name).collect::<Vec<_>>(),
        "generic": fams.iter().any(|f| !f.params.is_empty() || !f.consts.is_empty()),
        "classes": classes(&fams, local, krate, !hostile.is_empty()),
    });
    UnitSrc { source: o, roots, meta }
}

fn classes(fams: &[Family], local: bool, krate: &str, hostile: bool) -> Vec<String> {
    let mut c = vec![];
    let mut add = |b: bool, t: &str| {
        if b {
            c.push(t.to_string());
        }
    };
    add(local, "types within a function");
    add(!krate.is_empty(), "crate attribute");
    add(hostile, "shadowed names");
    let any = |f: &dyn Fn(&Family) -> bool| fams.iter().any(f);
    add(any(&|f| f.params.iter().any(|p| p.role == Role::Unneeded)), "unneeded type parameter");
    add(any(&|f| f.params.iter().any(|p| p.role == Role::Function)), "function parameter");
    add(any(&|f| f.params.iter().any(|p| p.role == Role::Assoc)), "associated type");
    add(any(&|f| !f.consts.is_empty()), "const parameter");
    add(any(&|f| !f.lifetimes.is_empty()), "lifetime");
    add(any(&|f| f.rename.is_some()), "renamed");
    add(any(&|f| f.raw), "raw name");
    add(any(&|f| f.derive_default), "container default");
    add(any(&|f| f.transparent.is_some()), "transparent");
    add(any(&|f| f.cont_attrs.iter().any(|a| a.contains("bound"))), "explicit bounds");
    c
}

fn without_defaults(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(without_defaults).collect()),
        Value::Object(o) => Value::Object(o.iter().filter(|(k, _)| *k != "default").map(|(k, v)| (k.clone(), without_defaults(v))).collect()),
        _ => v.clone(),
    }
}

pub fn check(ctx: &mut Ctx, s: &mut Src, st: &mut Stats) -> CaseResult {
    let n = ctx.meta["n"].as_u64().unwrap() as usize;
    let keys: Vec<String> = ctx.meta["key"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let roots = ctx.unit.roots.clone();
    let unit = ctx.unit.name;
    let what = |i: usize| format!("{unit}::{}", roots[i].name);
    // ids and names
    for i in 0..n {
        let (id, name) = ((roots[i].id)(), (roots[i].sname)());
        if id != (roots[i].id)() || name != (roots[i].sname)() {
            return fail("unstable-id", format!("{}: the schema id or name changes between calls", what(i)), json!({"type": roots[i].name}));
        }
        for j in 0..i {
            let other = (roots[j].id)();
            if (keys[i] == keys[j]) != (id == other) && !(keys[i].starts_with("transparent") && keys[j].starts_with("transparent")) {
                let sig = if keys[i] == keys[j] { "same-type-two-ids" } else { "two-types-one-id" };
                return fail(sig, format!("{} has the schema id {id:?} and {} has {other:?}", what(i), what(j)), json!({"types": [roots[j].name, roots[i].name], "ids": [other, id]}));
            }
        }
        if let Some(ps) = ctx.meta["name"][i].as_array() {
            let want: String = ps.iter().map(|p| p.as_str().map(str::to_string).unwrap_or_else(|| (roots[2 * n + p["arg"].as_u64().unwrap() as usize].sname)())).collect();
            if name != want {
                return fail("name", format!("{} is named {name:?}, not {want:?}", what(i)), json!({"type": roots[i].name, "name": name, "expected": want}));
            }
        }
    }
    // each instance reaches its own schema, whatever else is in the generator
    let ser = s.bool();
    let order: Vec<usize> = (0..n + s.below(3)).map(|_| s.below(n)).collect();
    let set = || if ser { SchemaSettings::draft2020_12().for_serialize() } else { SchemaSettings::draft2020_12() };
    let mut gen = set().into_generator();
    let subs: Vec<Value> = order.iter().map(|&i| (roots[i].sub)(&mut gen).to_value()).collect();
    let defs = Value::Object(gen.take_definitions(true));
    let case = json!({"order": order.iter().map(|i| roots[*i].name).collect::<Vec<_>>(), "serialize": ser});
    let repeated = order.iter().enumerate().any(|(a, i)| order[..a].iter().any(|j| j != i && roots[*j].name.split('<').next() == roots[*i].name.split('<').next()));
    if repeated && ctx.meta["generic"] == true {
        st.nontrivial(&(unit, &order, ser), || case.clone());
    }
    for c in ctx.meta["classes"].as_array().unwrap() {
        st.class(c.as_str().unwrap());
    }
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    for (k, &i) in order.iter().enumerate() {
        let mut doc = subs[k].clone();
        if let (Some(r), true) = (doc.get("$ref").and_then(Value::as_str).map(str::to_string), !(roots[i].inline)()) {
            if let Some(&j) = seen.get(&r) {
                if keys[i] != keys[j] && !(keys[i].starts_with("transparent") && keys[j].starts_with("transparent")) {
                    return fail("shared-definition", format!("{} and {} are both {r}", what(i), what(j)), case);
                }
            } else if let Some(j) = (0..k).find(|&j| order[j] == i || (keys[order[j]] == keys[i] && !keys[i].starts_with("transparent"))) {
                return fail("two-definitions", format!("{} and {} are the same but have different definitions", what(i), what(order[j])), case);
            }
            seen.insert(r, i);
        }
        if let Some(o) = doc.as_object_mut() {
            o.insert("$defs".into(), defs.clone());
        }
        // the copy without parameters, by itself
        let mono = {
            let r = roots[n + i].clone();
            ctx.cached(&format!("{i} {ser}"), || {
                let mut gen = set().into_generator();
                let mut v = (r.sub)(&mut gen).to_value();
                let defs = gen.take_definitions(true);
                if let Some(o) = v.as_object_mut() {
                    o.insert("$defs".into(), Value::Object(defs));
                }
                v
            })
        };
        // (a generic default value may not be known to be Serialize)
        if let Err(e) = equiv::same(&without_defaults(&doc), &without_defaults(&mono), true) {
            return fail("differs-from-monomorphic", format!("{} ({}): the schema differs from the one of the same type written without parameters: {e}", what(i), if ser { "serialize" } else { "deserialize" }), json!({"generic": doc, "monomorphic": *mono, "case": case}));
        }
    }
    Ok(())
}
