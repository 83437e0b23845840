//! C18: attribute lists with and without a single fault, compiled; the compiler's errors are the observation.
use crate::lab::choices;
use crate::labrun;
use crate::run::*;
use crate::src::Src;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub fn c18() -> Check {
    Check::new("C18", "an item compiled with one fault in its attributes (with the error required at the fault's own lines), or a valid item with at least three attributes")
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Place {
    Struct,
    Enum,
    Variant,
    Field,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    Str,
    Int,
    Float,
    List,
    Opt,
    Map,
}
impl Ty {
    fn text(self) -> &'static str {
        match self {
            Ty::Str => "String",
            Ty::Int => "i32",
            Ty::Float => "f64",
            Ty::List => "Vec<String>",
            Ty::Opt => "Option<String>",
            Ty::Map => "std::collections::BTreeMap<String, u8>",
        }
    }
}

/// A place that attributes are put on.
#[derive(Clone, Debug)]
struct Slot {
    place: Place,
    named: bool,
    ty: Ty,
    attrs: Vec<(String, String)>,
    other: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Shape {
    Named,
    Tuple,
    Newtype,
    Unit,
}

#[derive(Clone, Debug)]
struct Variant {
    slot: Slot,
    shape: Shape,
    fields: Vec<Slot>,
}

#[derive(Clone, Debug)]
struct Item {
    slot: Slot,
    generics: &'static str,
    shape: Shape,
    fields: Vec<Slot>,
    variants: Vec<Variant>,
    repr: bool,
}

/// What is wrong with an item.
#[derive(Clone, Debug)]
struct Fault {
    /// index in the order of `slots`
    slot: usize,
    /// attributes of the fault
    attrs: Vec<String>,
    /// an attribute given as it is
    raw: Option<String>,
    /// keys of attributes to leave out
    without: Vec<String>,
    /// the error may be anywhere in the item, as it concerns more than the attribute
    loose: bool,
    kind: String,
}

const PRELUDE: &str = r#"#![allow(warnings)]
pub mod help {
    pub const TEXT: &str = "a text";
    pub const LIMIT: usize = 3;
    pub const LIMITS: [i32; 2] = [1, 2];
    pub static RE: &str = "^a";
    pub fn gen(_: &mut schemars::SchemaGenerator) -> schemars::Schema { schemars::json_schema!(true) }
    pub fn change(_: &mut schemars::Schema) {}
    pub fn make<T: Default>() -> T { T::default() }
    pub fn zero<T>(_: &T) -> bool { false }
    pub fn text() -> String { "a".into() }
    pub fn write<T, S: serde::Serializer>(_: &T, s: S) -> Result<S::Ok, S::Error> { s.serialize_str("a") }
    #[derive(Default, serde::Serialize, schemars::JsonSchema)]
    pub struct Other { pub z: u8 }
    pub mod aliased { pub use schemars; pub use serde; }
}
"#;

fn common(s: &mut Src) -> Vec<(&'static str, String)> {
    let mut o: Vec<(&'static str, String)> = vec![];
    if s.chance(1, 4) {
        o.push(("title", (*s.pick(&["title = \"A title\"", "title = crate::help::TEXT", "title = concat!(\"a\", \"b\")", "title = crate::help::text()", "title = r#\"raw \"text\"\"#"])).into()));
    }
    if s.chance(1, 4) {
        o.push(("description", (*s.pick(&["description = \"Some {text}\"", "description = crate::help::TEXT", "description = \"\"", "description = (\"x\", 1).0"])).into()));
    }
    if s.chance(1, 5) {
        o.push(("example", (*s.pick(&["example = 1", "example = &\"a_b\"", "example = \"two words\"", "example = crate::help::text()", "example = (1, (2, \"a\"))", "example = crate::help::LIMITS[0]", "example = crate::help::Other { z: 1 }", "example = -1.5", "example = 1 + 2"])).into()));
    }
    if s.chance(1, 4) {
        o.push(("extend", (*s.pick(&["extend(\"x-a\" = 1)", "extend(\"x-a\" = [1, null], \"x-b\" = {\"k\": true})", "extend(\"\" = crate::help::TEXT,)", "extend(\"x-a\" = 1 + 1, \"x-b\" = null)"])).into()));
    }
    if s.chance(1, 8) {
        o.push(("transform", (*s.pick(&["transform = crate::help::change", "transform = schemars::transform::RecursiveTransform(crate::help::change)", "transform = schemars::transform::AddNullable::default()"])).into()));
    }
    o
}

/// Attributes of serde, validator and garde that schemars has no use for, and things it shares with them.
fn foreign(slot: &Slot, s: &mut Src) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    if slot.place == Place::Field {
        if s.chance(1, 4) {
            o.push(
                (*s.pick(&[
                    "validate(custom(function = \"a::b\"))", "validate(custom(function = nope, use_context))", "validate(must_match(other = \"x\"))", "validate(nested)", "validate(credit_card)", "validate(non_control_character, phone)",
                    "validate(does_not_contain(pattern = \"x\"))", "validate(email(message = \"m\", code = \"c\"))", "validate(url(code = \"c\"))", "validate(required(message = \"m\"))", "validate(required, nested)", "validate(length(min = 1, message = \"m\", code = \"c\"))",
                    "validate(length(min = \"1\", max = \"crate::help::LIMIT\"))", "validate(range(exclusive_min = 0.5, max = 2.5))", "validate(contains(pattern = \"x\", message = \"m\"))", "validate(regex(path = *crate::help::RE, message = \"m\"))",
                    "validate(email, email)", "validate(email, url)", "validate(length(min = 1), length(max = 2))", "validate", "validate()", "validate(length(min = 1, min = 2))", "validate(\"what\", 5)", "validate(foo = |x| x + 1)", "validate(custom(function = |x| Ok(())))",
                    "validate(a::b(c = 1))", "validate(ip, ip(v4 = true))", "validate(skip)", "validate(pattern(1), inner(1))", "validate(regex(path = crate::help::RE), contains(pattern = \"a\"))", "validate(ip(message = \"m\"))",
                ]))
                .into(),
            );
        }
        if s.chance(1, 4) {
            o.push(
                (*s.pick(&[
                    "garde(skip)", "garde(ascii)", "garde(alphanumeric, credit_card)", "garde(dive)", "garde(phone_number)", "garde(prefix(\"x\"), suffix(\"y\"))", "garde(matches(other))", "garde(custom(|v, _| Ok(())))", "garde(custom(a::b))",
                    "garde(length(utf16, min = 1))", "garde(length(chars, max = 3, equal = 1))", "garde(range(min = -1, max = 10))", "garde(contains(\"x\"))", "garde(contains(crate::help::TEXT))", "garde(pattern(\"^x\"))", "garde(inner(ascii, length(min = 1)))",
                    "garde(rename = \"x\")", "garde(adapt(a::b))", "garde(if(cond = a(b)))", "garde(required)", "garde(email, url)", "garde(ip, ipv4, ipv6)", "garde", "garde(|x| x)", "garde(code(\"x\"))", "garde(inner(inner(ascii)))", "garde(pattern(\"a\"), pattern(\"b\"))",
                    "garde(length(min = 1), length(bytes, max = 9))", "garde(regex = 1)",
                ]))
                .into(),
            );
        }
        if s.chance(1, 5) {
            o.push((*s.pick(&["serde(alias = \"x\")", "serde(deserialize_with = \"a::b\")", "serde(serialize_with = \"crate::help::write\")", "serde(borrow)", "serde(getter = \"a::b\")", "serde(rename = \"ren\")", "serde(default)", "serde(unheard_of)"])).into());
        }
    } else {
        if s.chance(1, 4) {
            o.push((*s.pick(&["validate(schema(function = \"a::b\"))", "validate(context = \"a::B\")", "validate(nest_all_fields)", "garde(allow_unvalidated)", "garde(context(A as b))", "garde(transparent)", "garde(|x| y)", "validate(email)", "garde(length(min = 1))"])).into());
        }
        if s.chance(1, 4) {
            o.push(match slot.place {
                Place::Variant => (*s.pick(&["serde(alias = \"x\")", "serde(other_unheard_of)", "serde(rename_all = \"camelCase\")", "serde(deserialize_with = \"a::b\")"])).into(),
                _ => (*s.pick(&["serde(expecting = \"x\")", "serde(crate = \"crate::help::aliased::serde\")", "serde(unheard_of = 1)", "serde(rename_all = \"camelCase\")", "serde(variant_identifier_)"])).into(),
            });
        }
    }
    o
}

const FORMATS: [&str; 5] = ["email", "url", "ip", "ipv4", "ipv6"];

fn field_attrs(slot: &Slot, in_tuple: bool, must_be_plain: bool, s: &mut Src) -> Vec<(String, String)> {
    let mut o: Vec<(&str, String)> = common(s);
    if s.chance(1, 5) {
        o.push(("rename", (*s.pick(&["rename = \"ren\"", "rename = \"\"", "rename(serialize = \"a\", deserialize = \"b\")", "rename(serialize = \"a\")"])).into()));
    }
    match s.below(14) {
        0 => o.push(("with", (*s.pick(&["with = \"String\"", "with = \"Vec<Option<u8>>\"", "with = \"crate::help::Other\"", "with = \"[u8; 3]\""])).into())),
        1 => o.push(("schema_with", (*s.pick(&["schema_with = \"crate::help::gen\"", "schema_with = \"crate :: help :: gen\""])).into())),
        2 if !must_be_plain => o.push(("skip", "skip".into())),
        3 if !must_be_plain => o.push(("skip_serializing", "skip_serializing".into())),
        4 if !must_be_plain => o.push(("skip_deserializing", "skip_deserializing".into())),
        5 => o.push(("bound", "bound = \"\"".into())),
        6 if slot.ty == Ty::Map && !in_tuple => o.push(("flatten", "flatten".into())),
        _ => {}
    }
    if s.chance(1, 5) && !in_tuple {
        o.push(("default", (*s.pick(&["default", "default = \"crate::help::make\"", "default = \"Default::default\"", "default = \"<_>::default\""])).into()));
    }
    if s.chance(1, 6) {
        o.push(("skip_serializing_if", "skip_serializing_if = \"crate::help::zero\"".into()));
    }
    if s.chance(1, 3) {
        match slot.ty {
            Ty::Int => o.push(("range", (*s.pick(&["range(min = 1)", "range(min = -5, max = 5)", "range(max = \"crate::help::LIMITS[1]\")", "range(equal = 3,)", "range()", "range(min = crate::help::LIMITS[0] + 1)", "range(max = i32::MAX)"])).into())),
            Ty::Float => o.push(("range", (*s.pick(&["range(min = 0.5)", "range(max = f64::MAX)", "range(min = -1)", "range(min = 1e3, max = \"2.5\")"])).into())),
            Ty::Str | Ty::List | Ty::Map | Ty::Opt => {
                o.push(("length", (*s.pick(&["length(min = 1)", "length(max = 10, min = 1)", "length(equal = 3)", "length(min = \"1\")", "length()", "length(max = crate::help::LIMIT)", "length(equal = crate::help::LIMIT * 2)"])).into()))
            }
        }
    }
    if s.chance(1, 3) && matches!(slot.ty, Ty::Str | Ty::Opt) {
        match s.below(3) {
            0 => o.push(("pattern", (*s.pick(&["pattern(\"^a\")", "pattern(crate::help::TEXT)", "pattern(*crate::help::RE)"])).into())),
            1 => o.push(("regex", (*s.pick(&["regex(pattern = \"^a\")", "regex(pattern = crate::help::RE)", "regex(pattern = \"a\",)"])).into())),
            _ => o.push(("contains", (*s.pick(&["contains(\"a\")", "contains(pattern = \"a\")", "contains(crate::help::TEXT)", "contains(pattern = crate::help::text())"])).into())),
        }
    }
    if s.chance(1, 4) && matches!(slot.ty, Ty::Str | Ty::Opt) {
        o.push(("format", (*s.pick(&FORMATS)).into()));
    }
    if s.chance(1, 4) && slot.ty == Ty::List {
        o.push(("inner", (*s.pick(&["inner(length(min = 1))", "inner(email, length(max = 2))", "inner(pattern(\"a\"))", "inner()", "inner(inner(range(min = 1)))"])).into()));
    }
    if s.chance(1, 8) {
        o.push(("required", "required".into()));
    }
    o.into_iter().map(|(k, v)| (k.to_string(), v)).collect()
}

fn fields(shape: Shape, default_ok: bool, plain: bool, s: &mut Src) -> Vec<Slot> {
    let n = match shape {
        Shape::Unit => 0,
        Shape::Newtype => 1,
        Shape::Tuple => *s.pick(&[2, 3, 0]),
        Shape::Named => s.below(4),
    };
    let _ = default_ok;
    (0..n)
        .map(|_| {
            let ty = *s.pick(&[Ty::Str, Ty::Int, Ty::List, Ty::Opt, Ty::Map, Ty::Float]);
            let mut f = Slot { place: Place::Field, named: shape == Shape::Named, ty, attrs: vec![], other: vec![] };
            f.attrs = field_attrs(&f, shape != Shape::Named, plain || shape == Shape::Newtype, s);
            f.other = foreign(&f, s);
            // (serde wants every later field of a tuple to have a default too)
            if shape != Shape::Named {
                f.other.retain(|o| !o.contains("default"));
            }
            f
        })
        .collect()
}

fn item(s: &mut Src) -> Item {
    let is_enum = s.bool();
    let repr = is_enum && s.chance(1, 10);
    let shape = *s.pick(&[Shape::Named, Shape::Named, Shape::Tuple, Shape::Newtype, Shape::Unit]);
    let mut slot = Slot { place: if is_enum { Place::Enum } else { Place::Struct }, named: shape == Shape::Named, ty: Ty::Str, attrs: vec![], other: vec![] };
    let mut a: Vec<(&str, String)> = common(s);
    let generics = *s.pick(&["", "", "", "<T>", "<'a, T: Clone, const N: usize>"]);
    let generics = if repr { "" } else { generics };
    let mut tagged = false;
    let mut transparent = false;
    if s.chance(1, 4) {
        let v: &[&str] = match generics {
            "" => &["rename = \"Renamed\"", "rename = \"a b\"", "rename = \"}\"", "rename = \"\""],
            "<T>" => &["rename = \"Renamed\"", "rename = \"{T}\"", "rename = \"a_{T}_{{x}}\"", "rename = \"{T}{T}\""],
            _ => &["rename = \"{N}\"", "rename = \"{T}of{N}\"", "rename = \"{{}}{N}\""],
        };
        a.push(("rename", (*s.pick(v)).into()));
    }
    if s.chance(1, 5) {
        a.push(("crate", (*s.pick(&["crate = \"::schemars\"", "crate = \"schemars\"", "crate = \"crate::help::aliased::schemars\""])).into()));
    }
    if s.chance(1, 6) {
        a.push(("inline", "inline".into()));
    }
    if !repr {
        match s.below(12) {
            0 => a.push(("with", (*s.pick(&["with = \"String\"", "with = \"crate::help::Other\""])).into())),
            1 => a.push(("schema_with", "schema_with = \"crate::help::gen\"".into())),
            2 => a.push(("from", "from = \"String\"".into())),
            3 => a.push(("try_from", "try_from = \"crate::help::Other\"".into())),
            4 => a.push(("into", "into = \"Option<String>\"".into())),
            5 if shape == Shape::Newtype && !is_enum && generics.is_empty() => {
                a.push(("transparent", "transparent".into()));
                transparent = true;
            }
            _ => {}
        }
        if s.chance(1, 4) {
            a.push(("rename_all", (*s.pick(&["rename_all = \"camelCase\"", "rename_all = \"SCREAMING-KEBAB-CASE\"", "rename_all(serialize = \"lowercase\", deserialize = \"UPPERCASE\")"])).into()));
        }
        if s.chance(1, 5) && !transparent {
            a.push(("deny_unknown_fields", "deny_unknown_fields".into()));
        }
        if s.chance(1, 8) && generics.is_empty() {
            a.push(("bound", "bound = \"\"".into()));
        }
        if is_enum {
            match s.below(5) {
                0 => {
                    a.push(("tag", "tag = \"tag_\"".into()));
                    tagged = true;
                }
                1 => {
                    a.push(("tag", "tag = \"tag_\"".into()));
                    a.push(("content", "content = \"con_\"".into()));
                }
                2 => a.push(("untagged", "untagged".into())),
                _ => {}
            }
            if s.chance(1, 6) {
                a.push(("rename_all_fields", "rename_all_fields = \"kebab-case\"".into()));
            }
            if s.chance(1, 6) {
                a.push(("_unstable_ref_variants", "_unstable_ref_variants".into()));
            }
        } else if shape == Shape::Named && !transparent {
            if s.chance(1, 6) {
                a.push(("tag", "tag = \"tag_\"".into()));
            }
        }
    }
    slot.attrs = a.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    slot.other = foreign(&slot, s);
    let mut variants = vec![];
    let mut fs = vec![];
    if is_enum {
        for _ in 0..1 + s.below(3) {
            let sh = if repr {
                Shape::Unit
            } else {
                match *s.pick(&[Shape::Unit, Shape::Named, Shape::Newtype, Shape::Tuple]) {
                    // serde has no such representation
                    Shape::Tuple if tagged => Shape::Named,
                    sh => sh,
                }
            };
            let mut v = Slot { place: Place::Variant, named: sh == Shape::Named, ty: Ty::Str, attrs: vec![], other: vec![] };
            let mut a = common(s);
            if s.chance(1, 5) {
                a.push(("rename", (*s.pick(&["rename = \"ren\"", "rename(deserialize = \"b\")"])).into()));
            }
            if s.chance(1, 6) {
                a.push(("rename_all", "rename_all = \"PascalCase\"".into()));
            }
            match s.below(12) {
                0 => a.push(("skip", "skip".into())),
                1 => a.push(("skip_serializing", "skip_serializing".into())),
                2 => a.push(("skip_deserializing", "skip_deserializing".into())),
                3 => a.push(("with", "with = \"String\"".into())),
                4 => a.push(("schema_with", "schema_with = \"crate::help::gen\"".into())),
                _ => {}
            }
            if s.chance(1, 10) && !repr {
                a.push(("bound", "bound = \"\"".into()));
            }
            v.attrs = a.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
            v.other = foreign(&v, s);
            let fields = fields(sh, true, false, s);
            variants.push(Variant { slot: v, shape: sh, fields });
        }
    } else {
        fs = fields(shape, true, transparent, s);
    }
    let mut it = Item { slot, generics, shape, fields: fs, variants, repr };
    if repr {
        // (which declares no other attributes)
        let keep = |x: &mut Slot| x.other.retain(|o| o.starts_with("serde"));
        keep(&mut it.slot);
        it.variants.iter_mut().for_each(|v| keep(&mut v.slot));
    }
    it
}

impl Item {
    fn slots(&self) -> Vec<&Slot> {
        let mut o = vec![&self.slot];
        o.extend(&self.fields);
        for v in &self.variants {
            o.push(&v.slot);
            o.extend(&v.fields);
        }
        o
    }
    /// Text of the item, whether each line may be left out, and whether each is part of the fault.
    fn lines(&self, fault: Option<&Fault>, s: &mut Src) -> Vec<Line> {
        let mut o: Vec<Line> = vec![];
        let mut k = 0;
        let line = |t: String| Line { text: t, optional: false, fault: false };
        let derive = if self.repr { "#[derive(schemars::JsonSchema_repr)]" } else { "#[derive(schemars::JsonSchema)]" };
        let mut slot = |sl: &Slot, o: &mut Vec<Line>, k: &mut usize, s: &mut Src| {
            let f = fault.filter(|f| f.slot == *k);
            *k += 1;
            let mut items: Vec<(String, bool)> = sl.attrs.iter().filter(|a| !f.is_some_and(|f| f.without.contains(&a.0))).map(|a| (a.1.clone(), false)).collect();
            let fs: Vec<String> = f.map(|f| f.attrs.clone()).unwrap_or_default();
            // the fault's own attributes keep their order
            let mut at: Vec<usize> = fs.iter().map(|_| s.below(items.len() + 1)).collect();
            at.sort_unstable();
            for (i, (p, t)) in at.into_iter().zip(fs).enumerate() {
                items.insert(p + i, (t, true));
            }
            let mut raw: Vec<Line> = sl.other.iter().map(|t| Line { text: format!("    #[{t}]"), optional: true, fault: false }).collect();
            if s.chance(1, 8) {
                raw.push(Line { text: "    /// documented".into(), optional: true, fault: false });
            }
            if let Some(r) = f.and_then(|f| f.raw.clone()) {
                raw.push(Line { text: format!("    {r}"), optional: false, fault: true });
            }
            // split over one or more #[schemars(...)]
            let mut groups: Vec<Vec<(String, bool)>> = vec![];
            for it in items {
                if groups.is_empty() || s.bool() {
                    groups.push(vec![]);
                }
                groups.last_mut().unwrap().push(it);
            }
            let mut mine: Vec<Line> = vec![];
            for g in groups {
                let fault = g.iter().any(|x| x.1);
                let comma = if s.chance(1, 5) { "," } else { "" };
                mine.push(Line { text: format!("    #[schemars({}{comma})]", g.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")), optional: !fault, fault });
            }
            for r in raw {
                mine.insert(s.below(mine.len() + 1), r);
            }
            o.extend(mine);
        };
        let mut head = vec![];
        slot(&self.slot, &mut head, &mut k, s);
        o.push(line(derive.into()));
        o.extend(head);
        if self.repr {
            o.push(line("#[repr(i16)]".into()));
        }
        let extra: &[&str] = match self.generics {
            "" => &[],
            "<T>" => &["std::marker::PhantomData<T>"],
            _ => &["std::marker::PhantomData<&'a [T; N]>"],
        };
        let block = |shape: Shape, fields: &[Slot], extra: &[&str], vis: &str, end: &str, o: &mut Vec<Line>, k: &mut usize, s: &mut Src, slot: &mut dyn FnMut(&Slot, &mut Vec<Line>, &mut usize, &mut Src)| {
            match shape {
                Shape::Unit if extra.is_empty() => o.push(line(end.into())),
                Shape::Named => {
                    o.push(line("  {".into()));
                    for (i, f) in fields.iter().enumerate() {
                        slot(f, o, k, s);
                        o.push(line(format!("    {vis}f{i}: {},", f.ty.text())));
                    }
                    for e in extra {
                        o.push(line(format!("    {vis}extra: {e},")));
                    }
                    o.push(line("  }".into()));
                    if end == "," {
                        o.push(line(",".into()));
                    }
                }
                _ => {
                    o.push(line("  (".into()));
                    for f in fields {
                        slot(f, o, k, s);
                        o.push(line(format!("    {vis}{},", f.ty.text())));
                    }
                    for e in extra {
                        o.push(line(format!("    {vis}{e},")));
                    }
                    o.push(line(format!("  ){end}")));
                }
            }
        };
        if self.slot.place == Place::Enum {
            o.push(line(format!("pub enum Item{} {{", self.generics)));
            for (i, v) in self.variants.iter().enumerate() {
                slot(&v.slot, &mut o, &mut k, s);
                o.push(line(format!("  V{i}")));
                block(v.shape, &v.fields, &[], "", ",", &mut o, &mut k, s, &mut slot);
            }
            if !extra.is_empty() {
                o.push(line(format!("  #[schemars(skip)] Extra({}),", extra[0])));
            }
            o.push(line("}".into()));
        } else {
            o.push(line(format!("pub struct Item{}", self.generics)));
            block(self.shape, &self.fields, extra, "pub ", ";", &mut o, &mut k, s, &mut slot);
        }
        o
    }
}

#[derive(Clone, Debug)]
struct Line {
    text: String,
    optional: bool,
    fault: bool,
}

#[derive(Clone, Debug)]
struct Case {
    lines: Vec<Line>,
    /// None: must compile
    kind: Option<String>,
    loose: bool,
    /// only found when types are checked
    typed: bool,
}

const CONTAINER_ONLY: [&str; 14] = ["inline", "crate = \"schemars\"", "deny_unknown_fields", "tag = \"x\"", "content = \"x\"", "from = \"String\"", "into = \"String\"", "try_from = \"String\"", "transparent", "rename_all_fields = \"camelCase\"", "_unstable_ref_variants", "remote = \"String\"", "!inline", "!crate"];
const FIELD_ONLY: [&str; 16] =
    ["flatten", "skip_serializing_if = \"crate::help::zero\"", "length(min = 1)", "range(max = 2)", "pattern(\"a\")", "regex(pattern = \"a\")", "contains(\"a\")", "email", "url", "ip", "ipv4", "ipv6", "required", "inner(length(min = 1))", "length()", "inner()"];
const NOWHERE: [&str; 32] = [
    "foo", "foo = 1", "foo(1)", "a::b", "a::b = 1", "crate::title = \"x\"", "Title = \"x\"", "titel = \"x\"", "desc = \"x\"", "examples = [1]", "extends(\"a\" = 1)", "alias = \"x\"", "serialize_with = \"crate::help::write\"", "deserialize_with = \"a::b\"", "getter = \"a\"", "borrow", "other",
    "expecting = \"x\"", "repr", "validate(email)", "min = 1", "max_length = 3", "skip_if", "format = \"email\"", "phone", "ascii", "deprecated", "doc = \"x\"", "!a::b", "with_schema = \"f\"", "nullable", "schemars(title = \"x\")",
];

fn fault(it: &Item, s: &mut Src) -> Option<(Fault, bool)> {
    let slots = it.slots();
    let k = s.below(slots.len());
    let sl = slots[k].clone();
    let place = sl.place;
    let container = matches!(place, Place::Struct | Place::Enum);
    let f = |kind: &str, attrs: Vec<String>, without: Vec<&str>| Fault { slot: k, attrs, raw: None, without: without.into_iter().map(String::from).collect(), loose: false, kind: format!("{kind} ({place:?})") };
    let raw = |kind: &str, t: &str| Fault { slot: k, attrs: vec![], raw: Some(t.into()), without: vec![], loose: false, kind: format!("{kind} ({place:?})") };
    let loose = |mut x: Fault| {
        x.loose = true;
        x
    };
    let st = |x: &str| x.to_string();
    let has = |key: &str| sl.attrs.iter().any(|a| a.0 == key);
    let is = |x: &[Place]| x.contains(&place);
    Some(match s.below(12) {
        // something that is not an attribute item of the place
        0 => (f("unknown item", vec![st(s.pick(&NOWHERE))], vec![]), false),
        1 => {
            let t = if container { *s.pick(&FIELD_ONLY) } else { *s.pick(&CONTAINER_ONLY) };
            (f("item of another place", vec![st(t)], vec![]), false)
        }
        2 => match place {
            Place::Struct => {
                let t = *s.pick(&["untagged", "content = \"x\"", "rename_all_fields = \"camelCase\"", "_unstable_ref_variants", "skip", "skip_serializing", "skip_deserializing", "other"]);
                // (serde points at the `struct` for some)
                (loose(f("item for enums", vec![st(t)], vec!["tag"])), false)
            }
            Place::Enum => {
                let t = *s.pick(&["transparent", "default", "default = \"crate::help::make\"", "skip", "skip_deserializing", "with::x"]);
                (loose(f("item for structs", vec![st(t)], vec!["from", "into", "try_from"])), false)
            }
            Place::Variant => (f("item of fields and containers", vec![st(s.pick(&["default", "default = \"crate::help::make\"", "deny_unknown_fields", "flatten", "content = \"x\"", "required", "inline"]))], vec![]), false),
            Place::Field => (f("item of variants and containers", vec![st(s.pick(&["rename_all = \"camelCase\"", "untagged", "rename_all(serialize = \"camelCase\")", "other", "deny_unknown_fields"]))], vec![]), false),
        },
        // the same thing twice
        3 | 4 => {
            let mut pairs: Vec<(&str, &str, &str)> = vec![("title", "title = \"a\"", "title = \"a\""), ("description", "description = \"a\"", "description = crate::help::TEXT"), ("extend", "extend(\"q\" = 1, \"q\" = 1)", ""), ("extend", "extend(\"q\" = 1)", "extend(\"r\" = 1, \"q\" = 2)")];
            if !it.repr {
                pairs.push(("rename", "rename = \"a\"", "rename = \"b\""));
                pairs.push(("bound", "bound = \"\"", "bound = \"\""));
                pairs.push(("with", "with = \"String\"", "with = \"u8\""));
                pairs.push(("with", "schema_with = \"crate::help::gen\"", "schema_with = \"crate::help::gen\""));
            }
            if container {
                pairs.extend([("crate", "crate = \"schemars\"", "crate = \"schemars\""), ("inline", "inline", "inline")]);
                if !it.repr {
                    pairs.extend([("from", "from = \"u8\"", "from = \"u16\""), ("from", "try_from = \"u8\"", "try_from = \"u16\""), ("into", "into = \"u8\"", "into = \"u16\"")]);
                    pairs.extend([("rename_all", "rename_all = \"camelCase\"", "rename_all = \"snake_case\""), ("deny_unknown_fields", "deny_unknown_fields", "deny_unknown_fields")]);
                }
            }
            if place == Place::Enum && !it.repr {
                pairs.extend([("_unstable_ref_variants", "_unstable_ref_variants", "_unstable_ref_variants"), ("tag", "tag = \"a\"", "tag = \"b\""), ("untagged", "untagged", "untagged"), ("rename_all_fields", "rename_all_fields = \"camelCase\"", "rename_all_fields = \"camelCase\"")]);
            }
            if place == Place::Variant && !it.repr {
                pairs.extend([("skip", "skip", "skip"), ("skip", "skip_serializing", "skip_serializing"), ("rename_all", "rename_all = \"camelCase\"", "rename_all = \"snake_case\"")]);
            }
            if place == Place::Field {
                pairs.extend([
                    ("skip", "skip_deserializing", "skip_deserializing"),
                    ("default", "default", "default"),
                    ("default", "default", "default = \"crate::help::make\""),
                    ("skip_serializing_if", "skip_serializing_if = \"crate::help::zero\"", "skip_serializing_if = \"crate::help::zero\""),
                    ("length", "length(min = 1)", "length(max = 2)"),
                    ("range", "range(min = 1)", "range(max = 2)"),
                    ("length", "length(min = 1, min = 2)", ""),
                    ("length", "length(equal = 1, equal = 2)", ""),
                    ("range", "range(max = 1, max = 1)", ""),
                    ("required", "required", "required"),
                    ("format", "email", "email"),
                    ("format", "ipv4", "ipv4"),
                    ("pattern", "pattern(\"a\")", "pattern(\"a\")"),
                    ("pattern", "regex(pattern = \"a\")", "regex(pattern = \"b\")"),
                    ("pattern", "contains(\"a\")", "contains(pattern = \"a\")"),
                    ("pattern", "regex(pattern = \"a\", pattern = \"a\")", ""),
                    ("pattern", "contains(pattern = \"a\", pattern = \"a\")", ""),
                    ("inner", "inner(length(min = 1), length(max = 2))", ""),
                    ("inner", "inner(length(min = 1))", "inner(length(max = 2))"),
                    ("inner", "inner(email, email)", ""),
                    ("inner", "inner(inner(required, required))", ""),
                ]);
            }
            let (key, a, b) = *s.pick(&pairs);
            let without: Vec<&str> = match key {
                "with" => vec!["with", "schema_with", "transparent", "from", "into", "try_from"],
                "from" | "into" => vec!["from", "into", "try_from", "transparent"],
                "pattern" => vec!["pattern", "regex", "contains"],
                "tag" | "untagged" => vec!["tag", "content", "untagged"],
                "skip" => vec!["skip", "skip_serializing", "skip_deserializing"],
                k => vec![k],
            };
            let attrs = if b.is_empty() { vec![st(a)] } else { vec![st(a), st(b)] };
            (f("duplicate", attrs, without), false)
        }
        // things that exclude each other
        5 => {
            let mut pairs: Vec<(Vec<&str>, &str, &str, bool)> = vec![];
            if !it.repr {
                pairs.push((vec!["with", "schema_with", "transparent", "from", "into", "try_from"], "with = \"String\"", "schema_with = \"crate::help::gen\"", false));
                pairs.push((vec!["rename"], "rename = \"a\"", "!rename", false));
                pairs.push((vec!["bound"], "bound = \"\"", "!bound", false));
            }
            if container && !it.repr {
                pairs.push((vec!["from", "into", "try_from", "transparent"], "from = \"String\"", "try_from = \"String\"", true));
                pairs.push((vec!["deny_unknown_fields"], "deny_unknown_fields", "!deny_unknown_fields", false));
            }
            if place == Place::Enum && !it.repr {
                let t = vec!["tag", "content", "untagged"];
                pairs.push((t.clone(), "tag = \"a\"", "untagged", true));
                pairs.push((t.clone(), "content = \"a\"", "", true));
                pairs.push((t.clone(), "content = \"a\"", "untagged", true));
                pairs.push((t, "tag = \"a\"", "content = \"a\"", true));
            }
            if place == Place::Struct && it.shape == Shape::Newtype && it.generics.is_empty() {
                pairs.push((vec!["from", "into", "try_from", "transparent", "with", "schema_with"], "transparent", *s.pick(&["from = \"String\"", "into = \"String\"", "try_from = \"u8\""]), true));
            }
            if place == Place::Field {
                let p = vec!["pattern", "regex", "contains"];
                pairs.extend([
                    (p.clone(), "pattern(\"a\")", "regex(pattern = \"a\")", false),
                    (p.clone(), "pattern(\"a\")", "contains(\"a\")", false),
                    (p, "regex(pattern = \"a\")", "contains(pattern = \"a\")", false),
                    (vec!["format"], "email", "url", false),
                    (vec!["format"], "ip", "ipv4", false),
                    (vec!["format"], "ipv6", "ipv4", false),
                    (vec!["length"], "length(min = 1, equal = 2)", "", false),
                    (vec!["length"], "length(equal = 2, max = 1)", "", false),
                    (vec!["range"], "range(max = 1, min = 0, equal = 2)", "", false),
                    (vec!["inner"], "inner(email, url)", "", false),
                    (vec!["inner"], "inner(pattern(\"a\"), contains(\"a\"))", "", false),
                    (vec!["default"], "default", "!default", false),
                    (vec!["skip", "skip_serializing", "skip_deserializing"], "skip", "!skip", false),
                ]);
            }
            if pairs.is_empty() {
                return None;
            }
            let (without, a, b, l) = s.pick(&pairs).clone();
            let mut attrs = if b.is_empty() { vec![st(a)] } else { vec![st(a), st(b)] };
            if s.bool() {
                attrs.reverse();
            }
            let mut x = f("mutually exclusive", attrs, without);
            x.loose = l;
            (x, false)
        }
        // a value of the wrong form
        6 | 7 => {
            let mut v: Vec<(&str, Vec<&str>)> = vec![
                ("title", vec!["title", "title(\"a\")", "title()", "title[1]"]),
                ("description", vec!["description", "description(\"a\")"]),
                ("example", vec!["example", "example(1)", "example = \"a_b\"", "example = \"a::b\""]),
                ("extend", vec!["extend", "extend = 1", "extend(x)", "extend(\"x\")", "extend(\"x\" = )", "extend(x = 1)", "extend(\"x\": 1)", "extend(1 = 1)", "extend(,)", "extend(\"a\" = 1,, \"b\" = 2)"]),
                ("transform", vec!["transform", "transform(crate::help::change)", "transform = \"crate::help::change\"", "transform = \"not an expression\"", "transform = \"\""]),
            ];
            if !it.repr {
                v.push(("rename", if container { vec!["rename", "rename = 1", "rename = crate::help::TEXT", "rename = b\"a\""] } else { vec!["rename", "rename = 1", "rename(serialise = \"a\")", "rename(\"a\")", "rename = crate::help::TEXT"] }));
                let mut w = vec!["with", "with = 1", "with = \"1\"", "with = \"\"", "with = \"A B\"", "with(String)", "with = String"];
                w.extend(["schema_with", "schema_with = \"1\"", "schema_with = \"a b\"", "schema_with = \"f()\"", "schema_with(f)", "schema_with = crate::help::gen", "schema_with = \"\""]);
                v.push(("with", w));
                v.push(("bound", vec!["bound", "bound = 1", "bound = \"+\"", "bound(T)"]));
            }
            if container {
                v.push(("inline", vec!["inline = true", "inline = \"x\"", "inline(true)", "inline()"]));
                v.push(("crate", vec!["crate", "crate = 1", "crate = \"1\"", "crate = \"a b\"", "crate(schemars)", "crate = \"\"", "crate = schemars"]));
                if !it.repr {
                    v.push(("rename_all", vec!["rename_all", "rename_all = \"Camel\"", "rename_all = 1", "rename_all(serialise = \"camelCase\")"]));
                    v.push(("from", vec!["from", "from = 1", "from = \"1\"", "into", "into = String", "try_from = \"A B\"", "try_from(\"String\")"]));
                    v.push(("deny_unknown_fields", vec!["deny_unknown_fields = true", "deny_unknown_fields(x)"]));
                    v.push(("tag", vec!["tag", "tag = 1", "tag(\"x\")", "tag = crate::help::TEXT"]));
                }
            }
            if place == Place::Enum && !it.repr {
                v.push(("untagged", vec!["untagged = true", "untagged(x)", "content = 1, tag = \"t\"", "_unstable_ref_variants = true", "_unstable_ref_variants(1)"]));
                v.push(("rename_all_fields", vec!["rename_all_fields = \"x\"", "rename_all_fields"]));
            }
            if place == Place::Variant && !it.repr {
                v.push(("skip", vec!["skip = true", "skip(x)", "skip_serializing = 1", "skip_deserializing(x)"]));
            }
            if place == Place::Field {
                v.push(("skip", vec!["skip = true", "skip(x)", "skip_serializing = 1", "skip_deserializing(x)", "flatten = 1", "skip_serializing_if", "skip_serializing_if = f", "skip_serializing_if = \"1\""]));
                v.push(("default", vec!["default = 0", "default = \"1\"", "default(f)", "default = \"a b\""]));
                v.push(("length", vec!["length", "length = 1", "length(1)", "length(min)", "length(min = )", "length(min = \"\")", "length(min = \"a b\")", "length(foo)", "length(min = 1, foo = 2)", "length(min(1))", "length(a::min = 1)", "length(!min)", "length(min = 1 max = 2)"]));
                v.push(("range", vec!["range", "range = 1", "range(min, max)", "range(0..5)", "range(minimum = 1)", "range(min = 1, exclusive_max = 2)", "range(max = \"1 +\")", "range(\"min\" = 1)"]));
                v.push(("pattern", vec!["pattern", "pattern = \"a\"", "pattern()", "pattern(\"a\", \"b\")", "regex", "regex = \"a\"", "regex()", "regex(\"a\")", "regex(path = \"a\")", "regex(pattern)", "regex(pattern(\"a\"))", "regex(pattern = \"a\", message = \"b\")", "contains", "contains = \"a\"", "contains()", "contains(pattern = )", "contains(pattern = \"a\", foo)", "contains(foo = \"a\")"]));
                v.push(("format", vec!["email = true", "email()", "url(message = \"x\")", "ip = \"v4\"", "ipv4(1)", "ipv6 = 1"]));
                v.push(("required", vec!["required = true", "required()", "required(message = \"x\")"]));
                v.push(("inner", vec!["inner", "inner = 1", "inner(foo)", "inner(1)", "inner(title = \"x\")", "inner(length)", "inner(length(min = 1), foo = 2)", "inner(inner(foo))", "inner(rename = \"x_y\"[0])", "inner(a::b)", "inner(length(foo = 1))", "inner(skip)", "inner(default)", "inner(rename = \"x\")"]));
            }
            let (key, list) = s.pick(&v).clone();
            let t = *s.pick(&list);
            let without: Vec<&str> = match key {
                "with" => vec!["with", "schema_with", "transparent", "from", "into", "try_from"],
                "from" => vec!["from", "into", "try_from", "transparent"],
                "pattern" => vec!["pattern", "regex", "contains"],
                "tag" | "untagged" => vec!["tag", "content", "untagged"],
                "skip" => vec!["skip", "skip_serializing", "skip_deserializing", "skip_serializing_if", "flatten"],
                k => vec![k],
            };
            (f("malformed", vec![st(t)], without), false)
        }
        // not attribute items at all
        8 => {
            if s.bool() {
                (raw("not a list of items", s.pick(&["#[schemars]", "#[schemars = \"x\"]", "#[schemars(,)]", "#[schemars(title = \"x\" description = \"y\")]", "#[schemars(title = \"x\",, inline)]", "#[schemars(!)]", "#[schemars(= 1)]", "#[schemars(1)]", "#[schemars(\"title\")]", "#[schemars(title \"x\")]", "#[schemars(title = )]", "#[schemars(#x)]", "#[schemars(|x| x)]", "#[schemars(title = \"x\"; 1)]", "#[schemars({})]", "#[schemars(-title)]"])), false)
            } else {
                // taking back what is not there
                let v = *s.pick(&["!title", "!tag", "!foo", "!flatten", "!with", "!skip_serializing_if", "!example", "!length", "!transparent", "!remote"]);
                (f("useless unset", vec![st(v)], vec![]), false)
            }
        }
        9 => {
            if s.bool() {
                (f("malformed unset", vec![st(s.pick(&["!title = \"x\"", "!title(x)", "!!title", "!1", "! \"x\"", "!title inline", "!"]))], vec![]), false)
            } else {
                let o = Fault { raw: Some("#[serde(default, rename = \"x\", skip)]".into()), ..f("repeated unset", vec![st("!default"), st("!default"), st("!skip, !rename")], vec!["default", "rename", "skip", "skip_serializing", "skip_deserializing", "transparent"]) };
                if place != Place::Field {
                    return None;
                }
                (o, false)
            }
        }
        10 => {
            // names
            if !container || it.repr {
                return None;
            }
            let v: &[&str] = &["rename = \"{\"", "rename = \"{}\"", "rename = \"a{U}\"", "rename = \"{ }\"", "rename = \"{T:?}{a}\"", "rename = \"}{\"", "rename = \"{{}{\"", "rename = \"a}b{{c{}\"", "rename = \"{0}\"", "rename = \"{{{\"", "rename = \"{'a}\"", "rename = \"{{{Z}}}\""];
            (f("malformed name", vec![st(s.pick(v))], vec!["rename"]), false)
        }
        // things that are found when names are resolved, or types checked
        _ => {
            let mut v: Vec<(&str, Vec<&str>, bool)> = vec![
                ("title", vec!["title = nope"], false),
                ("example", vec!["example = a::nope()"], false),
                ("extend", vec!["extend(\"x\" = nope)"], false),
                ("transform", vec!["transform = nope"], false),
                ("title", vec!["title = 1", "title = None::<u8>"], true),
                ("transform", vec!["transform = 5", "transform = crate::help::text", "transform = String::new()"], true),
                ("example", vec!["example = crate::help::change"], true),
                ("extend", vec!["extend(\"x\" = crate::help::change)"], true),
            ];
            if !it.repr {
                v.push(("with", vec!["with = \"Nope\"", "schema_with = \"a::nope\"", "with = \"a::Nope\""], false));
                v.push(("with", vec!["schema_with = \"crate::help::text\"", "with = \"std::fmt::Error\""], true));
            }
            if container && !it.repr {
                v.push(("crate", vec!["crate = \"a::nope\""], false));
            }
            if place == Place::Field && !["with", "schema_with", "skip", "skip_deserializing", "skip_serializing", "flatten"].iter().any(|k| has(k)) {
                if sl.named {
                    v.push(("default", vec!["default = \"a::nope\""], false));
                }
                v.push(("length", vec!["length(min = nope)", "length(max = \"nope\")"], false));
                v.push(("pattern", vec!["pattern(nope)", "contains(nope)", "regex(pattern = nope)"], false));
                v.push(("length", vec!["length(min = crate::help::change)", "length(max = \"crate::help::change\")"], true));
                v.push(("pattern", vec!["pattern(())", "contains(())"], true));
            }
            let (key, list, typed) = s.pick(&v).clone();
            // (what is said about the variants of such an enum is not used)
            if it.repr && k != 0 {
                return None;
            }
            // where the whole schema is taken from elsewhere some of these are not used
            if it.slot.attrs.iter().any(|a| ["with", "schema_with", "from", "into", "try_from", "transparent"].contains(&a.0.as_str())) && k != 0 {
                return None;
            }
            if is(&[Place::Field, Place::Variant]) && it.slots().iter().any(|x| ["with", "schema_with", "skip", "skip_serializing", "skip_deserializing", "flatten"].iter().any(|y| x.attrs.iter().any(|a| a.0 == *y))) {
                return None;
            }
            let without: Vec<&str> = match key {
                "with" => vec!["with", "schema_with", "transparent", "from", "into", "try_from"],
                "pattern" => vec!["pattern", "regex", "contains"],
                // (a default is not stated for a required field)
                "default" => vec!["default", "required"],
                k => vec![k],
            };
            let t = *s.pick(&list);
            let mut x = f(if typed { "of the wrong type" } else { "names nothing" }, vec![st(t)], without);
            // (used within a macro or a method call, where the compiler reports the whole call)
            x.loose = typed && ["extend", "pattern"].contains(&key);
            (x, typed)
        }
    })
}

fn generate(s: &mut Src) -> Vec<Case> {
    let it = item(s);
    let mut o = vec![Case { lines: it.lines(None, s), kind: None, loose: false, typed: false }];
    for _ in 0..4 {
        if let Some((f, typed)) = fault(&it, s) {
            o.push(Case { lines: it.lines(Some(&f), s), kind: Some(f.kind.clone()), loose: f.loose, typed });
        }
    }
    o
}

/// Compiles cases, one module each; returns what is wrong with each.
fn compile(cases: &[Case]) -> Vec<Option<String>> {
    let dir = format!("{}/lab/c18", std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| format!("{}/target", verif_dir())));
    let _ = std::fs::remove_dir_all(format!("{dir}/src"));
    std::fs::create_dir_all(format!("{dir}/src/bin")).expect("create lab directory");
    std::fs::write(format!("{dir}/Cargo.toml"), labrun::manifest("lab_c18")).expect("write manifest");
    std::fs::copy(format!("{}/harness/Cargo.lock", verif_dir()), format!("{dir}/Cargo.lock")).expect("copy lock file");
    // kept apart, as the compiler stops before later stages where an earlier one found errors
    let mut files: Vec<(String, String, Vec<(usize, usize)>)> = vec![];
    let stage = |c: &Case| match (&c.kind, c.typed) {
        (None, _) => 0,
        (Some(_), true) => 1,
        (Some(k), false) if k.starts_with("names nothing") => 2,
        _ => 3,
    };
    for st in 0..4 {
        let ids: Vec<usize> = (0..cases.len()).filter(|i| stage(&cases[*i]) == st).collect();
        let n = [3, 1, 1, 4][st];
        for part in 0..n {
            let mut text = String::from(PRELUDE);
            let mut ranges = vec![];
            let mut at = PRELUDE.lines().count();
            for i in ids.iter().skip(part).step_by(n) {
                text.push_str(&format!("pub mod c{i} {{\n"));
                at += 1;
                ranges.push((*i, at + 1));
                for l in &cases[*i].lines {
                    text.push_str(&l.text);
                    text.push('\n');
                    at += 1;
                }
                text.push_str("}\n");
                at += 1;
            }
            text.push_str("fn main() {}\n");
            if !ranges.is_empty() {
                let name = format!("c18_{st}_{part}");
                std::fs::write(format!("{dir}/src/bin/{name}.rs"), &text).expect("write program");
                files.push((format!("src/bin/{name}.rs"), name, ranges));
            }
        }
    }
    let diags = match labrun::cargo(&dir, &["check"]) {
        Ok(d) => d,
        Err(e) => panic!("cargo failed: {e}"),
    };
    // errors by case: (line within the case, text)
    let mut got: BTreeMap<usize, Vec<(usize, String)>> = BTreeMap::new();
    let mut unplaced: Vec<String> = vec![];
    for d in &diags {
        let mut placed = false;
        for (f, l) in &d.places {
            if let Some((_, _, ranges)) = files.iter().find(|x| x.0 == *f) {
                if let Some((i, a)) = ranges.iter().filter(|(_, a)| a <= l).max_by_key(|x| x.1) {
                    if l - a < cases[*i].lines.len() {
                        got.entry(*i).or_default().push((l - a, d.text.clone()));
                        placed = true;
                    }
                }
            }
        }
        // (the compiler's summary has no place)
        if !placed && !d.places.is_empty() {
            unplaced.push(d.text.clone());
        }
    }
    if !unplaced.is_empty() {
        panic!("errors outside of the generated items: {}", unplaced.concat().chars().take(3000).collect::<String>());
    }
    cases
        .iter()
        .enumerate()
        .map(|(i, c)| {
            let g = got.get(&i).cloned().unwrap_or_default();
            let text = || g.iter().map(|x| x.1.as_str()).collect::<BTreeSet<_>>().into_iter().collect::<String>();
            if g.iter().any(|x| x.1.contains("panicked")) {
                return Some(format!("panic: {}", text()));
            }
            match &c.kind {
                None if !g.is_empty() => Some(format!("valid input is rejected: {}", text())),
                None => None,
                Some(_) if g.is_empty() => Some("faulty input is accepted".into()),
                Some(_) if !c.loose && !g.iter().any(|x| c.lines[x.0].fault) => Some(format!("no error is at the faulty attribute: {}", text())),
                _ => None,
            }
        })
        .collect()
}

fn source(c: &Case) -> String {
    c.lines.iter().map(|l| format!("{}{}\n", l.text, if l.fault { " // fault" } else { "" })).collect()
}

fn signature(c: &Case, problem: &str) -> String {
    format!("{}: {}", c.kind.as_deref().unwrap_or("valid"), problem.split(':').next().unwrap_or(""))
}

fn record(ck: &mut Check, c: &Case, problem: &str) {
    let (prop, seed, tier) = (ck.prop.clone(), ck.seed, ck.tier.clone());
    let lines: Vec<Value> = c.lines.iter().map(|l| json!([l.text, l.optional, l.fault])).collect();
    ck.record_violation(json!({
        "property": prop, "campaign": "c18", "sig": signature(c, problem), "message": format!("{problem}\n{}", source(c)), "choices": [], "seed": seed, "tier": tier,
        "case": {"lines": lines, "kind": c.kind, "loose": c.loose, "typed": c.typed},
    }));
}

pub fn run_c18(ck: &mut Check) {
    if let Some(v) = ck.replay_value() {
        ck.replay_hit = true;
        let c = &v["case"];
        let case = Case {
            lines: c["lines"].as_array().unwrap().iter().map(|l| Line { text: l[0].as_str().unwrap().into(), optional: l[1] == true, fault: l[2] == true }).collect(),
            kind: c["kind"].as_str().map(String::from),
            loose: c["loose"] == true,
            typed: c["typed"] == true,
        };
        if let Some(p) = compile(&[case.clone()]).remove(0) {
            record(ck, &case, &p);
        }
        return;
    }
    if ck.replaying() {
        return;
    }
    let t0 = std::time::Instant::now();
    let n = if ck.thorough() { 4000 } else { 900 };
    let mut cases: Vec<Case> = vec![];
    for i in 0..n {
        let ch = choices(hash64(&(ck.seed, "c18", i as u64)), 600);
        cases.extend(generate(&mut Src::new(&ch)));
    }
    let res = compile(&cases);
    let mut st = Stats::default();
    for c in &cases {
        st.evaluations += 1;
        st.class(c.kind.as_deref().unwrap_or("valid"));
        if c.kind.is_some() || c.lines.iter().filter(|l| l.text.contains("#[")).count() > 3 {
            st.nontrivial(&source(c), || json!({"kind": c.kind.as_deref().unwrap_or("valid"), "source": source(c)}));
        }
    }
    let summary = json!({"items": cases.len(), "valid": cases.iter().filter(|c| c.kind.is_none()).count(), "faulty": cases.iter().filter(|c| c.kind.is_some()).count(), "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0});
    ck.absorb("c18", st, summary);
    let mut seen = BTreeSet::new();
    for (c, p) in cases.iter().zip(&res) {
        let Some(p) = p else { continue };
        let sig = signature(c, p);
        if std::env::var("VH_SHOW").is_ok() {
            eprintln!("FAIL {sig} {p}\n{}", source(c));
            continue;
        }
        if ck.known_signatures().contains(&sig) {
            ck.known_hit(&sig, 1);
            continue;
        }
        if !seen.insert(sig.clone()) || seen.len() > 3 {
            continue;
        }
        let (c, p) = shrink(c.clone(), p.clone());
        record(ck, &c, &p);
    }
}

/// Leaves out lines while the same thing goes wrong.
fn shrink(mut c: Case, mut p: String) -> (Case, String) {
    let sig = signature(&c, &p);
    for _ in 0..12 {
        let opt: Vec<usize> = (0..c.lines.len()).filter(|i| c.lines[*i].optional).collect();
        if opt.is_empty() {
            break;
        }
        let without = |drop: &[usize]| Case { lines: c.lines.iter().enumerate().filter(|(i, _)| !drop.contains(i)).map(|x| x.1.clone()).collect(), ..c.clone() };
        let mut cands: Vec<Case> = vec![without(&opt)];
        if opt.len() > 1 {
            let (a, b) = opt.split_at(opt.len() / 2);
            cands.push(without(a));
            cands.push(without(b));
        }
        cands.extend(opt.iter().map(|i| without(&[*i])));
        let res = compile(&cands);
        match cands.into_iter().zip(res).filter(|(c, r)| r.as_ref().is_some_and(|r| signature(c, r) == sig)).min_by_key(|x| x.0.lines.len()) {
            Some((x, r)) => {
                c = x;
                p = r.unwrap();
            }
            None => break,
        }
    }
    (c, p)
}
