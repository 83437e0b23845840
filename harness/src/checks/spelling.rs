//! C15: the same definitions with their attributes written in equivalent ways.
use crate::lab::Ctx;
use crate::labrun::{self, Lab, UnitSrc};
use crate::run::*;
use crate::src::Src;
use crate::tyspec::{self, lit, user_has, Body, Flavour, Items, Level, Module, Shape, Ty, TyCfg};
use schemars::generate::SchemaSettings;
use serde_json::{json, Value};
use std::fmt::Write;

pub fn c15() -> Check {
    Check::new("C15", "a generated type compared, per contract, with the same type whose attributes are written differently (distinct by type pair), where some attribute differs in form")
}
pub fn run_c15(ck: &mut Check) {
    labrun::campaign(ck, &Lab { name: "c15", units: (280, 900), unit_len: 700, cases: (40, 40), case_len: 20, report_compile_errors: false, generate: &generate });
}

const SPELLINGS: usize = 3;

fn keyword(item: &str) -> &str {
    item.split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap()
}

/// A different value for the same attribute, to be overridden.
fn conflicting(item: &str, level: Level, s: &mut Src) -> String {
    let k = keyword(item);
    match k {
        "rename" if level != Level::Struct && level != Level::Enum && s.bool() => "rename(serialize = \"zz1\", deserialize = \"zz2\")".into(),
        "rename" => "rename = \"Zz\"".into(),
        "rename_all" | "rename_all_fields" => {
            let a = s.pick(&tyspec::CASES);
            if s.bool() {
                format!("{k} = {}", lit(a))
            } else {
                format!("{k}(serialize = {}, deserialize = {})", lit(a), lit(s.pick(&tyspec::CASES)))
            }
        }
        "tag" => "tag = \"zt\"".into(),
        "content" => "content = \"zc\"".into(),
        "default" => s.pick(&["default", "default = \"no::such_fn\""]).to_string(),
        "from" | "try_from" | "into" => format!("{k} = \"NoSuchType\""),
        "skip_serializing_if" => "skip_serializing_if = \"no::such_fn\"".into(),
        _ => item.to_string(),
    }
}

fn unset_pool(level: Level) -> &'static [&'static str] {
    match level {
        Level::Struct => &["rename = \"Zz\"", "rename_all = \"UPPERCASE\"", "deny_unknown_fields", "default", "transparent", "from = \"NoSuch\"", "try_from = \"NoSuch\"", "into = \"NoSuch\"", "tag = \"zt\"", "remote = \"NoSuch\""],
        Level::Enum => &["rename = \"Zz\"", "rename_all = \"UPPERCASE\"", "rename_all_fields = \"UPPERCASE\"", "deny_unknown_fields", "untagged", "from = \"NoSuch\"", "try_from = \"NoSuch\"", "into = \"NoSuch\"", "tag = \"zt\"", "content = \"zc\"", "remote = \"NoSuch\""],
        Level::Variant => &["rename = \"Zz\"", "rename_all = \"UPPERCASE\"", "skip", "skip_serializing", "skip_deserializing", "untagged", "with = \"no::such\""],
        Level::Field => &["rename = \"Zz\"", "default", "default = \"no::such\"", "skip", "skip_serializing", "skip_deserializing", "skip_serializing_if = \"no::such\"", "flatten", "with = \"no::such\""],
    }
}
fn ignored_pool(level: Level) -> &'static [&'static str] {
    match level {
        Level::Struct | Level::Enum => &["expecting = \"something\"", "crate = \"no_such_crate\"", "bound = \"no: Such\"", "bound(serialize = \"\")", "variant_identifier", "field_identifier", "from_some_other_version = 3"],
        Level::Variant => &["alias = \"zz\"", "other", "borrow", "bound = \"\"", "deserialize_with = \"no::such\""],
        Level::Field => &["alias = \"zz\"", "alias = \"yy\"", "bound = \"no: Such\"", "bound(deserialize = \"\")", "borrow", "borrow = \"'a\"", "getter = \"no::such\"", "deserialize_with = \"no::such\""],
    }
}

fn spell(s: &mut Src, it: Items, forms: &mut Vec<String>) -> Vec<String> {
    let (mut sd, mut sc): (Vec<String>, Vec<String>) = (it.serde.clone(), vec![]);
    let container = matches!(it.level, Level::Struct | Level::Enum);
    // `skip` is the two one-way attributes together
    let mut shared = vec![];
    for i in &it.shared {
        if i == "skip" && s.bool() {
            shared.extend(["skip_serializing".to_string(), "skip_deserializing".to_string()]);
            forms.push("skip as two".into());
        } else {
            shared.push(i.clone());
        }
    }
    let has = |k: &str| it.shared.iter().chain(&it.own).chain(&shared).any(|i| keyword(i) == k);
    for i in &shared {
        // (the schemars spelling of a container's rename has no serialize/deserialize form)
        let asym = container && i.starts_with("rename(");
        let mode = if asym { 0 } else { s.below(4) };
        match mode {
            0 => sd.push(i.clone()),
            1 => sc.push(i.clone()),
            2 => {
                sd.push(i.clone());
                sc.push(i.clone());
            }
            _ => {
                sd.push(conflicting(i, it.level, s));
                sc.push(i.clone());
            }
        }
        forms.push(format!("{} as {}", keyword(i), ["serde", "schemars", "both", "schemars over serde"][mode]));
    }
    for i in &it.own {
        sc.push(i.clone());
    }
    if s.chance(1, 3) {
        let i = *s.pick(unset_pool(it.level));
        let k = keyword(i);
        let with = k == "with" && it.serde.iter().any(|x| keyword(x) == "with");
        let in_serde = sd.iter().any(|x| keyword(x) == k);
        if !has(k) && !with && !in_serde {
            sd.push(i.to_string());
            sc.push(format!("!{k}"));
            forms.push(format!("!{k}"));
        }
    }
    // `skip` covers what serde says about skipping one way
    if sc.iter().any(|i| i == "skip") && s.bool() && !sd.iter().any(|i| keyword(i).starts_with("skip")) {
        sd.push(s.pick(&["skip_serializing", "skip_deserializing"]).to_string());
        forms.push("skip over skip_*".into());
    }
    if s.chance(1, 3) {
        let i = *s.pick(ignored_pool(it.level));
        if !sd.iter().any(|x| keyword(x) == keyword(i)) {
            sd.push(i.to_string());
            forms.push(format!("ignored {}", keyword(i)));
        }
    }
    let mut lines = vec![];
    for (name, mut items) in [("serde", sd), ("schemars", sc)] {
        // any order, except that repeatable items keep theirs
        for k in (1..items.len()).rev() {
            let j = s.below(k + 1);
            let rep = |i: &String| matches!(keyword(i), "extend" | "example" | "transform");
            if !(j..=k).any(|x| rep(&items[x])) {
                items.swap(j, k);
            }
        }
        while !items.is_empty() {
            let n = 1 + s.below(items.len());
            let rest = items.split_off(n);
            let mut l = format!("{name}({}{})", items.join(", "), if s.chance(1, 4) { "," } else { "" });
            if s.chance(1, 8) {
                l = format!("cfg_attr(all(), {l})");
                forms.push("cfg_attr".into());
            }
            lines.push(format!("#[{l}]"));
            items = rest;
        }
        if s.chance(1, 25) {
            lines.push(format!("#[{name}()]"));
            forms.push("empty list".into());
        }
    }
    let mut out = vec![];
    for r in &it.raw {
        out.push(match r.strip_prefix("///") {
            Some(t) => match s.below(4) {
                0 => r.clone(),
                1 => format!("#[doc = {}]", lit(t)),
                2 => format!("#[doc = r##\"{t}\"##]"),
                _ => format!("/**{t}*/"),
            },
            None => r.clone(),
        });
    }
    // attributes and comments of one kind keep their order
    for l in lines {
        let rep = ["extend", "example", "transform"].iter().any(|k| l.contains(k));
        let lo = if rep { out.iter().rposition(|x: &String| x.contains("schemars")).map_or(0, |p| p + 1) } else { 0 };
        let at = lo + s.below(out.len() - lo + 1);
        out.insert(at, l);
    }
    out
}

/// Own attributes and comments, so that there is more to reorder.
fn decorate(m: &mut Module, s: &mut Src) {
    let meta = |a: &mut tyspec::Attrs, s: &mut Src, variant: bool| {
        let n = if s.chance(1, 3) { 1 + s.below(3) } else { 0 };
        let mut used = vec![];
        for _ in 0..n {
            let k = s.below(5);
            if used.contains(&k) || (variant && !a.raw.is_empty() && k > 2) {
                continue;
            }
            used.push(k);
            match k {
                0 => a.own.push("title = \"A title\"".into()),
                1 => a.own.push("description = \"Words, and \\\"more\\\" words\"".into()),
                2 => a.own.push("extend(\"x-ext\" = [1, {\"a\": null}], \"x-two\" = true)".into()),
                3 => a.own.push("example = 5".into()),
                _ => {
                    a.raw.push("/// A comment.".into());
                    if s.bool() {
                        a.raw.push("/// With a second line".into());
                    }
                }
            }
        }
    };
    for d in &mut m.defs {
        meta(&mut d.a, s, false);
        match &mut d.body {
            Body::Struct(_, fs) => fs.iter_mut().for_each(|f| meta(&mut f.a, s, false)),
            Body::Enum(_, vs) => vs.iter_mut().for_each(|v| {
                meta(&mut v.a, s, true);
                v.fields.iter_mut().for_each(|f| meta(&mut f.a, s, false))
            }),
        }
    }
}

fn generate(name: &str, s: &mut Src) -> UnitSrc {
    let cfg = TyCfg { max_defs: 3, ..TyCfg::default() };
    let mut m = tyspec::module(s, &cfg);
    let user = |t: &Ty| user_has(t, &mut |t| matches!(t, Ty::User(..) | Ty::Param(_)));
    for d in &mut m.defs {
        let simple = tyspec::def_types(d).all(|t| !user(t));
        d.default = matches!(d.body, Body::Struct(Shape::Named, _)) && !d.transparent && simple && d.params == 0 && (d.default || s.chance(1, 6));
        if d.default {
            d.a.raw.push("#[derive(Default)]".into());
        }
        let fix = |f: &mut tyspec::Field| {
            if user(&f.ty) {
                f.default = None;
                if !f.skip_ser {
                    f.skip_de = false;
                }
            }
            f.skip_if = f.skip_if.as_ref().map(|_| "vh::lab::empty".into());
        };
        match &mut d.body {
            Body::Struct(_, fs) => fs.iter_mut().for_each(fix),
            Body::Enum(_, vs) => vs.iter_mut().for_each(|v| v.fields.iter_mut().for_each(fix)),
        }
    }
    decorate(&mut m, s);
    let head = "    use vh::lab::prelude::*;\n    use vh::ext::prelude::*;\n";
    let body = |m: &Module| -> String {
        let mut o = String::from(head);
        for k in 0..m.defs.len() {
            o.push_str(&m.def_src(k, Flavour::Main, "JsonSchema", false));
            for f in tyspec::def_fields(&m.defs[k]) {
                let n = m.default_fn(k, f);
                if matches!(f.default, Some(Some(_))) && !o.contains(&format!("fn {n}(")) {
                    writeln!(o, "    pub fn {n}() -> {} {{ Default::default() }}", m.ty(&f.ty)).unwrap();
                }
            }
        }
        for (i, r) in m.roots.iter().enumerate() {
            writeln!(o, "    pub type Root{i} = {};", m.ty(r)).unwrap();
        }
        o
    };
    let mut o = format!("pub mod {name} {{\n    pub mod a {{\n{}    }}\n", body(&m));
    let n = m.roots.len();
    let mut roots: Vec<String> = (0..n).map(|i| format!("vh::lab::Root::new::<{name}::a::Root{i}>(\"Root{i}\")")).collect();
    let mut metas = vec![];
    for v in 0..SPELLINGS {
        let seed = s.u64();
        let forms = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
        let f2 = forms.clone();
        let c = crate::lab::choices(seed, 3000);
        let pos = std::cell::Cell::new(0);
        let src = tyspec::spelled(
            Box::new(move |it| {
                let p = pos.get();
                pos.set(p + 40);
                spell(&mut Src::new(&c[p.min(c.len())..]), it, &mut f2.borrow_mut())
            }),
            || body(&m),
        );
        write!(o, "    pub mod b{v} {{\n{src}    }}\n").unwrap();
        roots.extend((0..n).map(|i| format!("vh::lab::Root::new::<{name}::b{v}::Root{i}>(\"b{v}::Root{i}\")")));
        metas.push(json!(*forms.borrow()));
    }
    o.push_str("}\n");
    UnitSrc { source: o, roots, meta: json!({"n": n, "forms": metas}) }
}

pub fn check(ctx: &mut Ctx, s: &mut Src, st: &mut Stats) -> CaseResult {
    let n = ctx.meta["n"].as_u64().unwrap() as usize;
    let (i, v, ser) = (s.below(n), s.below(SPELLINGS), s.bool());
    let mut get = |k: usize| {
        let r = ctx.unit.roots[k].clone();
        ctx.cached(&format!("{k} {ser}"), || {
            let mut set = SchemaSettings::draft2020_12();
            set.untagged_enum_variant_titles = true;
            (r.schema)(&if ser { set.for_serialize() } else { set }).to_value()
        })
    };
    let (a, b) = (get(i), get(n * (1 + v) + i));
    let forms = &ctx.meta["forms"][v];
    let case = || json!({"canonical": *a, "respelled": *b, "forms": forms});
    if !forms.as_array().unwrap().is_empty() && st.nontrivial(&(ctx.unit.name, i, v, ser), case) {
        for f in forms.as_array().unwrap() {
            st.class(&format!("types with {}", f.as_str().unwrap()));
        }
    }
    if a != b {
        let at = crate::equiv::same(&a, &b, false).err().unwrap_or_else(|| "definitions".into());
        return fail("schema-differs", format!("{} Root{i} ({}): attributes written differently give another schema: {at}", ctx.unit.name, if ser { "serialize" } else { "deserialize" }), case());
    }
    Ok(())
}
