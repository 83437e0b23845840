//! C20: the same generated program built with different cargo features of schemars.
use crate::lab::choices;
use crate::labrun;
use crate::run::*;
use crate::src::Src;
use crate::tyspec::{self, TyCfg};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::process::{Command, Stdio};

pub fn c20() -> Check {
    Check::new("C20", "a type's schema under one setting, compared between builds, where it has at least two properties or definitions")
}

/// Feature sets: name, features of schemars, whether `default-features` are on.
const ALL: &str = r#""raw_value", "arrayvec07", "bigdecimal04", "bytes1", "chrono04", "either1", "indexmap2", "jiff02", "rust_decimal1", "semver1", "smallvec1", "smol_str02", "smol_str03", "url2", "uuid1""#;
fn builds() -> Vec<(&'static str, String, bool)> {
    vec![
        ("plain", String::new(), true),
        ("ordered", "\"preserve_order\"".into(), true),
        ("all", ALL.into(), true),
        ("all-ordered", format!("{ALL}, \"preserve_order\""), true),
        ("no-std", "\"derive\"".into(), false),
    ]
}

const INTEGRATIONS: [(&str, &str); 20] = [
    ("arrayvec07", "arrayvec07::ArrayVec<u8, 3>"),
    ("arrayvec07", "arrayvec07::ArrayString<4>"),
    ("bigdecimal04", "bigdecimal04::BigDecimal"),
    ("bytes1", "bytes1::Bytes"),
    ("chrono04", "chrono04::DateTime<chrono04::Utc>"),
    ("chrono04", "chrono04::NaiveTime"),
    ("either1", "either1::Either<u8, Option<String>>"),
    ("indexmap2", "indexmap2::IndexMap<String, u8>"),
    ("indexmap2", "indexmap2::IndexSet<Option<bool>>"),
    ("jiff02", "jiff02::Timestamp"),
    ("jiff02", "jiff02::civil::Date"),
    ("rust_decimal1", "rust_decimal1::Decimal"),
    ("semver1", "semver1::Version"),
    ("smallvec1", "smallvec1::SmallVec<[u16; 2]>"),
    ("smol_str02", "smol_str02::SmolStr"),
    ("smol_str03", "smol_str03::SmolStr"),
    ("url2", "url2::Url"),
    ("uuid1", "uuid1::Uuid"),
    ("raw_value", "Box<serde_json::value::RawValue>"),
    ("", "std::collections::BTreeMap<i8, (char, [u8; 3])>"),
];

struct Unit {
    name: String,
    source: String,
    calls: Vec<String>,
    std: bool,
    size: usize,
}

struct Build {
    name: String,
    features: String,
    default: bool,
    units: Vec<usize>,
    ext: Vec<usize>,
}

fn target_dir() -> String {
    std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| format!("{}/target", verif_dir()))
}

fn harness_line(dep: &str) -> String {
    let h = std::fs::read_to_string(format!("{}/harness/Cargo.toml", verif_dir())).expect("harness manifest");
    h.lines().find(|l| l.starts_with(&format!("{dep} ="))).unwrap_or_else(|| panic!("{dep} in the harness manifest")).to_string()
}

const BINS: usize = 4;

/// Writes and builds one program per feature set; what each prints, or its compiler errors.
fn build_and_run(b: &Build, units: &[Unit]) -> Result<Vec<Value>, String> {
    let v = verif_dir();
    let dir = format!("{}/lab/c20_{}", target_dir(), b.name);
    let _ = std::fs::remove_dir_all(format!("{dir}/src"));
    std::fs::create_dir_all(format!("{dir}/src/bin")).expect("create lab directory");
    std::fs::create_dir_all(format!("{dir}/vh/src")).expect("create lab directory");
    let path = harness_line("schemars");
    let path = path.split("path = \"").nth(1).and_then(|x| x.split('"').next()).expect("schemars path").to_string();
    let profile = "[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\n[profile.dev.package.\"*\"]\nopt-level = 1\ndebug = 0\n";
    let mut deps = String::new();
    let mut done: BTreeSet<&str> = BTreeSet::new();
    for e in &b.ext {
        let f = INTEGRATIONS[*e].0;
        if !f.is_empty() && f != "raw_value" && done.insert(f) {
            deps.push_str(&harness_line(f));
            deps.push('\n');
        }
    }
    let pkg = b.name.replace('-', "_");
    let raw = if b.features.contains("raw_value") { ", features = [\"raw_value\"]" } else { "" };
    std::fs::write(
        format!("{dir}/Cargo.toml"),
        format!(
            "[workspace]\n[package]\nname = \"lab_c20_{pkg}\"\nversion = \"0.0.0\"\nedition = \"2021\"\npublish = false\n[dependencies]\nvh = {{ path = \"vh\" }}\nschemars = {{ path = \"{path}\", features = [{}], default-features = {} }}\nserde = {{ version = \"1.0\", features = [\"derive\", \"rc\"] }}\nserde_json = {{ version = \"1.0\"{raw} }}\n{deps}{profile}",
            b.features, b.default
        ),
    )
    .expect("write manifest");
    std::fs::write(
        format!("{dir}/vh/Cargo.toml"),
        format!("[package]\nname = \"vh\"\nversion = \"0.0.0\"\nedition = \"2021\"\npublish = false\n[dependencies]\nschemars = {{ path = \"{path}\", default-features = false, features = [\"derive\"] }}\nserde = {{ version = \"1.0\", features = [\"derive\", \"rc\"] }}\nserde_json = \"1.0\"\n"),
    )
    .expect("write manifest");
    let stub = include_str!("../stub/lib.rs").replace("@/", &format!("{v}/harness/src/"));
    std::fs::write(format!("{dir}/vh/src/lib.rs"), stub).expect("write stub");
    std::fs::copy(format!("{v}/harness/Cargo.lock"), format!("{dir}/Cargo.lock")).expect("copy lock file");
    for k in 0..BINS {
        let mut o = String::from("#![allow(warnings)]\n");
        let mine: Vec<&Unit> = b.units.iter().map(|i| &units[*i]).skip(k).step_by(BINS).collect();
        for u in &mine {
            o.push_str(&u.source);
        }
        o.push_str("fn main() {\n    std::panic::set_hook(Box::new(|_| ()));\n");
        for u in &mine {
            for c in &u.calls {
                writeln!(o, "    {c};").unwrap();
            }
        }
        if k == 0 {
            for e in &b.ext {
                writeln!(o, "    vh::lab::schemas::<{}>(\"ext\", {:?});", INTEGRATIONS[*e].1, INTEGRATIONS[*e].1).unwrap();
            }
        }
        o.push_str("}\n");
        std::fs::write(format!("{dir}/src/bin/c20_{pkg}_{k}.rs"), o).expect("write program");
    }
    let diags = labrun::cargo(&dir, &["build"])?;
    if !diags.is_empty() {
        return Err(diags.iter().map(|d| d.text.as_str()).collect::<String>().chars().take(4000).collect());
    }
    let outs: Vec<Result<String, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..BINS)
            .map(|k| {
                let exe = format!("{}/debug/c20_{pkg}_{k}", target_dir());
                sc.spawn(move || {
                    let o = Command::new(&exe).stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
                    if o.status.success() {
                        Ok(String::from_utf8_lossy(&o.stdout).into_owned())
                    } else {
                        Err(String::from_utf8_lossy(&o.stderr).chars().take(2000).collect())
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut lines = vec![];
    for o in outs {
        lines.extend(o?.lines().map(|l| serde_json::from_str::<Value>(l).expect("line of a generated program")));
    }
    Ok(lines)
}

/// Without what may differ: the order of `required`, and of sets that have no order.
fn normal(v: &Value, key: &str, sets: bool) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), normal(x, k, sets))).collect()),
        Value::Array(a) => {
            let mut a: Vec<Value> = a.iter().map(|x| normal(x, "", sets)).collect();
            if key == "required" || sets {
                a.sort_by_key(|x| x.to_string());
            }
            Value::Array(a)
        }
        v => v.clone(),
    }
}

pub fn run_c20(ck: &mut Check) {
    let replayed = ck.replay_value();
    if replayed.is_none() && ck.replaying() {
        return;
    }
    let t0 = std::time::Instant::now();
    let mut units: Vec<Unit> = vec![];
    let n = if ck.thorough() { 500 } else { 90 };
    let seed = replayed.as_ref().and_then(|v| v["seed"].as_u64()).unwrap_or(ck.seed);
    let only = replayed.as_ref().map(|v| v["unit"].as_str().unwrap().to_string());
    for i in 0..n {
        let name = format!("u{i}");
        if only.as_ref().is_some_and(|o| *o != name && o != "ext") {
            continue;
        }
        let c = choices(hash64(&(seed, "c20", i as u64)), 220);
        let m = tyspec::module(&mut Src::new(&c), &TyCfg::default());
        let source = m.source(&name);
        let calls = (0..m.roots.len()).map(|k| format!("vh::lab::values::<{name}::Root{k}>({name:?}, \"Root{k}\")")).collect();
        let std = source.contains("HashMap") || source.contains("HashSet");
        units.push(Unit { name, size: source.len(), source, calls, std });
    }
    if let Some(v) = &replayed {
        ck.replay_hit = true;
        for u in &mut units {
            u.source = v["source"].as_str().unwrap_or(&u.source).to_string();
        }
    }
    let every: Vec<usize> = (0..units.len()).collect();
    let no_hash: Vec<usize> = every.iter().copied().filter(|i| !units[*i].std).collect();
    let ext_all: Vec<usize> = (0..INTEGRATIONS.len()).collect();
    let plain_ext: Vec<usize> = ext_all.iter().copied().filter(|e| INTEGRATIONS[*e].0.is_empty()).collect();
    let mut bs: Vec<Build> = builds()
        .into_iter()
        .map(|(name, features, default)| Build { name: name.into(), default, units: if default { every.clone() } else { no_hash.clone() }, ext: if name.starts_with("all") { ext_all.clone() } else { plain_ext.clone() }, features })
        .collect();
    // the integrations in two random halves
    let c = choices(hash64(&(seed, "c20 halves")), 64);
    let mut s = Src::new(&c);
    let names: BTreeSet<&str> = INTEGRATIONS.iter().map(|x| x.0).filter(|x| !x.is_empty()).collect();
    let (a, b): (Vec<&str>, Vec<&str>) = names.into_iter().partition(|_| s.bool());
    for (k, h) in [a, b].iter().enumerate() {
        bs.push(Build {
            name: format!("half{k}"),
            features: h.iter().map(|f| format!("\"{f}\"")).chain((k == 1).then(|| "\"preserve_order\"".to_string())).collect::<Vec<_>>().join(", "),
            default: true,
            units: vec![],
            ext: ext_all.iter().copied().filter(|e| h.contains(&INTEGRATIONS[*e].0)).collect(),
        });
    }
    let mut st = Stats::default();
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut report = |ck: &mut Check, sig: &str, unit: &str, msg: String, case: Value| {
        if std::env::var("VH_SHOW").is_ok() {
            eprintln!("FAIL {sig} {unit} {msg} {case}");
            return;
        }
        if ck.known_signatures().iter().any(|s| s == sig) {
            ck.known_hit(sig, 1);
            return;
        }
        if !seen.insert(sig.to_string()) {
            return;
        }
        let (prop, tier) = (ck.prop.clone(), ck.tier.clone());
        let source = units.iter().find(|u| u.name == unit).map(|u| u.source.clone());
        ck.record_violation(json!({"property": prop, "campaign": "c20", "sig": sig, "message": msg, "choices": [], "case": case, "seed": seed, "tier": tier, "unit": unit, "source": source}));
    };
    // (unit, name, settings) -> build -> (text, value)
    let mut got: BTreeMap<(String, String, String), BTreeMap<usize, (String, String)>> = BTreeMap::new();
    let mut orders: Vec<(usize, Value)> = vec![];
    for (k, b) in bs.iter().enumerate() {
        let lines = match build_and_run(b, &units) {
            Ok(l) => l,
            // a type that compiles with some features only
            Err(e) => {
                if k == 0 {
                    panic!("generated programs do not build: {e}");
                }
                report(ck, "does-not-build", "", format!("the program builds with schemars's default features, but not with [{}]: {e}", b.features), json!({"features": b.features}));
                continue;
            }
        };
        for l in lines {
            if l["text"].is_string() {
                let key = (l["unit"].as_str().unwrap().to_string(), l["name"].as_str().unwrap().to_string(), l["settings"].to_string());
                got.entry(key).or_default().insert(k, (l["text"].as_str().unwrap().to_string(), l["pretty"].as_str().unwrap_or("").to_string()));
            } else {
                orders.push((k, l));
            }
        }
    }
    let hashed: BTreeSet<&str> = units.iter().filter(|u| u.std).map(|u| u.name.as_str()).collect();
    let ordered = |k: usize| bs[k].features.contains("preserve_order");
    for ((unit, name, set), by) in &got {
        let (k0, (t0, _)) = by.iter().next().unwrap();
        let sets = hashed.contains(unit.as_str());
        let parse = |t: &str| serde_json::from_str::<Value>(t).unwrap_or(Value::String(t.into()));
        let v0 = normal(&parse(t0), "", sets);
        for (k, (t, p)) in by {
            st.evaluations += 1;
            st.class(&format!("build {}", bs[*k].name));
            if k != k0 && (v0["properties"].as_object().is_some_and(|o| o.len() > 1) || v0["$defs"].as_object().is_some_and(|o| o.len() > 1) || unit == "ext") {
                st.nontrivial(&(unit, name, set, *k), || json!({"type": name, "settings": parse(set), "features": bs[*k].features, "schema": parse(t)}));
            }
            let v = normal(&parse(t), "", sets);
            if v != v0 {
                report(ck, "features-change-the-schema", unit, format!("{unit} {name} {set}: the schema differs between features [{}] and [{}]", bs[*k0].features, bs[*k].features), json!({"a": t0, "b": t}));
            }
            // how it is written does not lose or add anything
            if p != "" && parse(p) != parse(t) {
                report(ck, "serialized-form", unit, format!("{unit} {name} {set}: the schema is not what it serializes as, with features [{}]", bs[*k].features), json!({"value": p, "serialized": t}));
            }
            if !sets {
                if let Some((j, (tj, _))) = by.iter().find(|(j, _)| ordered(**j) == ordered(*k)) {
                    if tj != t {
                        report(ck, "features-change-the-order", unit, format!("{unit} {name} {set}: the order differs between features [{}] and [{}]", bs[*j].features, bs[*k].features), json!({"a": tj, "b": t}));
                    }
                }
            }
        }
    }
    for (k, l) in &orders {
        if !ordered(*k) {
            continue;
        }
        st.evaluations += 1;
        let unit = l["unit"].as_str().unwrap();
        let name = l["name"].as_str().unwrap();
        if let Some(d) = l["definitions"].as_array() {
            if d.len() > 1 {
                st.nontrivial(&(unit, name, l["settings"].to_string(), "definitions"), || l.clone());
                st.class("order of definitions");
            }
            if l["definitions"] != l["first_use"] {
                report(ck, "order-of-definitions", unit, format!("{unit} {name}: definitions are not in order of first use"), l.clone());
            }
        } else if let (Some(p), Some(f)) = (l["properties"].as_array(), l["fields"].as_array()) {
            if f.len() > 1 {
                st.nontrivial(&(unit, name, l["fields"].to_string(), "fields"), || l.clone());
                st.class("order of properties");
            }
            let at: Vec<Option<usize>> = f.iter().map(|x| p.iter().position(|y| x == y)).collect();
            if at.windows(2).any(|w| w[0] > w[1]) {
                report(ck, "order-of-properties", unit, format!("{unit} {name}: properties are not in the order of the fields"), l.clone());
            }
        }
    }
    let summary = json!({"modules": units.len(), "source_bytes": units.iter().map(|u| u.size).sum::<usize>(), "builds": bs.iter().map(|b| json!({"name": b.name, "features": b.features, "default_features": b.default})).collect::<Vec<_>>(), "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0});
    ck.absorb("c20", st, summary);
}
