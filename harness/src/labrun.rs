//! Writes, builds and runs generated programs whose types are checked by `checks::lab`.
use crate::lab::choices;
use crate::run::*;
use crate::src::Src;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct UnitSrc {
    /// a module named by the generator's first argument
    pub source: String,
    /// expressions of type `vh::lab::Root`
    pub roots: Vec<String>,
    pub meta: Value,
}

#[derive(Clone)]
struct Unit {
    name: String,
    choices: Vec<u32>,
    src: UnitSrc,
}

pub struct Lab<'a> {
    pub name: &'a str,
    /// modules generated (quick, thorough)
    pub units: (usize, usize),
    pub unit_len: usize,
    /// cases per module (quick, thorough)
    pub cases: (usize, usize),
    pub case_len: usize,
    /// report modules that fail to compile only because of JsonSchema
    pub report_compile_errors: bool,
    pub generate: &'a (dyn Fn(&str, &mut Src) -> UnitSrc + Sync),
}

const BINS: usize = 8;

fn target_dir() -> String {
    std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| format!("{}/target", verif_dir()))
}

pub fn manifest(pkg: &str) -> String {
    let v = verif_dir();
    let h = std::fs::read_to_string(format!("{v}/harness/Cargo.toml")).expect("harness manifest");
    let schemars = h.lines().find(|l| l.starts_with("schemars =")).expect("schemars dependency");
    format!(
        r#"[workspace]
[package]
name = "{pkg}"
version = "0.0.0"
edition = "2021"
publish = false
[dependencies]
vh = {{ path = "{v}/harness" }}
{schemars}
serde = {{ version = "1.0", features = ["derive", "rc"] }}
serde_json = {{ version = "1.0", features = ["raw_value"] }}
[profile.dev]
opt-level = 0
debug = 0
incremental = false
overflow-checks = true
[profile.dev.package."*"]
opt-level = 1
debug = 0
"#
    )
}

/// Text of one program and the line ranges of its units.
fn program(units: &[Unit]) -> (String, Vec<(String, usize, usize)>) {
    let mut o = String::from("#![allow(warnings)]\n");
    let mut ranges = vec![];
    for u in units {
        let a = o.lines().count() + 1;
        o.push_str(&u.src.source);
        if !o.ends_with('\n') {
            o.push('\n');
        }
        ranges.push((u.name.clone(), a, o.lines().count()));
    }
    o.push_str("fn main() {\n    vh::lab::main(vec![\n");
    for u in units {
        let a = o.lines().count() + 1;
        writeln!(o, "        vh::lab::Unit {{ name: {:?}, meta: {}, roots: vec![", u.name, crate::tyspec::lit(&u.src.meta.to_string())).unwrap();
        for r in &u.src.roots {
            writeln!(o, "            {r},").unwrap();
        }
        o.push_str("        ] },\n");
        ranges.push((u.name.clone(), a, o.lines().count()));
    }
    o.push_str("    ]);\n}\n");
    (o, ranges)
}

/// A compiler error and the (file, line) places it mentions.
pub struct Diag {
    pub text: String,
    pub places: Vec<(String, usize)>,
}

fn places(v: &Value, out: &mut Vec<(String, usize)>) {
    let mut span = Some(v);
    while let Some(s) = span {
        if let (Some(f), Some(l)) = (s["file_name"].as_str(), s["line_start"].as_u64()) {
            out.push((f.to_string(), l as usize));
        }
        span = s["expansion"].get("span").filter(|x| x.is_object());
    }
}

/// Builds (or checks) a package; returns the compiler errors.
pub fn cargo(dir: &str, args: &[&str]) -> Result<Vec<Diag>, String> {
    let out = Command::new("cargo")
        .args(args)
        .args(["--offline", "--quiet", "--message-format=json", "--keep-going"])
        .current_dir(dir)
        .env("CARGO_TARGET_DIR", target_dir())
        .env("CARGO_NET_OFFLINE", "true")
        .env("RUSTFLAGS", "")
        .stdin(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    let mut diags = vec![];
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        if v["reason"] != "compiler-message" || !v["message"]["level"].as_str().is_some_and(|l| l.starts_with("error")) {
            continue;
        }
        let m = &v["message"];
        let mut p = vec![];
        for s in m["spans"].as_array().into_iter().flatten() {
            places(s, &mut p);
        }
        for c in m["children"].as_array().into_iter().flatten() {
            for s in c["spans"].as_array().into_iter().flatten() {
                places(s, &mut p);
            }
        }
        diags.push(Diag { text: m["rendered"].as_str().unwrap_or("").to_string(), places: p });
    }
    if !out.status.success() && diags.is_empty() {
        return Err(String::from_utf8_lossy(&out.stderr).chars().take(4000).collect());
    }
    Ok(diags)
}

struct Ran {
    stats: Stats,
    known: BTreeMap<String, u64>,
    /// unit, failure report
    fails: Vec<(String, Value)>,
    /// unit, compiler output
    broken: Vec<(String, String)>,
}

fn lab_dir(name: &str) -> String {
    format!("{}/lab/{name}", target_dir())
}

fn prepare(name: &str, bins: &[Vec<Unit>]) -> Vec<Vec<(String, usize, usize)>> {
    let dir = lab_dir(name);
    let _ = std::fs::remove_dir_all(format!("{dir}/src"));
    std::fs::create_dir_all(format!("{dir}/src/bin")).expect("create lab directory");
    std::fs::write(format!("{dir}/Cargo.toml"), manifest(&format!("lab_{name}"))).expect("write manifest");
    std::fs::copy(format!("{}/harness/Cargo.lock", verif_dir()), format!("{dir}/Cargo.lock")).expect("copy lock file");
    bins.iter()
        .enumerate()
        .map(|(k, b)| {
            let (text, ranges) = program(b);
            std::fs::write(format!("{dir}/src/bin/{name}_{k}.rs"), text).expect("write program");
            ranges
        })
        .collect()
}

/// Compiles the units, dropping those that fail; returns the broken ones.
fn build(name: &str, bins: &mut Vec<Vec<Unit>>) -> Vec<(String, String)> {
    let mut broken: Vec<(String, String)> = vec![];
    for round in 0..6 {
        bins.retain(|b| !b.is_empty());
        if bins.is_empty() {
            return broken;
        }
        let ranges = prepare(name, bins);
        let diags = match cargo(&lab_dir(name), &["build"]) {
            Ok(d) => d,
            Err(e) => panic!("cargo failed: {e}"),
        };
        if diags.is_empty() {
            return broken;
        }
        let mut bad: BTreeMap<String, String> = BTreeMap::new();
        for d in &diags {
            for (f, l) in &d.places {
                let Some(k) = f.strip_prefix(&format!("src/bin/{name}_")).and_then(|x| x.strip_suffix(".rs")).and_then(|x| x.parse::<usize>().ok()) else { continue };
                if let Some((u, _, _)) = ranges[k].iter().find(|(_, a, b)| a <= l && l <= b) {
                    bad.entry(u.clone()).or_default().push_str(&d.text);
                }
            }
        }
        if bad.is_empty() || round == 5 {
            panic!("generated programs do not compile: {}", diags.iter().map(|d| d.text.as_str()).collect::<String>().chars().take(6000).collect::<String>());
        }
        for b in bins.iter_mut() {
            b.retain(|u| !bad.contains_key(&u.name));
        }
        broken.extend(bad);
    }
    broken
}

fn split(units: &[Unit]) -> Vec<Vec<Unit>> {
    // balance by source length
    let mut bins: Vec<(usize, Vec<Unit>)> = (0..BINS).map(|_| (0, vec![])).collect();
    for u in units {
        let b = bins.iter_mut().min_by_key(|b| b.0).unwrap();
        b.0 += u.src.source.len();
        b.1.push(u.clone());
    }
    bins.into_iter().map(|b| b.1).filter(|b| !b.is_empty()).collect()
}

fn run(ck: &Check, lab: &Lab, units: &[Unit], cases: usize, only: Option<(&str, &str)>) -> Ran {
    let mut bins = split(units);
    let broken = build(lab.name, &mut bins);
    let known = serde_json::to_string(&ck.known_signatures()).unwrap();
    let outs: Vec<(String, Option<i32>, String)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..bins.len())
            .map(|k| {
                let known = known.clone();
                sc.spawn(move || {
                    let mut c = Command::new(format!("{}/debug/{}_{k}", target_dir(), lab.name));
                    c.args([ck.prop.as_str(), &ck.seed.to_string(), &cases.to_string(), &lab.case_len.to_string()]);
                    if let Some((u, ch)) = only {
                        c.args([u, ch]);
                    }
                    let o = c.env("VH_KNOWN", known).stdin(Stdio::null()).output().expect("run generated program");
                    (String::from_utf8_lossy(&o.stdout).into_owned(), o.status.code(), String::from_utf8_lossy(&o.stderr).into_owned())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut r = Ran { stats: Stats::default(), known: BTreeMap::new(), fails: vec![], broken };
    for (out, code, err) in outs {
        let mut current = String::new();
        let mut done = false;
        for l in out.lines() {
            let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
            if let Some(u) = v["start"].as_str() {
                current = u.to_string();
            } else if let Some(u) = v["fail"].as_str() {
                r.fails.push((u.to_string(), v.clone()));
            } else if v["stats"].is_object() {
                done = true;
                let s = &v["stats"];
                let mut st = Stats::default();
                st.evaluations = s["evaluations"].as_u64().unwrap();
                st.distinct = s["distinct"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                st.classes = s["classes"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap())).collect();
                st.samples = s["samples"].as_array().unwrap().clone();
                r.stats.merge(st);
                for (k, n) in s["known"].as_object().unwrap() {
                    *r.known.entry(k.clone()).or_default() += n.as_u64().unwrap();
                }
            }
        }
        if !done {
            let e: String = err.chars().take(800).collect();
            r.fails.push((current.clone(), json!({"fail": current, "sig": "died", "msg": format!("the generated program died ({code:?}) in {current}: {e}"), "case": null, "choices": []})));
        }
    }
    r
}

/// Runs the generated-type campaign of a property.
pub fn campaign(ck: &mut Check, lab: &Lab) {
    if let Some(v) = ck.replay_value() {
        if v["campaign"] == lab.name {
            replay(ck, lab, &v);
        }
        return;
    }
    if ck.replaying() {
        return;
    }
    let t0 = Instant::now();
    let (n, cases) = if ck.thorough() { (lab.units.1, lab.cases.1) } else { (lab.units.0, lab.cases.0) };
    let units: Vec<Unit> = (0..n)
        .map(|i| {
            let c = choices(hash64(&(ck.seed, ck.prop.as_str(), lab.name, i as u64)), lab.unit_len);
            let name = format!("u{i}");
            Unit { src: (lab.generate)(&name, &mut Src::new(&c)), name, choices: c }
        })
        .collect();
    let r = run(ck, lab, &units, cases, None);
    let mut st = r.stats;
    let roots: usize = units.iter().map(|u| u.src.roots.len()).sum();
    let summary = json!({
        "modules_generated": units.len(), "types_checked": roots, "modules_not_compiling": r.broken.len(),
        "evaluations": st.evaluations, "distinct_nontrivial": st.distinct.len(), "classes": st.classes,
        "wall_s": (t0.elapsed().as_secs_f64()*100.0).round()/100.0,
    });
    for (k, v) in r.known {
        ck.known_hit(&k, v);
    }
    st.classes.clear();
    ck.absorb(lab.name, st, summary);
    if std::env::var("VH_SHOW").is_ok() {
        for (u, t) in &r.broken {
            eprintln!("BROKEN {u}: {}", t.chars().take(1500).collect::<String>());
        }
        for (u, v) in &r.fails {
            eprintln!("FAIL {u} {} {}", v["sig"], v["msg"]);
            if let (Ok(dir), Some(unit)) = (std::env::var("VH_SHOW"), units.iter().find(|x| x.name == *u)) {
                let _ = std::fs::write(format!("{dir}/{}_{u}.txt", lab.name), format!("{}\n{}\n{}\n\n{}\n{}", v["sig"], v["msg"].as_str().unwrap_or(""), v["case"], unit.src.source, unit.src.meta));
            }
        }
    }
    if lab.report_compile_errors {
        report_broken(ck, lab, &units, &r.broken);
    } else if r.broken.len() * 2 > units.len() {
        panic!("most generated modules do not compile: {}", r.broken[0].1);
    }
    if r.fails.is_empty() || std::env::var("VH_SHOW").is_ok() {
        return;
    }
    // shrink one failure per signature
    let mut seen = BTreeSet::new();
    for (u, v) in &r.fails {
        let sig = v["sig"].as_str().unwrap().to_string();
        if !seen.insert(sig.clone()) || seen.len() > 3 {
            continue;
        }
        let Some(unit) = units.iter().find(|x| x.name == *u) else { continue };
        let (unit, v) = if sig == "died" { (unit.clone(), v.clone()) } else { shrink(ck, lab, unit.clone(), v.clone(), cases) };
        record(ck, lab, &unit, &v);
    }
}

fn record(ck: &mut Check, lab: &Lab, unit: &Unit, v: &Value) {
    let seed = ck.seed;
    let tier = ck.tier.clone();
    let prop = ck.prop.clone();
    ck.record_violation(json!({
        "property": prop, "campaign": lab.name, "sig": v["sig"], "message": v["msg"], "choices": v["choices"],
        "case": v["case"], "seed": seed, "tier": tier, "unit": unit.name, "unit_choices": unit.choices,
        "source": unit.src.source, "roots": unit.src.roots, "meta": unit.src.meta,
    }));
}

fn replay(ck: &mut Check, lab: &Lab, v: &Value) {
    ck.replay_hit = true;
    let unit = Unit {
        name: v["unit"].as_str().unwrap().into(),
        choices: vec![],
        src: UnitSrc {
            source: v["source"].as_str().unwrap().into(),
            roots: v["roots"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
            meta: v["meta"].clone(),
        },
    };
    if v["sig"] == "does-not-compile" {
        let mut bins = vec![vec![unit.clone()]];
        let b = build_one(lab.name, &mut bins);
        if let Some((_, t)) = b.into_iter().next() {
            record(ck, lab, &unit, &json!({"sig": "does-not-compile", "msg": t, "case": null, "choices": []}));
        }
        return;
    }
    let ch = v["choices"].to_string();
    let r = run(ck, lab, &[unit.clone()], 1, Some((&unit.name, &ch)));
    for (_, f) in r.fails {
        record(ck, lab, &unit, &f);
    }
}

fn build_one(name: &str, bins: &mut Vec<Vec<Unit>>) -> Vec<(String, String)> {
    build(name, bins)
}

/// Batch shrinking of a unit's choice sequence: many candidates are compiled at once.
fn shrink(ck: &Check, lab: &Lab, unit: Unit, v: Value, cases: usize) -> (Unit, Value) {
    let t0 = Instant::now();
    let (mut best, mut bestv) = (unit, v);
    let sig = bestv["sig"].as_str().unwrap().to_string();
    for _ in 0..6 {
        if t0.elapsed() > Duration::from_secs(100) {
            break;
        }
        let mut cands: Vec<Vec<u32>> = vec![];
        let b = &best.choices;
        let used = b.iter().rposition(|x| *x != 0).map_or(0, |p| p + 1);
        for size in [64usize, 32, 16, 8, 4, 2, 1] {
            let mut i = 0;
            while i < used {
                let j = (i + size).min(used);
                let mut c = b.clone();
                c[i..j].iter_mut().for_each(|x| *x = 0);
                cands.push(c);
                let mut c = b[..used].to_vec();
                c.drain(i..j);
                cands.push(c);
                i += size;
            }
            cands.push(b[..used.saturating_sub(size)].to_vec());
        }
        let mut seen = BTreeSet::new();
        let mut us: Vec<Unit> = vec![];
        for c in cands {
            let name = format!("u{}", us.len());
            let src = (lab.generate)(&name, &mut Src::new(&c));
            let norm = (lab.generate)(&best.name, &mut Src::new(&c)).source;
            if norm.len() < best.src.source.len() && seen.insert(norm) {
                us.push(Unit { name, choices: c, src });
            }
        }
        us.sort_by_key(|u| u.src.source.len());
        // a spread of sizes
        let step = (us.len() / 96).max(1);
        let us: Vec<Unit> = us.into_iter().step_by(step).collect();
        if us.is_empty() {
            break;
        }
        let r = run(ck, lab, &us, cases, None);
        let win = r
            .fails
            .into_iter()
            .filter(|(_, v)| v["sig"] == sig.as_str())
            .filter_map(|(u, v)| us.iter().find(|x| x.name == u).map(|x| (x.clone(), v)))
            .min_by_key(|(u, _)| u.src.source.len());
        match win {
            Some((u, v)) => {
                best = u;
                bestv = v;
            }
            None => break,
        }
    }
    (best, bestv)
}

/// Units that compile without the JsonSchema derive but not with it.
fn report_broken(ck: &mut Check, lab: &Lab, units: &[Unit], broken: &[(String, String)]) {
    for (u, text) in broken.iter().take(3) {
        if let Some(unit) = units.iter().find(|x| x.name == *u) {
            record(ck, lab, unit, &json!({"sig": "does-not-compile", "msg": text.chars().take(2500).collect::<String>(), "case": null, "choices": []}));
        }
    }
}
