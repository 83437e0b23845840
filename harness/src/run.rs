//! Drives checks: proptest campaigns over choice sequences, fixed regression cases, known findings,
//! evidence and replay files.
use crate::src::Src;
use proptest::prelude::*;
use proptest::test_runner::{Config, RngSeed, TestCaseError, TestError, TestRunner};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Debug, Clone)]
pub struct Fail {
    /// stable signature of the specific thing that fails, matched against known findings
    pub sig: String,
    pub msg: String,
    pub case: Value,
}
pub type CaseResult = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>, case: Value) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into(), case })
}

pub fn hash64<T: Hash>(t: &T) -> u64 {
    // fixed-key hasher: stable from run to run
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new_with_keys(1, 2);
    t.hash(&mut h);
    h.finish()
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
}

impl Stats {
    pub fn class(&mut self, c: &str) {
        *self.classes.entry(c.to_string()).or_default() += 1;
    }
    pub fn class_n(&mut self, c: &str, n: u64) {
        *self.classes.entry(c.to_string()).or_default() += n;
    }
    /// Records a non-trivial case.
    /// True if it is a new one.
    pub fn nontrivial<T: Hash>(&mut self, key: &T, sample: impl FnOnce() -> Value) -> bool {
        let new = self.distinct.insert(hash64(key));
        if new && self.samples.len() < 3 && self.distinct.len() % 7 == 3 {
            let mut s = sample();
            if s.to_string().len() > 4000 {
                s = Value::String(s.to_string().chars().take(4000).collect::<String>() + "…");
            }
            self.samples.push(s);
        }
        new
    }
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 8 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Check {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub stats: Stats,
    pub campaigns: BTreeMap<String, Value>,
    pub extra: serde_json::Map<String, Value>,
    start: Instant,
    known: std::sync::Arc<Known>,
    violations: Vec<(String, Value)>,
    replay: Option<(String, Vec<u32>)>,
    replay_value: Option<Value>,
    pub replay_hit: bool,
}

struct Known {
    list: Vec<(String, String)>,
    hit: Mutex<BTreeMap<String, (String, u64)>>,
}
impl Known {
    fn is_known(&self, f: &Fail) -> bool {
        if let Some((sig, what)) = self.list.iter().find(|(s, _)| *s == f.sig) {
            let mut k = self.hit.lock().unwrap();
            let e = k.entry(sig.clone()).or_insert_with(|| (what.clone(), 0));
            e.1 += 1;
            true
        } else {
            false
        }
    }
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn seed_from_env() -> u64 {
    let s = std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into());
    s.trim().parse::<u64>().unwrap_or_else(|_| hash64(&s))
}

pub fn tier_from_env() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        LAST_PANIC.with(|l| *l.borrow_mut() = s);
    }));
}

/// Runs a closure, turning a panic of the code under test into an error message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

impl Check {
    pub fn new(prop: &str, rule: &str) -> Check {
        install_panic_hook();
        let known = load_known(prop);
        Check {
            prop: prop.into(),
            tier: tier_from_env(),
            seed: seed_from_env(),
            rule: rule.into(),
            assumptions: vec![],
            stats: Stats::default(),
            campaigns: BTreeMap::new(),
            extra: Default::default(),
            start: Instant::now(),
            known: std::sync::Arc::new(Known { list: known, hit: Mutex::new(BTreeMap::new()) }),
            violations: vec![],
            replay: None,
            replay_value: None,
            replay_hit: false,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn set_replay(&mut self, campaign: &str, choices: Vec<u32>) {
        self.replay = Some((campaign.into(), choices));
    }
    pub fn set_replay_value(&mut self, v: Value) {
        self.replay_value = Some(v);
    }
    pub fn replay_value(&self) -> Option<Value> {
        self.replay_value.clone()
    }
    pub fn replaying(&self) -> bool {
        self.replay.is_some()
    }
    pub fn known_signatures(&self) -> Vec<String> {
        self.known.list.iter().map(|(s, _)| s.clone()).collect()
    }
    pub fn known_hit(&self, sig: &str, n: u64) {
        if let Some((s, what)) = self.known.list.iter().find(|(s, _)| s == sig) {
            self.known.hit.lock().unwrap().entry(s.clone()).or_insert_with(|| (what.clone(), 0)).1 += n;
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }

    fn is_known(&self, f: &Fail) -> bool {
        self.known.is_known(f)
    }

    /// A fixed case (regression input) that bypasses the generator.
    pub fn fixed(&mut self, name: &str, f: impl FnOnce(&mut Stats) -> CaseResult) {
        if let Some((c, _)) = &self.replay {
            if c != name {
                return;
            }
            self.replay_hit = true;
        }
        let mut st = Stats::default();
        st.evaluations = 1;
        let r = match guard(|| f(&mut st)) {
            Ok(r) => r,
            Err(p) => fail("panic", format!("panic: {p}"), Value::Null),
        };
        self.stats.merge(st);
        if let Err(e) = r {
            if !self.is_known(&e) {
                self.violation(name, &e, None);
            }
        }
    }

    fn violation(&mut self, campaign: &str, e: &Fail, choices: Option<&[u32]>) {
        let v = json!({
            "property": self.prop, "campaign": campaign, "sig": e.sig, "message": e.msg,
            "choices": choices, "case": e.case, "seed": self.seed, "tier": self.tier,
        });
        self.record_violation(v);
    }

    pub fn record_violation(&mut self, v: Value) {
        let dir = format!("{}/replays/{}", verif_dir(), self.prop);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{:016x}.json", hash64(&v.to_string()));
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        let m = v["message"].as_str().unwrap_or("").to_string();
        eprintln!("--- [{}] {}", v["campaign"].as_str().unwrap_or(""), m);
        let c = v["case"].to_string();
        eprintln!("    case: {}", c.chars().take(3000).collect::<String>());
        println!("VIOLATION property={} replay={}", self.prop, path);
        self.violations.push((path, v));
    }

    /// Runs `quick`/`thorough` cases of `f`, sharded over threads.
    pub fn campaign<F>(&mut self, name: &str, quick: u32, thorough: u32, max_len: usize, f: F)
    where
        F: Fn(&mut Src, &mut Stats) -> CaseResult + Sync,
    {
        let known = self.known.clone();
        let wrapped = |choices: &[u32], st: &mut Stats| -> CaseResult {
            st.evaluations += 1;
            let mut src = Src::new(choices);
            let r = match guard(|| f(&mut src, st)) {
                Ok(r) => r,
                Err(p) => fail("panic", format!("panic in code under test (or harness): {p}"), Value::Null),
            };
            if src.exhausted() {
                st.class("(choice sequence used up)");
            }
            match r {
                Err(e) if known.is_known(&e) => {
                    st.class(&format!("known-finding:{}", e.sig));
                    Ok(())
                }
                r => r,
            }
        };
        if let Some((c, choices)) = &self.replay {
            if c == name {
                let mut st = Stats::default();
                let r = wrapped(choices, &mut st);
                let choices = choices.clone();
                self.replay_hit = true;
                if let Err(e) = r {
                    self.violation(name, &e, Some(&choices));
                }
            }
            return;
        }
        let t0 = Instant::now();
        let cases = if self.thorough() { thorough } else { quick };
        let shards: u32 = 8;
        let per = (cases + shards - 1) / shards;
        let results: Vec<(Stats, Option<(Vec<u32>, String)>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..shards)
                .map(|s| {
                    let wrapped = &wrapped;
                    let seed = hash64(&(self.seed, self.prop.as_str(), name, s));
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn_scoped(sc, move || {
                            let mut runner = TestRunner::new(Config {
                                cases: per,
                                failure_persistence: None,
                                rng_seed: RngSeed::Fixed(seed),
                                // shrinking is done by `minimize`
                                max_shrink_iters: 0,
                                max_local_rejects: 1,
                                ..Config::default()
                            });
                            let st = std::cell::RefCell::new(Stats::default());
                            let failed = std::cell::Cell::new(false);
                            let strat = proptest::collection::vec(any::<u32>(), (max_len * 3 / 4)..=max_len);
                            let r = runner.run(&strat, |v| {
                                let mut scratch = Stats::default();
                                let r = if failed.get() {
                                    // shrinking: do not count
                                    wrapped(&v, &mut scratch)
                                } else {
                                    wrapped(&v, &mut st.borrow_mut())
                                };
                                r.map_err(|e| {
                                    failed.set(true);
                                    TestCaseError::fail(e.msg)
                                })
                            });
                            let out = match r {
                                Ok(()) => None,
                                Err(TestError::Fail(m, v)) => Some((v, m.to_string())),
                                Err(TestError::Abort(m)) => panic!("proptest abort: {m}"),
                            };
                            (st.into_inner(), out)
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("shard thread")).collect()
        });
        let mut tot = Stats::default();
        let mut first: Option<(Vec<u32>, String)> = None;
        for (st, out) in results {
            tot.merge(st);
            if let Some((v, m)) = out {
                if first.as_ref().map_or(true, |(f, _)| v.len() < f.len()) {
                    first = Some((v, m));
                }
            }
        }
        self.campaigns.insert(
            name.into(),
            json!({"evaluations": tot.evaluations, "distinct_nontrivial": tot.distinct.len(), "classes": tot.classes,
                   "wall_s": (t0.elapsed().as_secs_f64()*100.0).round()/100.0}),
        );
        if let Some((v, m)) = first {
            let mut st = Stats::default();
            let v = minimize(v, 40, &mut |c| wrapped(c, &mut Stats::default()).err().map(|e| e.sig));
            let e = wrapped(&v, &mut st).err().unwrap_or(Fail { sig: "unreproducible".into(), msg: m, case: Value::Null });
            self.violation(name, &e, Some(&v));
        }
        tot.classes.clear();
        self.stats.merge(tot);
    }

    pub fn absorb(&mut self, name: &str, st: Stats, summary: Value) {
        self.campaigns.insert(name.into(), summary);
        self.stats.merge(st);
    }
    pub fn known_signature(&self, sig: &str) -> bool {
        self.is_known(&Fail { sig: sig.into(), msg: String::new(), case: Value::Null })
    }

    pub fn finish(mut self) -> i32 {
        for (sig, (what, n)) in self.known.hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} [{}; {} cases]", self.prop, what, sig, n);
        }
        if self.stats.samples.is_empty() {
            self.stats.samples.push(json!("(no non-trivial sample)"));
        }
        let cov = json!({
            "evaluations": self.stats.evaluations,
            "distinct_nontrivial": self.stats.distinct.len(),
            "rule": self.rule,
            "samples": self.stats.samples,
            "campaigns": self.campaigns,
            "classes": self.stats.classes,
            "extra": self.extra,
            "known_findings_hit": self.known.hit.lock().unwrap().iter().map(|(k,v)| (k.clone(), json!(v.1))).collect::<serde_json::Map<_,_>>(),
        });
        let ev = json!({
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": cov, "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64() + std::env::var("VH_PRE_WALL").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(0.0),
            "violations": self.violations.len(),
        });
        if self.replay.is_none() {
            let dir = format!("{}/evidence", verif_dir());
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(format!("{dir}/{}.json", self.prop), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
        } else if !self.replay_hit {
            eprintln!("replay: campaign not found");
            return 2;
        }
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1}s",
            self.prop,
            self.stats.evaluations,
            self.stats.distinct.len(),
            self.violations.len(),
            self.start.elapsed().as_secs_f64()
        );
        if self.violations.is_empty() {
            0
        } else {
            1
        }
    }
}

/// /verif/known_findings.jsonl: {"status":"known","property":..,"sig":..,"what":..} suppresses exactly
/// the failure with that signature; {"status":"fixed",..} entries suppress nothing.
fn load_known(prop: &str) -> Vec<(String, String)> {
    let p = format!("{}/known_findings.jsonl", verif_dir());
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    s.lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str::<Value>(l).expect("known_findings.jsonl"))
        .filter(|v| v["status"] == "known" && v["property"] == prop)
        .map(|v| (v["sig"].as_str().unwrap().to_string(), v["what"].as_str().unwrap().to_string()))
        .collect()
}

/// Shrinks a failing choice sequence, keeping the failure's signature.
pub fn minimize(start: Vec<u32>, seconds: u64, fails: &mut dyn FnMut(&[u32]) -> Option<String>) -> Vec<u32> {
    let Some(sig) = fails(&start) else { return start };
    let mut best = start;
    let mut budget = 30_000u32;
    let t0 = Instant::now();
    let mut attempt = |best: &mut Vec<u32>, cand: Vec<u32>| -> bool {
        if budget == 0 || t0.elapsed().as_secs() > seconds || cand == *best {
            return false;
        }
        budget -= 1;
        if fails(&cand).as_deref() == Some(sig.as_str()) {
            *best = cand;
            true
        } else {
            false
        }
    };
    loop {
        let before = best.clone();
        // cut the tail
        let mut cut = best.len() / 2;
        while cut > 0 {
            while best.len() >= cut && cut > 0 {
                let c = best[..best.len() - cut].to_vec();
                if !attempt(&mut best, c) {
                    break;
                }
            }
            cut /= 2;
        }
        // delete and zero blocks
        for size in [16usize, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let j = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..j);
                if attempt(&mut best, c) {
                    continue;
                }
                if best[i..j].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..j].iter_mut().for_each(|x| *x = 0);
                    attempt(&mut best, c);
                }
                i += size;
            }
        }
        // lower single choices
        for i in 0..best.len() {
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            let (mut lo, mut hi) = (0u32, best[i]);
            for _ in 0..12 {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt(&mut best, c) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
                if lo >= hi {
                    break;
                }
            }
        }
        if best == before {
            return best;
        }
    }
}
