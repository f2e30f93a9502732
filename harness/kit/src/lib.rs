//! Property-based testing driver shared by the harness binaries.
mod src;
pub use src::{Rng, Src};

pub mod alloc;
pub mod bytes;
pub use bytes::Bytes;

use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one executed case was.
#[derive(Default, Debug, Clone)]
pub struct Seen {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl Seen {
    pub fn new(nontrivial: bool) -> Seen {
        Seen { nontrivial, labels: vec![] }
    }
    pub fn label(mut self, on: bool, l: &'static str) -> Seen {
        if on {
            self.labels.push(l)
        }
        self
    }
}

/// Ok: the property held on the case.  Err: how it did not.
pub type Verdict = Result<Seen, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($fmt:tt)+) => { if !$c { return Err(format!($($fmt)+)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $what:expr) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {}, expected {}", $what, $crate::clip(&format!("{:?}", a)), $crate::clip(&format!("{:?}", b)))); }
    }};
}

pub fn clip(s: &str) -> String {
    if s.len() <= 600 {
        return s.to_string();
    }
    let mut n = 600;
    while !s.is_char_boundary(n) {
        n -= 1
    }
    format!("{}… ({} chars)", &s[..n], s.len())
}

type RunFn = Box<dyn Fn(&Part, &Args, &mut Report) + Send + Sync>;
type ReplayFn = Box<dyn Fn(&serde_json::Value) -> Result<Verdict, String> + Send + Sync>;
type FuzzFn = Box<dyn Fn(&[u8]) + Send + Sync>;

/// One generated check of a property.
pub struct Part {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    run: RunFn,
    replay: ReplayFn,
    pub fuzz: FuzzFn,
}

pub struct Prop {
    pub id: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
}

pub struct Args {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub out: PathBuf,
    pub scale: f64,
    pub known: Vec<Known>,
}

/// A recorded genuine defect: exactly this case of this part fails with a message containing `sig`.
#[derive(Deserialize, Clone, Debug)]
pub struct Known {
    pub property: String,
    #[serde(default)]
    pub part: String,
    #[serde(default)]
    pub what: String,
    #[serde(default)]
    pub sig: String,
    #[serde(default)]
    pub case: serde_json::Value,
    #[serde(default)]
    pub status: String,
}

#[derive(Default)]
pub struct Report {
    evaluations: u64,
    distinct: u64,
    samples: Vec<serde_json::Value>,
    parts: BTreeMap<String, serde_json::Value>,
    rules: Vec<String>,
    violations: Vec<serde_json::Value>,
    known_lines: Vec<String>,
}

struct Failure {
    index: u64,
    choices: Vec<u64>,
    spans: Vec<(usize, usize)>,
    size: usize,
    fixed: Option<serde_json::Value>,
    msg: String,
}

fn run_case<C>(check: &(impl Fn(&C) -> Verdict + ?Sized), case: &C) -> Verdict {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(case))) {
        Ok(v) => v,
        Err(p) => {
            let s = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            Err(format!("panic while executing the case: {}", s))
        }
    }
}

fn mix(seed: u64, part: &str, i: u64) -> u64 {
    let mut h = DefaultHasher::new();
    (seed, part, i).hash(&mut h);
    h.finish()
}

impl Part {
    /// `gen` builds a case from choices, `fixed` lists cases always run first, `check` decides one.
    pub fn new<C, G, F, K>(name: &'static str, rule: &'static str, quick: u64, thorough: u64, gen: G, fixed: F, check: K) -> Part
    where
        C: Serialize + DeserializeOwned + Clone + Debug + Send + Sync + 'static,
        G: Fn(&mut Src) -> C + Send + Sync + Copy + 'static,
        F: Fn() -> Vec<C> + Send + Sync + 'static,
        K: Fn(&C) -> Verdict + Send + Sync + Copy + 'static,
    {
        let run: RunFn = Box::new(move |part, args, rep| {
            let total = ((if args.tier == Tier::Quick { part.quick } else { part.thorough }) as f64 * args.scale).max(1.0) as u64;
            let started = Instant::now();
            let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) as u64;
            let fixed_cases = fixed();
            let stop = AtomicBool::new(false);
            let first: Mutex<Option<Failure>> = Mutex::new(None);
            let evals = Mutex::new(0u64);
            let nontriv: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
            let labels: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
            let samples: Mutex<BTreeMap<u64, serde_json::Value>> = Mutex::new(BTreeMap::new());
            let watch = Watch::start(args.prop, part.name);
            std::thread::scope(|sc| {
                for t in 0..threads {
                    let (stop, first, evals, nontriv, labels, samples, fixed_cases) = (&stop, &first, &evals, &nontriv, &labels, &samples, &fixed_cases);
                    let slot = watch.slot(t as usize);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            let mut n = 0u64;
                            let mut seen_set = HashSet::new();
                            let mut my_labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                            let mut my_samples: Vec<(u64, serde_json::Value)> = Vec::new();
                            let record = |idx: u64, case: &C, seen: &Seen, seen_set: &mut HashSet<u64>, my_labels: &mut BTreeMap<&'static str, u64>, my_samples: &mut Vec<(u64, serde_json::Value)>| {
                                for l in &seen.labels {
                                    *my_labels.entry(l).or_default() += 1;
                                }
                                if seen.nontrivial {
                                    let js = serde_json::to_vec(case).unwrap_or_default();
                                    let mut h = DefaultHasher::new();
                                    js.hash(&mut h);
                                    if seen_set.insert(h.finish()) && my_samples.len() < 3 && js.len() < 4000 {
                                        my_samples.push((idx, serde_json::to_value(case).unwrap_or_default()));
                                    }
                                }
                            };
                            // `index` orders failures so that the reported one does not depend on timing
                            let fail = |f: Failure| {
                                stop.store(true, Ordering::Relaxed);
                                let mut g = first.lock().unwrap();
                                if g.as_ref().map_or(true, |o| f.index < o.index) {
                                    *g = Some(f)
                                }
                            };
                            for (i, case) in fixed_cases.iter().enumerate() {
                                if i as u64 % threads != t || stop.load(Ordering::Relaxed) {
                                    continue;
                                }
                                slot.begin(i as u64);
                                let v = run_case(&check, case);
                                slot.end();
                                n += 1;
                                match v {
                                    Ok(seen) => record(i as u64, case, &seen, &mut seen_set, &mut my_labels, &mut my_samples),
                                    Err(msg) => {
                                        if !is_known(&args.known, args.prop, part.name, case, &msg) {
                                            fail(Failure { index: i as u64, choices: vec![], spans: vec![], size: 0, fixed: serde_json::to_value(case).ok(), msg });
                                            break;
                                        }
                                    }
                                }
                            }
                            let base = fixed_cases.len() as u64;
                            let mut i = t;
                            while i < total && !stop.load(Ordering::Relaxed) {
                                let size = 1 + (i * 100 / total.max(1)) as usize % 100;
                                let size = if i % 3 == 0 { 1 + (i / 3 % 100) as usize } else { size };
                                let mut s = Src::random(mix(args.seed, part.name, i), size);
                                let case = gen(&mut s);
                                slot.begin(base + i);
                                let v = run_case(&check, &case);
                                slot.end();
                                n += 1;
                                match v {
                                    Ok(seen) => record(base + i, &case, &seen, &mut seen_set, &mut my_labels, &mut my_samples),
                                    Err(msg) => {
                                        if !is_known(&args.known, args.prop, part.name, &case, &msg) {
                                            let (choices, spans) = s.into_record();
                                            fail(Failure { index: base + i, choices, spans, size, fixed: None, msg });
                                            break;
                                        }
                                    }
                                }
                                i += threads;
                            }
                            *evals.lock().unwrap() += n;
                            nontriv.lock().unwrap().extend(seen_set);
                            let mut l = labels.lock().unwrap();
                            for (k, v) in my_labels {
                                *l.entry(k).or_default() += v;
                            }
                            samples.lock().unwrap().extend(my_samples);
                        })
                        .expect("thread");
                }
            });
            let evals = evals.into_inner().unwrap();
            let distinct = nontriv.into_inner().unwrap().len() as u64;
            rep.evaluations += evals;
            rep.distinct += distinct;
            rep.rules.push(format!("{}: {}", part.name, part.rule));
            for (_, s) in samples.into_inner().unwrap().into_iter().rev().take(3) {
                rep.samples.push(serde_json::json!({"part": part.name, "case": s}));
            }
            rep.parts.insert(
                part.name.to_string(),
                serde_json::json!({
                    "evaluations": evals, "distinct_nontrivial": distinct,
                    "always_run_cases": fixed_cases.len(),
                    "labels": labels.into_inner().unwrap(),
                    "wall_s": (started.elapsed().as_secs_f64() * 100.0).round() / 100.0,
                }),
            );
            if let Some(f) = first.into_inner().unwrap() {
                let known = args.known.clone();
                let prop = args.prop;
                let pname = part.name;
                let (case, msg) = match &f.fixed {
                    Some(v) => (v.clone(), f.msg.clone()),
                    None => {
                        let slot = watch.slot(63);
                        let best = src::shrink(f.choices.clone(), f.spans.clone(), 4000, |c| {
                            let mut s = Src::replay(c.to_vec(), f.size);
                            let case = gen(&mut s);
                            slot.begin(f.index);
                            let v = run_case(&check, &case);
                            slot.end();
                            match v {
                                Err(m) if !is_known(&known, prop, pname, &case, &m) => Some(s.into_record()),
                                _ => None,
                            }
                        });
                        let mut s = Src::replay(best, f.size);
                        let case = gen(&mut s);
                        match run_case(&check, &case) {
                            Err(m) => (serde_json::to_value(&case).unwrap_or_default(), m),
                            Ok(_) => {
                                let mut s = Src::replay(f.choices.clone(), f.size);
                                let case = gen(&mut s);
                                (serde_json::to_value(&case).unwrap_or_default(), f.msg.clone())
                            }
                        }
                    }
                };
                rep.violations.push(serde_json::json!({"part": part.name, "message": msg, "case": case, "case_index": f.index}));
            }
            drop(watch);
        });
        let replay: ReplayFn = Box::new(move |v| {
            let case: C = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
            Ok(run_case(&check, &case))
        });
        let fuzz: FuzzFn = Box::new(move |b| {
            let mut s = Src::bytes(b, 60);
            let case = gen(&mut s);
            if let Err(m) = check(&case) {
                let js = serde_json::to_string(&case).unwrap_or_default();
                panic!("PROPERTY-VIOLATION {} CASE {}", m, js);
            }
        });
        Part { name, rule, quick, thorough, run, replay, fuzz }
    }
}

fn is_known<C: Serialize>(known: &[Known], prop: &str, part: &str, case: &C, msg: &str) -> bool {
    if !known.iter().any(|k| k.property == prop && k.part == part) {
        return false;
    }
    let v = serde_json::to_value(case).unwrap_or_default();
    known
        .iter()
        .any(|k| k.property == prop && k.part == part && k.case == v && msg.contains(&k.sig))
}

/// A hang of the code under test is an error of the run (exit 2), never a verdict.
struct Watch {
    slots: std::sync::Arc<Vec<Mutex<Option<(Instant, u64)>>>>,
    done: std::sync::Arc<AtomicBool>,
}
struct Slot<'a>(&'a Mutex<Option<(Instant, u64)>>);
impl Slot<'_> {
    fn begin(&self, i: u64) {
        *self.0.lock().unwrap() = Some((Instant::now(), i));
    }
    fn end(&self) {
        *self.0.lock().unwrap() = None;
    }
}
impl Watch {
    fn start(prop: &str, part: &str) -> Watch {
        let slots: std::sync::Arc<Vec<Mutex<Option<(Instant, u64)>>>> = std::sync::Arc::new((0..64).map(|_| Mutex::new(None)).collect());
        let done = std::sync::Arc::new(AtomicBool::new(false));
        let (s, d, what) = (slots.clone(), done.clone(), format!("{} {}", prop, part));
        std::thread::spawn(move || {
            while !d.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(500));
                for m in s.iter() {
                    if let Some((at, i)) = *m.lock().unwrap() {
                        if at.elapsed().as_secs() > 120 {
                            eprintln!("ERROR: {}: case {} has been running for over 120 s; giving up (no verdict)", what, i);
                            std::process::exit(2);
                        }
                    }
                }
            }
        });
        Watch { slots, done }
    }
    fn slot(&self, i: usize) -> Slot<'_> {
        Slot(&self.slots[i])
    }
}
impl Drop for Watch {
    fn drop(&mut self) {
        self.done.store(true, Ordering::Relaxed)
    }
}

fn usage() -> ! {
    eprintln!("usage: <bin> ID [quick|thorough] [--seed N] [--out DIR] [--known FILE] [--part NAME] [--scale F] | ID --replay FILE | --list | ID --fuzz PART FILE");
    std::process::exit(2)
}

/// The command line entry point of a harness binary.
pub fn main_with(props: Vec<Prop>) -> ! {
    let argv: Vec<String> = std::env::args().skip(1).collect();
    if argv.first().map(|s| s.as_str()) == Some("--list") {
        for p in &props {
            for q in &p.parts {
                println!("{} {} {} {}", p.id, q.name, q.quick, q.thorough);
            }
        }
        std::process::exit(0)
    }
    let Some(id) = argv.first() else { usage() };
    let Some(prop) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    };
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    let mut out = PathBuf::from(".");
    let mut known_file = None;
    let mut only = None;
    let mut scale = 1.0;
    let mut i = 1;
    while i < argv.len() {
        match argv[i].as_str() {
            "quick" => tier = Tier::Quick,
            "thorough" => tier = Tier::Thorough,
            "--seed" => {
                i += 1;
                seed = argv[i].parse().unwrap_or_else(|_| usage())
            }
            "--out" => {
                i += 1;
                out = PathBuf::from(&argv[i])
            }
            "--known" => {
                i += 1;
                known_file = Some(argv[i].clone())
            }
            "--part" => {
                i += 1;
                only = Some(argv[i].clone())
            }
            "--scale" => {
                i += 1;
                scale = argv[i].parse().unwrap_or_else(|_| usage())
            }
            "--replay" => {
                i += 1;
                std::process::exit(replay_file(prop, &argv[i]))
            }
            "--fuzz" => {
                let part = prop.parts.iter().find(|p| p.name == argv[i + 1]).unwrap_or_else(|| usage());
                let b = std::fs::read(&argv[i + 2]).expect("fuzz input");
                (part.fuzz)(&b);
                std::process::exit(0)
            }
            _ => usage(),
        }
        i += 1;
    }
    let known: Vec<Known> = match &known_file {
        Some(f) => load_known(f),
        None => vec![],
    };
    let started = Instant::now();
    let mut rep = Report::default();
    let args = Args { prop: prop.id, tier, seed, out: out.clone(), scale, known: known.iter().filter(|k| k.status != "fixed").cloned().collect() };
    // recorded findings: re-run each so the line says what fails today
    for k in args.known.iter().filter(|k| k.property == prop.id) {
        if let Some(p) = prop.parts.iter().find(|p| p.name == k.part) {
            rep.evaluations += 1;
            match (p.replay)(&k.case) {
                Ok(Err(m)) if m.contains(&k.sig) => rep.known_lines.push(format!("KNOWN-FINDING: property={} {}", prop.id, k.what)),
                Ok(Err(m)) => rep.violations.push(serde_json::json!({"part": p.name, "message": m, "case": k.case, "case_index": -1})),
                Ok(Ok(_)) => println!("note: known finding no longer fails: {}", k.what),
                Err(e) => {
                    eprintln!("known finding does not decode: {} ({})", k.what, e);
                    std::process::exit(2)
                }
            }
        }
    }
    for part in &prop.parts {
        if only.as_deref().map_or(false, |o| o != part.name) {
            continue;
        }
        (part.run)(part, &args, &mut rep);
    }
    for l in &rep.known_lines {
        println!("{}", l);
    }
    let rdir = out.join(".work").join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    let mut vios = Vec::new();
    for v in &rep.violations {
        let name = format!("{}-{}-{}.json", prop.id, v["part"].as_str().unwrap_or("x").replace(' ', "-"), seed);
        let path = rdir.join(&name);
        let body = serde_json::json!({"property": prop.id, "part": v["part"], "seed": seed, "message": v["message"], "case": v["case"]});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        println!("{}: {}", v["part"].as_str().unwrap_or(""), clip(v["message"].as_str().unwrap_or("")));
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        vios.push(serde_json::json!({"replay": path.display().to_string(), "part": v["part"], "message": clip(v["message"].as_str().unwrap_or(""))}));
    }
    if rep.samples.is_empty() {
        rep.samples.push(serde_json::json!("no non-trivial case small enough to print"));
    }
    let ev = serde_json::json!({
        "property": prop.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": rep.evaluations,
            "distinct_nontrivial": rep.distinct,
            "rule": rep.rules.join(" | "),
            "samples": rep.samples,
            "parts": rep.parts,
            "known_findings": rep.known_lines,
        },
        "assumptions": prop.assumptions,
        "wall_s": (started.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": vios,
    });
    let edir = out.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    if let Err(e) = std::fs::write(edir.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write the evidence file: {}", e);
        std::process::exit(2)
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {} violation(s), {:.1} s",
        prop.id,
        rep.evaluations,
        rep.distinct,
        rep.violations.len(),
        started.elapsed().as_secs_f64()
    );
    std::process::exit(if rep.violations.is_empty() { 0 } else { 1 })
}

fn load_known(f: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(f) else { return vec![] };
    let mut v = Vec::new();
    for l in s.lines() {
        // "fixed: ..." lines and comments suppress nothing
        if l.trim().is_empty() || !l.trim_start().starts_with('{') {
            continue;
        }
        match serde_json::from_str::<Known>(l) {
            Ok(k) => v.push(k),
            Err(e) => {
                eprintln!("known-findings file: {}: {}", e, l);
                std::process::exit(2)
            }
        }
    }
    v
}

fn replay_file(prop: &Prop, f: &str) -> i32 {
    let v: serde_json::Value = match std::fs::read_to_string(f).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("{}: {}", f, e);
            return 2;
        }
    };
    let Some(part) = prop.parts.iter().find(|p| Some(p.name) == v["part"].as_str()) else {
        eprintln!("no part {} in {}", v["part"], prop.id);
        return 2;
    };
    match (part.replay)(&v["case"]) {
        Err(e) => {
            eprintln!("{}", e);
            2
        }
        Ok(Ok(s)) => {
            println!("replay: property held ({:?})", s);
            0
        }
        Ok(Err(m)) => {
            println!("replay: {}", m);
            println!("VIOLATION property={} replay={}", prop.id, f);
            1
        }
    }
}
