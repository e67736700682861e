//! Runs the cases of one property, watches them, and writes verdict, evidence and replays.
//!
//! A supervisor process starts a worker process, which runs the cases on several threads.  Before
//! each case the worker notes its number in a file, so that the supervisor can name the case
//! when the worker dies (stack overflow, abort) or stops making progress; such a case is run again alone
//! under a limit of processor time before it counts.

use crate::prng::{hash_str, mix, Rng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const CPU_LIMIT_S: u64 = 60;

pub struct Violation {
    pub case: u64,
    pub what: String,
    pub replay: String,
}

/// one case of a property
pub struct Cx {
    pub case: u64,
    pub thorough: bool,
    pub r: Rng,
    pub scratch: PathBuf,
    pub violations: Vec<Violation>,
    pub counts: BTreeMap<String, u64>,
    pub keys: HashSet<u64>,
    pub sample: Option<String>,
    pub evaluations: u64,
}

impl Cx {
    pub fn fail(&mut self, what: impl Into<String>, replay: impl Into<String>) {
        if self.violations.len() < 5 {
            let case = self.case;
            self.violations.push(Violation { case, what: what.into(), replay: replay.into() });
        }
    }
    /// an observation of the monitor
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(k) {
            *c += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    /// an evaluated, non-trivial case (deduplicated by its content)
    pub fn eval(&mut self, content: &str) {
        self.evaluations += 1;
        self.keys.insert(hash_str(content));
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.sample.is_none() {
            let t = s();
            self.sample = Some(if t.chars().count() > 1500 { t.chars().take(1500).collect::<String>() + " ..." } else { t });
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Cx),
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// observations without which the run proves nothing: (name, least number in the quick tier)
    pub need: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
    pub level: &'static str,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map_or("?".into(), |l| format!("{}:{}", l.file(), l.line()));
        let m: String = m.chars().take(400).collect();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {l}: {m}")));
    }));
}

/// run a piece of library code; Err: the panic it ended with
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

fn own_panic(m: &str) -> bool {
    m.starts_with("panic at src/") || m.starts_with("panic at harness/src/")
}

pub fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
}

fn case_cx(p: &Prop, case: u64, scratch: &Path) -> Cx {
    Cx {
        case,
        thorough: thorough(),
        r: Rng::new(mix(seed()) ^ hash_str(p.id) ^ mix(case.wrapping_mul(0x1234_5678_9abc_def1))),
        scratch: scratch.to_path_buf(),
        violations: vec![],
        counts: BTreeMap::new(),
        keys: HashSet::new(),
        sample: None,
        evaluations: 0,
    }
}

/// Ok(cx) or Err(harness error)
fn run_case(p: &Prop, case: u64, scratch: &Path) -> Result<Cx, String> {
    let mut cx = case_cx(p, case, scratch);
    if let Err(m) = guard(|| (p.run)(&mut cx)) {
        if own_panic(&m) {
            return Err(format!("{} case {case}: {m}", p.id));
        }
        cx.fail(format!("the library panicked: {m}"), String::new());
    }
    Ok(cx)
}

fn total(p: &Prop) -> u64 {
    let n = if thorough() { p.thorough } else { p.quick };
    // development aid
    std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(n)
}

/// the build with AddressSanitizer, whose stack frames are larger
fn asan() -> bool {
    std::env::var_os("IFCMON_ASAN").is_some()
}

fn stack() -> usize {
    if asan() {
        16 << 20
    } else {
        2 << 20
    }
}

fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 8)
}

// ------------------------------------------------------------------ worker

pub fn worker(p: &'static Prop, dir: &Path) -> i32 {
    quiet_panics();
    let n = total(p);
    let next = AtomicU64::new(0);
    struct All {
        v: Vec<Violation>,
        counts: BTreeMap<String, u64>,
        keys: HashSet<u64>,
        samples: Vec<String>,
        evaluations: u64,
        errors: Vec<String>,
    }
    let all = Mutex::new(All {
        v: vec![],
        counts: BTreeMap::new(),
        keys: HashSet::new(),
        samples: vec![],
        evaluations: 0,
        errors: vec![],
    });
    let slots = std::fs::OpenOptions::new().create(true).truncate(false).write(true).open(dir.join("slots")).expect("slots");
    let budget = Duration::from_secs(if thorough() { 780 } else { 300 });
    let start = Instant::now();
    std::thread::scope(|s| {
        for t in 0..threads() {
            let (next, all, slots) = (&next, &all, &slots);
            std::thread::Builder::new()
                .stack_size(stack())
                .spawn_scoped(s, move || {
                    let scratch = dir.join(format!("t{t}"));
                    std::fs::create_dir_all(&scratch).expect("scratch");
                    loop {
                        let c = next.fetch_add(1, Ordering::Relaxed);
                        if c >= n || start.elapsed() > budget {
                            let _ = slots.write_all_at(&u64::MAX.to_le_bytes(), t as u64 * 8);
                            return;
                        }
                        let _ = slots.write_all_at(&c.to_le_bytes(), t as u64 * 8);
                        match run_case(p, c, &scratch) {
                            Ok(cx) => {
                                let mut a = all.lock().unwrap();
                                for (k, v) in cx.counts {
                                    *a.counts.entry(k).or_default() += v;
                                }
                                a.counts.entry("cases".into()).and_modify(|x| *x += 1).or_insert(1);
                                a.evaluations += cx.evaluations;
                                a.keys.extend(cx.keys);
                                if a.samples.len() < 4 {
                                    a.samples.extend(cx.sample);
                                }
                                if a.v.len() < 20 {
                                    a.v.extend(cx.violations);
                                }
                            }
                            Err(e) => {
                                let mut a = all.lock().unwrap();
                                if a.errors.len() < 5 {
                                    a.errors.push(e);
                                }
                            }
                        }
                    }
                })
                .expect("thread");
        }
    });
    let a = all.into_inner().unwrap();
    let out = json!({
        "violations": a.v.iter().map(|v| json!({"case": v.case, "what": v.what, "replay": v.replay})).collect::<Vec<_>>(),
        "counts": a.counts,
        "distinct": a.keys.len(),
        "samples": a.samples,
        "evaluations": a.evaluations,
        "errors": a.errors,
    });
    std::fs::write(dir.join("result.json"), out.to_string()).expect("result");
    0
}

/// one case alone: exit code 0 fine, 1 violation (printed), 2 harness error
pub fn single(p: &'static Prop, case: u64, dir: &Path) -> i32 {
    quiet_panics();
    std::fs::create_dir_all(dir).expect("scratch");
    let d = dir.to_path_buf();
    let h = std::thread::Builder::new().stack_size(stack()).spawn(move || run_case(p, case, &d)).expect("thread");
    match h.join().expect("join") {
        Err(e) => {
            eprintln!("{e}");
            2
        }
        Ok(cx) => {
            for v in &cx.violations {
                println!("{}\n{}", v.what, v.replay);
            }
            i32::from(!cx.violations.is_empty())
        }
    }
}

// ------------------------------------------------------------------ supervisor

fn limited(args: &[String], cpu: Option<u64>, mem_kb: u64) -> Command {
    let exe = std::env::current_exe().expect("exe");
    let mut c = Command::new("/bin/sh");
    let cpu = cpu.map_or(String::new(), |s| format!("ulimit -t {s}; "));
    // the shadow memory of AddressSanitizer does not fit any limit of the address space
    let mem = if asan() { String::new() } else { format!("ulimit -v {mem_kb}; ") };
    c.arg("-c").arg(format!("ulimit -c 0; {cpu}{mem}exec \"$0\" \"$@\"")).arg(exe).args(args);
    c.stdin(Stdio::null());
    // nothing may depend on the local time zone; in UTC that would go unnoticed
    c.env("TZ", if seed() % 2 == 0 { "CET-1CEST,M3.5.0,M10.5.0/3" } else { "<-0330>3:30" });
    c
}

pub fn supervise(p: &'static Prop) -> i32 {
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("ifcmon-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let code = supervise_in(p, &dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn slots(dir: &Path) -> Vec<u64> {
    std::fs::read(dir.join("slots"))
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect()
}

fn supervise_in(p: &'static Prop, dir: &Path, t0: Instant) -> i32 {
    let args = vec!["worker".to_string(), p.id.to_string(), dir.display().to_string()];
    let mut child = limited(&args, None, 24 << 20).spawn().expect("worker");
    let mut last = vec![];
    let mut since: Vec<Instant> = vec![];
    let mut suspects: Vec<u64> = vec![];
    let mut note = String::new();
    loop {
        match child.try_wait().expect("wait") {
            Some(st) => {
                if let Some(sig) = st.signal() {
                    note = format!("worker ended by signal {sig}");
                    suspects = slots(dir).into_iter().filter(|c| *c != u64::MAX).collect();
                } else if !st.success() {
                    note = format!("worker ended with {st}");
                    suspects = slots(dir).into_iter().filter(|c| *c != u64::MAX).collect();
                }
                break;
            }
            None => std::thread::sleep(Duration::from_millis(30)),
        }
        let now = slots(dir);
        if since.len() != now.len() {
            since = vec![Instant::now(); now.len()];
            last = now.clone();
        }
        for i in 0..now.len() {
            if now[i] != last[i] {
                last[i] = now[i];
                since[i] = Instant::now();
            } else if now[i] != u64::MAX && since[i].elapsed() > Duration::from_secs(if thorough() { 90 } else { 200 }) {
                suspects.push(now[i]);
            }
        }
        if !suspects.is_empty() {
            note = "a case made no progress".into();
            let _ = child.kill();
            let _ = child.wait();
            break;
        }
    }
    let mut violations: Vec<(u64, String, String)> = vec![];
    let mut res: Value = json!({});
    let mut inconclusive: Option<String> = None;
    if suspects.is_empty() && note.is_empty() {
        match std::fs::read_to_string(dir.join("result.json")).ok().and_then(|s| serde_json::from_str(&s).ok()) {
            Some(v) => res = v,
            None => inconclusive = Some("no result of the worker".into()),
        }
    } else {
        suspects.sort();
        suspects.dedup();
        for c in suspects {
            let f = std::fs::File::create(dir.join("single.out")).expect("out");
            let a = vec!["case".to_string(), p.id.to_string(), c.to_string(), dir.join("single").display().to_string()];
            let mut ch = limited(&a, Some(CPU_LIMIT_S), 10 << 20)
                .stdout(f)
                .stderr(Stdio::null())
                .spawn()
                .expect("single");
            let started = Instant::now();
            let st = loop {
                if let Some(s) = ch.try_wait().expect("wait") {
                    break Some(s);
                }
                if started.elapsed() > Duration::from_secs(240) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(20));
            };
            let input = std::fs::read_to_string(dir.join("single/input")).unwrap_or_default();
            match st {
                None => inconclusive = Some(format!("case {c} got no processor time")),
                Some(s) if s.signal() == Some(24) || s.signal() == Some(9) => {
                    violations.push((c, format!("no answer within {CPU_LIMIT_S} s of processor time"), input))
                }
                Some(s) if s.signal().is_some() => {
                    violations.push((c, format!("the process was ended by signal {} (stack overflow or abort)", s.signal().unwrap()), input))
                }
                Some(s) if s.code() == Some(1) => {
                    violations.push((c, std::fs::read_to_string(dir.join("single.out")).unwrap_or_default(), input))
                }
                Some(s) if s.success() => {}
                Some(s) => inconclusive = Some(format!("case {c} alone: {s}")),
            }
        }
        if violations.is_empty() && inconclusive.is_none() {
            inconclusive = Some(format!("{note}, not reproduced alone"));
        }
    }
    for v in res["violations"].as_array().cloned().unwrap_or_default() {
        violations.push((
            v["case"].as_u64().unwrap_or(0),
            v["what"].as_str().unwrap_or("").into(),
            v["replay"].as_str().unwrap_or("").into(),
        ));
    }
    violations.sort();
    for e in res["errors"].as_array().cloned().unwrap_or_default() {
        inconclusive = Some(format!("error of the harness: {}", e.as_str().unwrap_or("?")));
    }
    // nothing observed is no verdict
    if inconclusive.is_none() && violations.is_empty() && std::env::var("VERIF_CASES").is_err() {
        for (k, least) in p.need {
            let got = res["counts"][*k].as_u64().unwrap_or(0);
            if got < *least {
                inconclusive = Some(format!("only {got} observations of {k:?}, {least} needed"));
            }
        }
    }
    let v = verif();
    let mut lines = vec![];
    if !violations.is_empty() {
        let rdir = v.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        for (i, (c, what, input)) in violations.iter().enumerate().take(5) {
            let path = rdir.join(format!("{}-{}-{}.txt", p.id, seed(), c));
            let text = format!(
                "property {}\nseed {} tier {} case {}\nreplay: VERIF_SEED={} VERIF_TIER={} ./check.sh {} --case {}\n\n{}\n\n{}\n",
                p.id,
                seed(),
                tier(),
                c,
                seed(),
                tier(),
                p.id,
                c,
                what,
                input
            );
            let _ = std::fs::write(&path, text);
            if i == 0 {
                lines.push(format!("VIOLATION property={} replay={}", p.id, path.display()));
            }
            eprintln!("{}: case {}: {}", p.id, c, what.chars().take(600).collect::<String>());
        }
    }
    let known = crate::known::check(p.id);
    for k in &known.still {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }
    let evidence = json!({
        "property": p.id,
        "tier": tier(),
        "seed": seed(),
        "level": p.level,
        "coverage": {
            "evaluations": res["evaluations"].as_u64().unwrap_or(0),
            "distinct_nontrivial": res["distinct"].as_u64().unwrap_or(0),
            "rule": p.rule,
            "observed": res["counts"],
            "samples": res["samples"].as_array().cloned().unwrap_or_default(),
            "known_findings_still_failing": known.still,
        },
        "assumptions": p.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": violations.len(),
    });
    let _ = std::fs::create_dir_all(v.join("evidence"));
    let file = v.join("evidence").join(format!("{}.json", p.id));
    let evidence = match std::fs::read_to_string(&file).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
        // the second run of a check adds to the evidence of the first
        Some(mut first) if asan() => {
            first["coverage"]["under_address_sanitizer"] = json!({
                "evaluations": evidence["coverage"]["evaluations"],
                "observed": evidence["coverage"]["observed"],
                "wall_s": evidence["wall_s"],
            });
            first["violations"] = json!(first["violations"].as_u64().unwrap_or(0) + violations.len() as u64);
            first
        }
        _ => evidence,
    };
    std::fs::File::create(&file)
        .and_then(|mut f| f.write_all(serde_json::to_string_pretty(&evidence).unwrap().as_bytes()))
        .expect("evidence");
    for l in &lines {
        println!("{l}");
    }
    if !violations.is_empty() {
        return 1;
    }
    if let Some(m) = inconclusive {
        eprintln!("{}: inconclusive: {m}", p.id);
        return 2;
    }
    println!(
        "{}: held on {} evaluations ({} distinct) in {:.1} s",
        p.id,
        evidence["coverage"]["evaluations"],
        evidence["coverage"]["distinct_nontrivial"],
        t0.elapsed().as_secs_f64()
    );
    0
}

fn tier() -> &'static str {
    if thorough() {
        "thorough"
    } else {
        "quick"
    }
}
