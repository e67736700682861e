//! P23: what a model holds depends only on its own text and calls.
//!
//! A job is a piece of work made from a seed alone; its digest tells all it observed.  The reference is the
//! digest in a fresh process, which did nothing before, runs one thread and stands in another directory, time
//! zone and locale.  The same jobs then run here: among other work, in any order, again and again, on several threads
//! at once, with models of other jobs kept and dropped in between, in a process with a long history.

use crate::common::*;
use crate::gen::{self, gen, lay, render, Opts};
use crate::monitor::*;
use crate::prng::{hash_str, Rng};
use crate::robust;
use crate::step::{self, V};
use ifc_rs::IFC;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::Barrier;

const KINDS: &[&str] = &["text", "damaged text", "queries", "views", "store", "file", "header", "builder", "construction", "times"];

/// a context of its own for the work of another check
fn inner(seed: u64, scratch: &Path) -> Cx {
    Cx {
        case: Rng::new(seed).below(1 << 20) as u64,
        thorough: false,
        r: Rng::new(seed ^ 0x5eed),
        scratch: scratch.to_path_buf(),
        violations: vec![],
        counts: BTreeMap::new(),
        keys: HashSet::new(),
        sample: None,
        evaluations: 0,
    }
}

fn told(mut cx: Cx, run: fn(&mut Cx)) -> String {
    let p = guard(|| run(&mut cx));
    let v: Vec<String> = cx.violations.iter().map(|v| v.what.clone()).collect();
    format!("{:?} {:?} {:?} {:?} {p:?}", v, cx.counts, cx.evaluations, cx.sample)
}

/// a saved model without its numbers, unique ids, times and order
fn shape(text: &str) -> String {
    let Ok(file) = step::parse(text) else { return "not an exchange file".into() };
    let m = file.map();
    fn value(v: &V, m: &BTreeMap<u64, &step::Inst>, memo: &mut HashMap<u64, u64>) -> String {
        match v {
            V::Ref(id) => format!("#{:x}", instance(*id, m, memo)),
            V::Str(s) if crate::ctor::valid_guid(s) => "id".into(),
            V::List(l) => {
                let mut p: Vec<String> = l.iter().map(|x| value(x, m, memo)).collect();
                if l.iter().all(|x| matches!(x, V::Ref(_))) {
                    p.sort();
                }
                format!("({})", p.join(","))
            }
            V::Typed(k, l) => format!("{k}{}", value(&V::List(l.clone()), m, memo)),
            v => step::show(v),
        }
    }
    fn instance(id: u64, m: &BTreeMap<u64, &step::Inst>, memo: &mut HashMap<u64, u64>) -> u64 {
        if let Some(h) = memo.get(&id) {
            return *h;
        }
        memo.insert(id, 1);
        let Some(i) = m.get(&id) else { return 0 };
        let h = hash_str(&body(i, m, memo));
        memo.insert(id, h);
        h
    }
    fn body(i: &step::Inst, m: &BTreeMap<u64, &step::Inst>, memo: &mut HashMap<u64, u64>) -> String {
        let p: Vec<String> = i
            .args
            .iter()
            .enumerate()
            .map(|(at, v)| match i.kw.as_str() {
                "IFCOWNERHISTORY" if at == 4 || at == 7 => "time".into(),
                // named by their place in an unordered collection
                k if at == 2 && k.starts_with("IFCREL") => "name".into(),
                _ => value(v, m, memo),
            })
            .collect();
        format!("{}({})", i.kw, p.join(","))
    }
    let mut memo = HashMap::new();
    let mut all: Vec<String> = file.insts.iter().map(|i| body(i, &m, &mut memo)).collect();
    all.sort();
    all.join("\n")
}

/// what a text gives
fn outcome(loaded: Result<Result<IFC, String>, String>) -> (String, Option<IFC>) {
    match loaded {
        Err(_) => ("a panic".into(), None),
        Ok(Err(_)) => ("refused".into(), None),
        Ok(Ok(m)) => {
            let first = save(&m).unwrap_or_else(|_| "a panic while saving".into());
            let second = save(&m).unwrap_or_default();
            if first != second && first != "a panic while saving" {
                return (format!("saving has changed the model\n{}", differ(&first, &second)), None);
            }
            (first, Some(m))
        }
    }
}

/// other letters in the strings of a text, at the same places
fn other_letters(text: &str) -> String {
    let mut inside = false;
    let mut escaped = false;
    text.chars()
        .map(|c| {
            if c == '\'' {
                inside = !inside;
            }
            escaped |= c == '\\';
            match c {
                'a'..='y' if inside && !escaped => (c as u8 + 1) as char,
                '\'' => {
                    escaped = false;
                    c
                }
                _ => c,
            }
        })
        .collect()
}

/// one instance is missing, or two have exchanged their numbers
fn other_target(r: &mut Rng, text: &str) -> String {
    let mut lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    let at: Vec<usize> = (0..lines.len()).filter(|i| lines[*i].starts_with('#') && lines[*i].contains('=')).collect();
    if at.len() < 3 {
        return text.into();
    }
    let (a, b) = (*r.pick(&at), *r.pick(&at));
    if r.coin() || a == b {
        lines.remove(a);
    } else {
        let (x, y) = (lines[a].clone(), lines[b].clone());
        if let (Some((i, k)), Some((j, l))) = (x.split_once('='), y.split_once('=')) {
            lines[a] = format!("{i}={l}");
            lines[b] = format!("{j}={k}");
        }
    }
    lines.join("\n")
}

fn a_text(r: &mut Rng, damaged: bool, twin: bool) -> String {
    let o = Opts { kinds: 8, pad: r.chance(1, 40), ..Opts::default() };
    let mut f = gen(r, &o);
    if r.chance(1, 3) {
        robust::quoted(r, &mut f);
    }
    let plain = r.coin();
    let l = if plain { gen::Lay::Plain } else { lay(r) };
    let mut text = render(r, l, &f, true);
    if twin {
        // nearly the same text, of the same length if possible
        text = if plain && r.chance(2, 3) { other_target(r, &text) } else { other_letters(&text) };
    }
    if damaged {
        let other = text.clone();
        for _ in 0..1 + r.below(4) {
            robust::mutate(r, &mut text, &other);
        }
        if r.chance(1, 10) {
            let n = 50 + r.below(500);
            let at = text.rfind("ENDSEC").unwrap_or(text.len());
            text.insert_str(at, &format!("#10000000000=IFCX({}{};", "(".repeat(n), if r.coin() { ")".repeat(n + 1) } else { String::new() }));
        }
    }
    text
}

/// the digest of a job, and the model it ends with
/// the last bit of a seed tells the twins apart
fn kind_of(seed: u64) -> &'static str {
    KINDS[((seed >> 1) % KINDS.len() as u64) as usize]
}

thread_local! {
    /// texts are loaded from the same place in memory, one after the other
    static PLACE: RefCell<String> = RefCell::new(String::with_capacity(1 << 20));
}

fn job(seed: u64, scratch: &Path) -> (String, Option<IFC>) {
    let mut r = Rng::new(seed >> 1);
    let twin = seed & 1 == 1;
    let kind = kind_of(seed);
    match kind {
        "text" | "damaged text" => {
            let t = a_text(&mut r, kind != "text", twin);
            PLACE.with(|p| {
                let mut p = p.borrow_mut();
                p.clear();
                p.push_str(&t);
                outcome(load(&p))
            })
        }
        "file" => {
            let damaged = r.coin();
            let t = a_text(&mut r, damaged, twin);
            let p = scratch.join("alone.ifc");
            std::fs::write(&p, &t).expect("scratch file");
            let got = guard(|| IFC::from_file(&p).map_err(|e| e.to_string()));
            let _ = std::fs::remove_file(&p);
            outcome(got)
        }
        "header" => {
            let h = gen::header_text(&mut r);
            let h = if twin { other_letters(&h) } else { h };
            let t = gen::wrap("");
            let at = t.find("HEADER;").expect("header");
            let end = t.find("ENDSEC;").expect("header");
            outcome(load(&format!("{}{h}{}", &t[..at], &t[end + 7..])))
        }
        "queries" => (crate::queries::answers(&mut Rng::new(seed)), None),
        "views" => (told(inner(seed, scratch), crate::queries::run18), None),
        "store" => (told(inner(seed, scratch), crate::store::run), None),
        "builder" => {
            let mut cx = inner(seed, scratch);
            let t = guard(|| crate::build::any_built_text(&mut cx)).unwrap_or_default();
            (t.map_or("no model".into(), |t| shape(&t)), None)
        }
        "times" => {
            // a builder model whose header is set by a file before and after a local time change
            let t = gen::unix(2021, 3, 28, 0, 30, 0) + r.range(-40_000_000, 40_000_000);
            let (y, mo, d, h, mi, s) = gen::civil(t);
            let stamp = format!("{y:04}-{mo:02}-{d:02}T{h:02}:{mi:02}:{s:02}");
            let text = gen::wrap(&format!("#1= IFCPERSON($,'a',$,$,$,$,$,$);\n#2= IFCORGANIZATION($,'b',$,$,$);\n#3= IFCPERSONANDORGANIZATION(#1,#2,$);\n#4= IFCAPPLICATION(#2,'1','c','d');\n#5= IFCOWNERHISTORY(#3,#4,$,.ADDED.,{t},$,$,{t});\n"));
            let old = text.split('\'').find(|p| p.len() >= 19 && p.as_bytes()[4] == b'-' && p.contains('T')).map(|p| p.to_string());
            outcome(load(&old.map_or(text.clone(), |o| text.replace(&o, &stamp))))
        }
        _ => {
            let mut cx = inner(seed, scratch);
            let mode = crate::ctor::Mode { hostile: twin, quotes: twin, extreme: false };
            let t = guard(|| crate::ctor::saved_model(&mut cx, mode, 3)).unwrap_or_default();
            (t.map_or("no model".into(), |t| shape(&t)), None)
        }
    }
}

/// `ifcmon job DIR SEED...`: the digests in a fresh process
pub fn fresh(dir: &Path, seeds: &[u64]) {
    quiet_panics();
    let (d, s) = (dir.to_path_buf(), seeds.to_vec());
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || s.iter().map(|s| job(*s, &d).0).collect::<Vec<_>>());
    for d in h.expect("thread").join().expect("job") {
        println!("{}", serde_json::to_string(&d).expect("digest"));
    }
}

const ZONES: &[&str] = &["UTC", "EST5EDT,M3.2.0,M11.1.0", "<+0530>-5:30", "<+14>-14", "<-12>12", "CET-1CEST,M3.5.0,M10.5.0/3"];

fn reference(r: &mut Rng, seed: u64, scratch: &Path) -> Option<String> {
    let dir = scratch.join("fresh");
    std::fs::create_dir_all(&dir).expect("scratch");
    let out = Command::new(std::env::current_exe().expect("exe"))
        .arg("job")
        .arg(&dir)
        .arg(seed.to_string())
        .env("TZ", r.pick(ZONES))
        .env("LC_ALL", *r.pick(&["C", "de_DE.UTF-8", "tr_TR.UTF-8", "POSIX"]))
        .env("HOME", &dir)
        .current_dir(if r.coin() { scratch } else { Path::new("/") })
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .ok()?;
    if !out.status.success() {
        return None;
    }
    serde_json::from_slice::<String>(&out.stdout).ok()
}

/// work of others, whose results nobody looks at here
fn noise(r: &mut Rng, scratch: &Path) -> &'static str {
    let s = r.u64();
    match r.below(4) {
        0 => {
            let _ = told(inner(s, scratch), crate::build::run15);
            "models of the builder in between"
        }
        1 => {
            let _ = told(inner(s, scratch), crate::ctor::stable_api_model);
            "models of the construction API in between"
        }
        2 => {
            let t = a_text(r, true, false);
            let _ = load(&t);
            "damaged texts in between"
        }
        _ => {
            let t = a_text(r, false, false);
            let _ = load(&t);
            "texts in between"
        }
    }
}

fn differ(a: &str, b: &str) -> String {
    let d = a.lines().zip(b.lines()).find(|(a, b)| a != b);
    match d {
        Some((a, b)) => format!("alone: {}\nhere: {}", cut(a, 400), cut(b, 400)),
        None => format!("alone {} characters, here {}", a.len(), b.len()),
    }
}

pub fn run(cx: &mut Cx) {
    let n = 2 + cx.r.below(4);
    let mut jobs: Vec<(u64, String)> = vec![];
    for i in 0..n {
        // every kind of job in turn
        let mut s = cx.r.u64() >> 1;
        s = s - s % KINDS.len() as u64 + if i == 0 { cx.case % KINDS.len() as u64 } else { cx.r.below(KINDS.len()) as u64 };
        s <<= 1;
        if let Some((last, _)) = jobs.last() {
            if cx.r.coin() {
                // the twin of the one before
                s = *last ^ 1;
            }
        }
        let scratch = cx.scratch.clone();
        match reference(&mut cx.r, s, &scratch) {
            Some(d) => jobs.push((s, d)),
            None => cx.count("fresh processes without an answer"),
        }
    }
    if jobs.is_empty() {
        return;
    }
    let threads = *cx.r.pick(&[1usize, 1, 2, 3, 4]);
    let barrier = Barrier::new(threads);
    let scratch = cx.scratch.clone();
    let results: Vec<(Vec<String>, Vec<(&'static str, u64)>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let mut r = Rng::new(cx.r.u64());
                let (jobs, barrier, dir) = (&jobs, &barrier, scratch.join(format!("j{t}")));
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        std::fs::create_dir_all(&dir).expect("scratch");
                        let mut bad = vec![];
                        let mut seen: BTreeMap<&'static str, u64> = BTreeMap::new();
                        let mut kept: Vec<(u64, IFC, String)> = vec![];
                        // with the same job on all threads at first, then in any order and again
                        let mut order: Vec<usize> = (0..jobs.len()).collect();
                        r.shuffle(&mut order);
                        if r.coin() {
                            order.sort();
                        }
                        let again: Vec<usize> = (0..2 + r.below(4)).map(|_| r.below(jobs.len())).collect();
                        order.extend(again);
                        barrier.wait();
                        for i in order {
                            if r.chance(1, 3) {
                                *seen.entry(noise(&mut r, &dir)).or_default() += 1;
                            }
                            let (s, want) = &jobs[i];
                            let (got, m) = job(*s, &dir);
                            if got != *want {
                                let k = kind_of(*s);
                                bad.push(format!("a job ({k}, {s}) gives something else than alone in a fresh process\n{}", differ(want, &got)));
                            }
                            *seen.entry(if threads > 1 { "jobs at the same time as others" } else { "jobs after others" }).or_default() += 1;
                            if let Some(m) = m {
                                if r.coin() {
                                    kept.push((*s, m, got));
                                }
                            }
                            if !kept.is_empty() && r.chance(1, 3) {
                                let at = r.below(kept.len());
                                kept.swap_remove(at);
                            }
                        }
                        // models kept meanwhile are as they were
                        for (s, m, was) in &kept {
                            let is = save(m).unwrap_or_default();
                            if is != *was {
                                bad.push(format!("a model kept from job {s} has changed\n{}", differ(was, &is)));
                            }
                            *seen.entry("kept models saved again").or_default() += 1;
                        }
                        (bad, seen.into_iter().collect::<Vec<_>>())
                    })
                    .expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("job")).collect()
    });
    for (bad, seen) in results {
        for (k, n) in seen {
            cx.add(k, n);
        }
        for b in bad {
            cx.fail(b, "");
        }
    }
    cx.add("fresh processes", jobs.len() as u64);
    for (s, d) in &jobs {
        let k = kind_of(*s);
        if d.contains("has changed the model") {
            cx.fail(format!("job {s} ({k}): {}", cut(d, 1000)), "");
        }
        cx.count(&format!("jobs of kind {k}"));
        cx.count(match d.as_str() {
            "refused" => "jobs whose text is refused",
            "no model" => "jobs without a model",
            _ => "jobs with a model",
        });
        cx.evaluations += 1;
        cx.keys.insert(hash_str(d));
    }
    let d = &jobs[0].1;
    cx.sample(|| d.clone());
}
