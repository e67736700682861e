//! P09 texts, P10 numbers, P11 globally unique ids, P21 typed values.

use crate::common::*;
use crate::ctor::{self, Mode};
use crate::gen::*;
use crate::monitor::*;
use crate::prng::Rng;
use crate::schema::{self, schema, Kind, Ty};
use crate::step::{self, V};
use crate::typed;
use ifc_rs::prelude::*;
use ifc_rs::IFC;
use std::collections::{BTreeSet, HashMap, HashSet};

fn all_strs<'a>(v: &'a V, out: &mut Vec<&'a str>) {
    match v {
        V::Str(s) => out.push(s),
        V::List(l) | V::Typed(_, l) => l.iter().for_each(|x| all_strs(x, out)),
        _ => {}
    }
}

fn quoted(v: &[V]) -> bool {
    let mut s = vec![];
    v.iter().for_each(|x| all_strs(x, &mut s));
    s.iter().any(|x| x.contains('\''))
}

/// loads a well-formed text, reporting failures
fn loaded(cx: &mut Cx, text: &str) -> Option<IFC> {
    match load(text) {
        Ok(Ok(m)) => return Some(m),
        Ok(Err(e)) => cx.fail(format!("a well-formed file is refused: {}", cut(&e, 400)), text),
        Err(p) => cx.fail(p, text),
    }
    None
}

/// the one kind which cannot be named from outside of the library
const HIDDEN: &str = "MaterialProperties";

/// the typed attributes of every supported instance against the values of the file
fn read_back(f: &GFile, m: &IFC) -> Result<u64, String> {
    let mut n = 0;
    for i in &f.insts {
        let Some(k) = i.kind else { continue };
        let t = m.data.try_get_untyped(Id(i.id as usize)).map_err(|_| format!("#{} is lost", i.id))?;
        if k.name == HIDDEN {
            if t.downcast_ref::<Dummy>().is_some() {
                return Err(format!("#{} {} is opaque after loading", i.id, i.kw));
            }
            continue;
        }
        let Some((name, got)) = typed::typed(t) else {
            return Err(format!("#{} {} is opaque after loading", i.id, i.kw));
        };
        if name != k.name {
            return Err(format!("#{} {} reads as {name}", i.id, i.kw));
        }
        if let Some(d) = step::args_diff(k.kw, &i.args, &got) {
            return Err(format!("#{} {}: {d} after loading", i.id, i.kw));
        }
        n += 1;
    }
    Ok(n)
}

// ---------------------------------------------------------------- P09

/// the letters which are written in escaped form must not appear as they are
fn escaped(data: &str) -> Result<(), String> {
    for (c, code) in UMLAUTS {
        if data.contains(c) {
            return Err(format!("{c} is saved as it is instead of \\X2\\{code}\\X0\\"));
        }
    }
    Ok(())
}

/// put an apostrophe into some texts
fn with_quotes(r: &mut Rng, v: &mut V) {
    match v {
        V::Str(s) if r.coin() => {
            for _ in 0..1 + r.below(3) {
                let n = s.chars().count();
                let at = s.char_indices().nth(r.below(n + 1)).map_or(s.len(), |x| x.0);
                s.insert_str(at, r.pick(&["'", "''", "';", "','", "'('"]));
            }
        }
        V::List(l) | V::Typed(_, l) => l.iter_mut().for_each(|x| with_quotes(r, x)),
        _ => {}
    }
}

fn str_kinds() -> Vec<&'static Kind> {
    fn has(t: &Ty) -> bool {
        match t {
            Ty::Str | Ty::Value => true,
            Ty::List(t) => has(t),
            _ => false,
        }
    }
    schema().kinds.iter().filter(|k| k.attrs.iter().any(|a| has(&a.ty))).collect()
}

pub fn run09(cx: &mut Cx) {
    if cx.case % 3 == 2 {
        // by the API, in every text attribute that can be set
        let mode = Mode { hostile: true, quotes: cx.r.coin(), extreme: false };
        let n = cx.r.below(if cx.thorough { 8 } else { 4 });
        return ctor::api_values(cx, mode, true, n);
    }
    let ks = str_kinds();
    let k = ks[cx.case as usize / 3 % ks.len()];
    let o = Opts { opaque: false, extreme_num: false, big_ids: false, standard_case: false, kinds: 4, pad: true, ..Opts::default() };
    let mut f = gen_with(&mut cx.r, &o, &[k.name]);
    // every omitted text becomes a text
    for i in &mut f.insts {
        let Some(k) = i.kind else { continue };
        for (a, v) in k.attrs.iter().zip(i.args.iter_mut()) {
            let h = |r: &mut Rng| V::Str(text(r, true));
            match &a.ty {
                Ty::Str => *v = h(&mut cx.r),
                Ty::List(t) if **t == Ty::Str => *v = V::List((0..1 + cx.r.below(3)).map(|_| h(&mut cx.r)).collect()),
                _ => {}
            }
        }
    }
    let quotes = cx.case % 6 == 1;
    if quotes {
        for i in &mut f.insts {
            let Some(k) = i.kind else { continue };
            for (a, v) in k.attrs.iter().zip(i.args.iter_mut()) {
                if a.ty != Ty::Guid {
                    with_quotes(&mut cx.r, v);
                }
            }
        }
    }
    let enc = cx.r.coin();
    let text = render(&mut cx.r, Lay::Plain, &f, enc);
    cx.eval(&text);
    cx.sample(|| text.clone());
    let Some(m) = loaded(cx, &text) else { return };
    let mut nt = 0;
    f.insts.iter().for_each(|i| {
        let mut s = vec![];
        i.args.iter().for_each(|v| all_strs(v, &mut s));
        nt += s.len() as u64;
    });
    if !quotes {
        if let Err(e) = read_back(&f, &m) {
            return cx.fail(e, text);
        }
        cx.add("texts read from a file", nt);
    }
    let saved = match save(&m) {
        Ok(s) => s,
        Err(p) => return cx.fail(p, text),
    };
    if let Err(e) = compare_saved(&f, &saved, true, false) {
        return cx.fail(e, text);
    }
    if !quotes {
        if let Err(e) = escaped(&m.data.to_string()) {
            return cx.fail(e, text);
        }
    } else {
        cx.add("texts with apostrophes passed on", nt);
    }
    match reload(&saved) {
        Ok(t) if t == saved => cx.add("texts saved and read again", nt),
        Ok(t) => {
            let (a, b) = saved.lines().zip(t.lines()).find(|(a, b)| a != b).unwrap_or(("", ""));
            cx.fail(format!("{} reads back as {}", cut(a, 300), cut(b, 300)), text)
        }
        Err(e) => cx.fail(format!("the saved texts are refused: {}", cut(&e, 400)), text),
    }
}

// ---------------------------------------------------------------- P10

fn num_kinds() -> Vec<&'static Kind> {
    fn has(t: &Ty) -> bool {
        match t {
            Ty::Real | Ty::Int | Ty::SmallInt | Ty::Bool | Ty::Time | Ty::Vec2 | Ty::Vec3 | Ty::Value | Ty::Measure => true,
            Ty::List(t) => has(t),
            _ => false,
        }
    }
    schema().kinds.iter().filter(|k| k.attrs.iter().any(|a| has(&a.ty))).collect()
}

fn count_nums(v: &V) -> u64 {
    match v {
        V::Num(_) => 1,
        V::List(l) | V::Typed(_, l) => l.iter().map(count_nums).sum(),
        _ => 0,
    }
}

pub fn run10(cx: &mut Cx) {
    if cx.case % 3 == 2 {
        let mode = Mode { hostile: false, quotes: false, extreme: true };
        let n = cx.r.below(if cx.thorough { 8 } else { 4 });
        return ctor::api_values(cx, mode, true, n);
    }
    let ks = num_kinds();
    let k = ks[cx.case as usize / 3 % ks.len()];
    let o = Opts { opaque: false, hostile_text: false, big_ids: false, kinds: 4, pad: true, ..Opts::default() };
    let mut f = gen_with(&mut cx.r, &o, &[k.name]);
    for i in &mut f.insts {
        let Some(k) = i.kind else { continue };
        for (a, v) in k.attrs.iter().zip(i.args.iter_mut()) {
            match &a.ty {
                Ty::Real => *v = real_v(&mut cx.r, true),
                Ty::Int => *v = V::Num(int(&mut cx.r, true).to_string()),
                Ty::Bool if step::is_null(v) => *v = V::Enum(cx.r.pick(&["T", "F", "U"]).to_string()),
                Ty::List(t) if **t == Ty::Int => {
                    *v = V::List((0..3).map(|_| V::Num(int(&mut cx.r, true).to_string())).collect());
                }
                _ => {}
            }
        }
    }
    let text = render(&mut cx.r, Lay::Plain, &f, false);
    cx.eval(&text);
    cx.sample(|| text.clone());
    let Some(m) = loaded(cx, &text) else { return };
    if let Err(e) = read_back(&f, &m) {
        return cx.fail(e, text);
    }
    let n: u64 = f.insts.iter().map(|i| i.args.iter().map(count_nums).sum::<u64>()).sum();
    cx.add("numbers read from a file", n);
    let saved = match save(&m) {
        Ok(s) => s,
        Err(p) => return cx.fail(p, text),
    };
    match compare_saved(&f, &saved, true, false) {
        Err(e) => return cx.fail(e, text),
        Ok(_) => cx.add("numbers saved", n),
    }
    let s = step::parse(&saved).expect("parsed before");
    let map = s.map();
    for i in &f.insts {
        if let (Some(k), Some(x)) = (i.kind, map.get(&i.id)) {
            if let Err(e) = ctor::spelled(k, &x.args) {
                return cx.fail(format!("#{} {}: {e}; saved as {}", i.id, k.name, cut(&x.raw, 300)), text);
            }
        }
    }
    let Some(m2) = loaded(cx, &saved) else { return };
    match read_back(&f, &m2) {
        Ok(_) => cx.add("numbers saved and read again", n),
        Err(e) => cx.fail(format!("saved and read again: {e}"), text),
    }
}

// ---------------------------------------------------------------- P11

fn rooted_kinds() -> Vec<&'static Kind> {
    schema().kinds.iter().filter(|k| k.attrs.first().is_some_and(|a| a.ty == Ty::Guid)).collect()
}

/// a text of the place of an id which is none
fn bad_guid(r: &mut Rng) -> String {
    let mut s: Vec<char> = guid(r).chars().collect();
    match r.below(6) {
        0 => s[0] = *r.pick(&['4', '7', '9', 'A', 'Z', 'a', 'z', '_', '$']),
        1 => {
            let i = r.below(22);
            s[i] = *r.pick(&['-', ' ', '.', '+', '/', 'ä', '=', '#', '%', 'İ', '\u{0}', ',']);
        }
        2 => {
            let i = r.below(22);
            s.remove(i);
        }
        3 => {
            let i = r.below(23);
            let c = *r.pick(GUID_ALPHABET) as char;
            s.insert(i, c);
        }
        4 => {
            let n = r.below(60);
            let n = if n == 22 { 0 } else { n };
            s = (0..n).map(|_| *r.pick(GUID_ALPHABET) as char).collect();
        }
        _ => s = text(r, true).chars().collect(),
    }
    let t: String = s.into_iter().collect();
    if ctor::valid_guid(&t) {
        return "x".into();
    }
    t
}

fn guid_of(m: &IFC, id: u64) -> Option<String> {
    let (_, v) = typed::typed(m.data.try_get_untyped(Id(id as usize)).ok()?)?;
    v.first()?.s().map(|s| s.to_string())
}

pub fn run11(cx: &mut Cx) {
    match cx.case % 4 {
        0 | 1 => file_guids(cx, cx.case % 4 == 1),
        2 => fresh(cx),
        _ => made(cx),
    }
}

fn file_guids(cx: &mut Cx, bad: bool) {
    let ks = rooted_kinds();
    let want: Vec<&str> = (0..6).map(|i| ks[(cx.case as usize / 4 * 6 + i) % ks.len()].name).collect();
    let o = Opts { opaque: false, hostile_text: false, extreme_num: false, kinds: 2, ..Opts::default() };
    let mut f = gen_with(&mut cx.r, &o, &want);
    let roots: Vec<usize> = (0..f.insts.len()).filter(|&i| f.insts[i].kind.is_some_and(|k| k.attrs[0].ty == Ty::Guid)).collect();
    // neighbours: ids that differ in one place only
    let base = guid(&mut cx.r);
    let mut used = HashSet::new();
    for &i in &roots {
        let mut g = if cx.r.coin() { guid(&mut cx.r) } else { base.clone() };
        while !used.insert(g.clone()) {
            let mut b = g.into_bytes();
            let at = cx.r.below(22);
            b[at] = if at == 0 { b'0' + cx.r.below(4) as u8 } else { *cx.r.pick(GUID_ALPHABET) };
            g = String::from_utf8(b).unwrap();
        }
        f.insts[i].args[0] = V::Str(g);
    }
    let mut broken = None;
    if bad {
        let at = *cx.r.pick(&roots);
        let b = bad_guid(&mut cx.r);
        f.insts[at].args[0] = V::Str(b.clone());
        broken = Some((f.insts[at].id, b));
    }
    let text = render(&mut cx.r, Lay::Plain, &f, false);
    cx.eval(&text);
    cx.sample(|| text.clone());
    let m = match load(&text) {
        Err(p) => return cx.fail(p, text),
        Ok(Err(e)) => {
            if bad {
                cx.count("files with an invalid id refused");
            } else {
                cx.fail(format!("valid ids are refused: {}", cut(&e, 400)), text);
            }
            return;
        }
        Ok(Ok(m)) => m,
    };
    let saved = match save(&m) {
        Ok(s) => s,
        Err(p) => return cx.fail(p, text),
    };
    let s = match step::parse(&saved) {
        Ok(s) => s,
        Err(e) => return cx.fail(format!("the saved text is not a valid exchange file: {e}"), text),
    };
    let map = s.map();
    for &i in &roots {
        let i = &f.insts[i];
        let want = i.args[0].s().unwrap();
        let got = map.get(&i.id).and_then(|x| x.args.first()).and_then(|v| v.s());
        if got != Some(want) {
            return cx.fail(format!("id {want:?} of #{} {} is saved as {got:?}", i.id, i.kw), text);
        }
        let is_bad = broken.as_ref().is_some_and(|b| b.0 == i.id);
        if is_bad {
            cx.count("invalid ids passed on as they were");
            continue;
        }
        if matches!(i.kind.unwrap().name, "RelFillsElement" | "RelVoidsElement") {
            cx.count("ids kept");
            continue;
        }
        match guid_of(&m, i.id) {
            Some(g) if g == want => cx.count("ids kept"),
            g => return cx.fail(format!("id {want:?} of #{} {} reads as {g:?}", i.id, i.kw), text),
        }
    }
}

/// fresh ids of concurrent threads
fn fresh(cx: &mut Cx) {
    let n = if cx.thorough { 200 } else { 60 };
    let run = guard(|| {
        let h: Vec<_> = (0..2)
            .map(|_| std::thread::spawn(move || (0..n).map(|_| IfcGloballyUniqueId::new_v4().base64_ifc_string()).collect::<Vec<_>>()))
            .collect();
        h.into_iter().flat_map(|t| t.join().expect("thread of new_v4")).collect::<Vec<String>>()
    });
    let ids = match run {
        Ok(i) => i,
        Err(p) => return cx.fail(p, ""),
    };
    cx.eval(&ids[0]);
    let mut seen = HashSet::new();
    // bits of the 128 that ever differ: a generator that draws from a few values only shows here
    let mut places: Vec<BTreeSet<u8>> = vec![BTreeSet::new(); 22];
    for g in &ids {
        if !ctor::valid_guid(g) {
            return cx.fail(format!("the fresh id {g:?} is not valid"), "");
        }
        if !seen.insert(g.clone()) {
            return cx.fail(format!("the fresh id {g:?} was made twice"), "");
        }
        g.bytes().enumerate().for_each(|(i, b)| {
            places[i].insert(b);
        });
        // an id is read back as itself
        let t = wrap(&format!("#1= IFCPROPERTYSET('{g}',$,$,$,());"));
        if cx.r.chance(1, 10) {
            match load(&t) {
                Ok(Ok(m)) if guid_of(&m, 1).as_deref() == Some(g) => cx.count("fresh ids read back"),
                Ok(Ok(m)) => return cx.fail(format!("the fresh id {g:?} reads back as {:?}", guid_of(&m, 1)), t),
                Ok(Err(e)) => return cx.fail(format!("the fresh id {g:?} is refused: {e}"), t),
                Err(p) => return cx.fail(p, t),
            }
        }
    }
    // 120 random ids which agree in a character are less likely than 2^-200
    if let Some(i) = places.iter().position(|p| p.len() < 2) {
        return cx.fail(format!("character {i} is the same in all of {} fresh ids, such as {:?}", ids.len(), ids[0]), "");
    }
    cx.add("fresh ids made by concurrent threads", ids.len() as u64);
}

/// ids of the objects of one model and of several models of one run
fn made(cx: &mut Cx) {
    let mut seen: HashMap<String, String> = HashMap::new();
    for round in 0..2 {
        let saved = if cx.r.coin() {
            match crate::build::any_built_text(cx) {
                Some(s) => s,
                None => return,
            }
        } else {
            let mut r = Rng::new(cx.r.u64());
            let first = cx.r.below(100);
            match ctor::model(&mut r, Mode { hostile: false, quotes: false, extreme: false }, first, 8).and_then(|g| save(&g.ifc)) {
                Ok(s) => s,
                Err(p) => {
                    assert!(!p.contains("src/ctor.rs"), "{p}");
                    return cx.fail(p, "");
                }
            }
        };
        cx.eval(&saved);
        let f = match step::parse(&saved) {
            Ok(f) => f,
            Err(e) => return cx.fail(format!("the saved text is not a valid exchange file: {e}"), saved),
        };
        for i in &f.insts {
            let Some(k) = schema::kind_of(&i.kw, &i.args) else { continue };
            if k.attrs[0].ty != Ty::Guid {
                continue;
            }
            let g = i.args[0].s().unwrap_or("").to_string();
            if !ctor::valid_guid(&g) {
                return cx.fail(format!("#{} {} has the id {g:?}, which is not valid", i.id, i.kw), saved);
            }
            let me = format!("#{} {} of model {round}", i.id, i.kw);
            if let Some(o) = seen.insert(g.clone(), me.clone()) {
                return cx.fail(format!("{o} and {me} share the id {g:?}"), saved);
            }
            cx.count("ids of made objects");
        }
    }
}

// ---------------------------------------------------------------- P21

pub fn run21(cx: &mut Cx) {
    let ks = &schema().kinds;
    let k = ks[cx.case as usize % ks.len()].name;
    let o = Opts { opaque: cx.case % 2 == 0, kinds: if cx.thorough { 40 } else { 14 }, long: true, pad: true, ..Opts::default() };
    let f = gen_with(&mut cx.r, &o, &[k]);
    let l = lay(&mut cx.r);
    let enc = cx.r.coin();
    let text = render(&mut cx.r, l, &f, enc);
    cx.eval(&text);
    cx.sample(|| text.clone());
    let Some(m) = loaded(cx, &text) else { return };
    match read_back(&f, &m) {
        Ok(n) => {
            cx.add("instances read through their typed form", n);
            f.insts.iter().filter_map(|i| i.kind).for_each(|k| cx.count(&format!("kind {}", k.name)));
        }
        Err(e) => return cx.fail(e, text),
    }
    // each is listed under its own kind, once, and under no other
    let mut want: HashMap<&str, Vec<u64>> = HashMap::new();
    for i in &f.insts {
        want.entry(i.kind.map_or("Dummy", |k| k.name)).or_default().push(i.id);
    }
    for name in typed::NAMES.iter().copied().chain(["Dummy"]) {
        let mut w = want.remove(name).unwrap_or_default();
        w.sort();
        let got = match guard(|| typed::listed(&m, name)) {
            Ok(g) => g,
            Err(p) => return cx.fail(p, text),
        };
        if got != w {
            return cx.fail(format!("listed as {name}: {got:?} instead of {w:?}"), text);
        }
        if name != "Dummy" && !w.is_empty() {
            for (id, v) in typed::listed_values(&m, name) {
                let i = f.insts.iter().find(|i| i.id == id).unwrap();
                if let Some(d) = step::args_diff(i.kind.unwrap().kw, &i.args, &v) {
                    return cx.fail(format!("#{id} {name} in the listing: {d}"), text);
                }
            }
        }
        cx.add("listings compared", 1);
    }
}
