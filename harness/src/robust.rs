//! P03 (files), P04 hostile text, P05 whole files only, P06 bad references, P07 good references,
//! P08 layout and order, P19 header, P20 loading from disk.

use crate::common::*;
use crate::gen::*;
use crate::monitor::*;
use crate::prng::Rng;
use crate::schema::*;
use crate::step::{self, V};
use crate::typed;
use ifc_rs::prelude::*;
use ifc_rs::IFC;
use std::collections::BTreeSet;
use std::sync::OnceLock;

/// the example files that come with the repository (read as they are in the working tree)
pub fn resources() -> &'static Vec<String> {
    static R: OnceLock<Vec<String>> = OnceLock::new();
    R.get_or_init(|| {
        let mut v: Vec<String> = std::fs::read_dir("/repo/ifc_rs/resources")
            .map(|d| d.filter_map(|e| e.ok()).filter_map(|e| std::fs::read_to_string(e.path()).ok()).collect())
            .unwrap_or_default();
        v.sort_by_key(|s| s.len());
        v
    })
}

/// the saved text of a model must load again and then save to the same text
pub fn check_stable(cx: &mut Cx, saved: &str, origin: &str) -> bool {
    match load(saved) {
        Err(p) => cx.fail(format!("loading the saved text: {p}"), origin),
        Ok(Err(e)) => cx.fail(format!("the saved text is refused: {}", cut(&e, 600)), format!("{origin}\n--- saved as\n{saved}")),
        Ok(Ok(m)) => match save(&m) {
            Err(p) => cx.fail(format!("saving the reloaded model: {p}"), origin),
            Ok(again) => {
                if again == saved {
                    return true;
                }
                let d = saved.lines().zip(again.lines()).find(|(a, b)| a != b);
                cx.fail(format!("saving the reloaded model gives another text, first at {d:?}"), origin)
            }
        },
    }
    false
}

/// text in which quotes are allowed (as a file may contain them)
pub fn quoted(r: &mut Rng, f: &mut GFile) {
    fn go(r: &mut Rng, v: &mut V) {
        match v {
            V::Str(s) if r.chance(1, 6) && s.len() != 22 => {
                let n = s.chars().count();
                let at = s.char_indices().nth(r.below(n + 1)).map_or(s.len(), |x| x.0);
                s.insert_str(at, r.pick(&["'", "\\", "''", "\\X2\\00E4\\X0\\", "\\X2\\00e4\\X0\\", "\\S\\D", "\\X0\\", "\\X2\\"]));
            }
            V::List(l) | V::Typed(_, l) => l.iter_mut().for_each(|x| go(r, x)),
            _ => {}
        }
    }
    for i in &mut f.insts {
        i.args.iter_mut().for_each(|a| go(r, a));
    }
}

pub fn run03(cx: &mut Cx) {
    if cx.case % 4 == 3 {
        return crate::ctor::stable_api_model(cx);
    }
    if cx.case % 4 == 2 {
        return crate::build::stable_built_model(cx);
    }
    let o = Opts { kinds: if cx.thorough { 40 } else { 14 }, pad: true, ..Opts::default() };
    let mut f = gen(&mut cx.r, &o);
    if cx.r.coin() {
        quoted(&mut cx.r, &mut f);
    }
    let l = lay(&mut cx.r);
    let enc = cx.r.coin();
    let text = render(&mut cx.r, l, &f, enc);
    match load(&text) {
        Ok(Ok(m)) => match save(&m) {
            Ok(s) => {
                if check_stable(cx, &s, &text) {
                    cx.count("loaded files saved, reloaded and saved again");
                    cx.add("instances in them", f.insts.len() as u64);
                }
            }
            Err(p) => cx.fail(format!("saving: {p}"), text.clone()),
        },
        _ => cx.count("files refused (decided by P05 to P07)"),
    }
    cx.eval(&text);
    cx.sample(|| text.clone());
    if cx.case == 0 {
        for t in resources() {
            if let Ok(Ok(s)) = load(t).map(|m| m.map(|m| m.to_string())) {
                check_stable(cx, &s, "a file of ifc_rs/resources");
                cx.count("resource files");
            }
        }
    }
}

// ---------------------------------------------------------------- P04

const TOKENS: &[&str] = &[
    "(", ")", "((", "))", ",", ",,", ";", "#", "#0", "#1", "#18446744073709551615", "#18446744073709551616", "#-1", "=", "'", "''", "'''", "\\",
    "\\X2\\", "\\X2\\00", "\\X2\\D83D\\X0\\", "\\X2\\00E4\\X0\\", "\\X0\\", "\\X4\\", "\\S\\", "/*", "*/", "/**/", "$", "*", ".", "..", ".T.", ".X.",
    "1E999", "-1E999", "1e", "1.", ".5", "-", "+", "+5", "--1", "NaN", "inf", "1E-999", "9223372036854775807", "9223372036854775808",
    "-9223372036854775808", "-9223372036854775809", "99999999999999999999999999999999999", "8210266876799", "8210266876800", "-8334601228801",
    "ISO-10303-21;", "HEADER;", "DATA;", "ENDSEC;", "END-ISO-10303-21;", "\u{0}", "\u{feff}", "ä", "漢", "\u{1F600}", "\r", "\n", "\t", " ",
    "IFCWALL(", "IFCLABEL('", "IFCREAL(", "IFCDIRECTION((1.,2.))", "IFCDIRECTION((1.,2.,3.,4.))", "IFCCARTESIANPOINT(())", "[", "]", "\"",
    "0000-00-00T00:00:00", "2020-02-30T00:00:00", "2020-12-31T23:59:60", "9999-12-31T23:59:59-23:59", "0001-01-01T00:00:00+23:59",
    "-0001-01-01T00:00:00", "+262143-12-31T23:59:59", "10000-01-01T00:00:00", "2020-01-01T24:00:00", "2020-01-01", "2020-01-01T00:00:00.999999999999",
    "2021-10-05T10:00:00+99:99", "2021-10-05T10:00:00+24:00", "IFC", "IFC5", "ViewDefinition [", "ViewDefinition []", "[a", "2;1", "3;1",
    "0000000000000000000000", "4000000000000000000000", "3$$$$$$$$$$$$$$$$$$$$$", "ééééééééééé", "33333333333333333333\u{e9}",
];

fn boundary(r: &mut Rng, s: &str) -> usize {
    let mut i = r.below(s.len() + 1);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

pub fn mutate(r: &mut Rng, s: &mut String, other: &str) {
    let (mut a, mut b) = (boundary(r, s), boundary(r, s));
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    let near = |s: &str, a: usize, r: &mut Rng| {
        let mut e = (a + r.below(12)).min(s.len());
        while !s.is_char_boundary(e) {
            e += 1;
        }
        e
    };
    match r.below(15) {
        0 => s.replace_range(a..b, ""),
        1 | 2 => {
            let e = near(s, a, r);
            s.replace_range(a..e, "");
        }
        3 | 4 => s.insert_str(a, r.pick(TOKENS)),
        5 => {
            let e = near(s, a, r);
            s.replace_range(a..e, r.pick(TOKENS));
        }
        6 => {
            // replace one whole number
            let num: Vec<(usize, usize)> = spans(s, |c| c.is_ascii_digit());
            if !num.is_empty() {
                let (x, y) = *r.pick(&num);
                let t = if r.chance(1, 3) { int(r, true).to_string() } else { r.pick(TOKENS).to_string() };
                s.replace_range(x..y, &t);
            }
        }
        7 => {
            // replace one whole word
            let num: Vec<(usize, usize)> = spans(s, |c| c.is_ascii_alphanumeric() || c == '_');
            if !num.is_empty() {
                let (x, y) = *r.pick(&num);
                let (p, q) = *r.pick(&num);
                let t = if r.coin() { s[p..q].to_string() } else { r.pick(TOKENS).to_string() };
                s.replace_range(x..y, &t);
            }
        }
        8 => {
            let p = s[a..near(s, a, r)].to_string();
            s.insert_str(b, &p);
        }
        9 => {
            let p = s[a..b].to_string();
            if p.len() < 4000 {
                s.insert_str(a, &p);
            }
        }
        10 => {
            let x = boundary(r, other);
            let y = near(other, x, r);
            s.insert_str(a, &other[x..y]);
        }
        11 => {
            let c = any_char(r);
            s.insert(a, c);
        }
        12 => {
            // change one character
            if let Some(c) = s[a..].chars().next() {
                let d = if r.coin() { any_char(r) } else { (b' ' + r.below(95) as u8) as char };
                s.replace_range(a..a + c.len_utf8(), &d.to_string());
            }
        }
        13 if !s.is_empty() => {
            let l: Vec<&str> = s.split_inclusive('\n').collect();
            let mut l: Vec<String> = l.iter().map(|x| x.to_string()).collect();
            let (x, y) = (r.below(l.len()), r.below(l.len()));
            l.swap(x, y);
            *s = l.concat();
        }
        _ => {
            let refs: Vec<(usize, usize)> = spans(s, |c| c == '#' || c.is_ascii_digit()).into_iter().filter(|(x, _)| s.as_bytes()[*x] == b'#').collect();
            if refs.len() > 1 {
                let (x, y) = *r.pick(&refs);
                let (p, q) = *r.pick(&refs);
                let t = s[p..q].to_string();
                s.replace_range(x..y, &t);
            }
        }
    }
}

fn spans(s: &str, f: impl Fn(char) -> bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut st = None;
    for (i, c) in s.char_indices() {
        match (f(c), st) {
            (true, None) => st = Some(i),
            (false, Some(x)) => {
                v.push((x, i));
                st = None;
            }
            _ => {}
        }
    }
    if let Some(x) = st {
        v.push((x, s.len()));
    }
    v
}

/// load, and save what was loaded; false after a violation
fn survives(cx: &mut Cx, text: &str, what: &str) {
    let short = cut(text, 4000);
    match load(text) {
        Err(p) => cx.fail(format!("loading {what}: {p}"), short),
        Ok(Err(_)) => cx.count("refused with an error"),
        Ok(Ok(m)) => {
            cx.count("accepted");
            match save(&m) {
                Ok(_) => cx.count("accepted and saved"),
                Err(p) => cx.fail(format!("saving {what}: {p}"), short),
            }
        }
    }
}

pub fn run04(cx: &mut Cx) {
    let heavy = cx.case % 200 == 7;
    let o = Opts { kinds: 6, ..Opts::default() };
    let ks = &schema().kinds;
    let k = ks[cx.case as usize % ks.len()].name;
    let f = gen_with(&mut cx.r, &o, &[k]);
    let l = lay(&mut cx.r);
    let base = render(&mut cx.r, l, &f, true);
    let mut text;
    if heavy {
        // long and deeply nested input
        let mut n = *cx.r.pick(&[1000usize, 20_000, 100_000]);
        let open = *cx.r.pick(&["(", "IFCX(", "((", "/*", "'", "(#1,", "''", "\\X2\\", "#1=", "$,", "*", "IFCLABEL(", " ", "/**/", "-", "9", "[", "."]);
        // runs of layout inside of an opaque instance take quadratic time, which is slow but ends
        if matches!(open, " " | "/*" | "/**/" | "''" | "'") {
            n = n.min(4000);
        }
        let big = open.repeat(n);
        let close = if cx.r.coin() { ")".repeat(n * open.matches('(').count()) } else { String::new() };
        text = match cx.r.below(7) {
            0 => wrap(&format!("#1= IFCX({big}{close});")),
            1 => wrap(&format!("#1= {big}{close};")),
            2 => wrap(&format!("#1= {}({big}{close});", ks[cx.case as usize % ks.len()].kw)),
            3 => big.clone(),
            4 => wrap("").replace("(''),(''),'','',''", &format!("({big}{close}),(''),'','',''")),
            5 => wrap(&format!("#1= IFCCARTESIANPOINTLIST3D(({}),$);", "(1.,2.,3.),".repeat(n.min(30000)).trim_end_matches(','))),
            _ => wrap(&format!("#1= IFCMATERIAL('{}',$,$);", big.replace('\'', ""))),
        };
        cx.count("long or deeply nested texts");
    } else {
        text = base.clone();
        let other = if cx.r.chance(1, 3) { resources().first().cloned().unwrap_or(base) } else { base };
        let most = if cx.r.chance(1, 4) { 12 } else { 3 };
        let n = 1 + cx.r.below(most);
        for _ in 0..n {
            mutate(&mut cx.r, &mut text, &other);
        }
        cx.count("mutated texts");
    }
    let _ = std::fs::write(cx.scratch.join("input"), &text);
    survives(cx, &text, "a hostile text");
    cx.eval(&text);
    if !heavy {
        cx.sample(|| text.clone());
    }
    // special targets: every kind with one attribute replaced by each token
    if cx.case % 16 == 0 {
        let i = f.insts.iter().find(|i| i.kind.is_some_and(|x| x.name == k)).unwrap();
        let body = body(&mut cx.r, Lay::Plain, i, false);
        let others = simple_render(&f);
        for t in TOKENS {
            let sp = spans(&body, |c| !matches!(c, ',' | '(' | ')'));
            let (x, y) = *cx.r.pick(&sp);
            let mut b = body.clone();
            b.replace_range(x..y, t);
            let text = others.replace(&format!("#{}= {body};", i.id), &format!("#{}= {b};", i.id));
            let _ = std::fs::write(cx.scratch.join("input"), &text);
            survives(cx, &text, "an instance with a hostile attribute");
            cx.eval(&text);
            cx.count("attributes replaced by hostile tokens");
        }
    }
}

// ---------------------------------------------------------------- P05

pub fn run05(cx: &mut Cx) {
    let ks = &schema().kinds;
    let k = ks[cx.case as usize % ks.len()].name;
    let mut f = gen_with(&mut cx.r, &Opts { kinds: 5, pad: true, ..Opts::default() }, &[k]);
    if cx.r.chance(1, 12) {
        f.insts.clear();
    }
    let l = lay(&mut cx.r);
    let mut text = render(&mut cx.r, l, &f, true);
    // taken in completely
    match load(&text) {
        Err(p) => return cx.fail(p, text),
        Ok(Err(e)) => return cx.fail(format!("a well-formed file is refused: {}", cut(&e, 400)), text),
        Ok(Ok(m)) => {
            for i in &f.insts {
                if !m.data.contains(&Id(i.id as usize)) {
                    return cx.fail(format!("instance #{} is missing from the model", i.id), text);
                }
            }
            let mut listed: Vec<u64> = typed::NAMES.iter().flat_map(|n| typed::listed(&m, n)).collect();
            listed.extend(typed::listed(&m, "Dummy"));
            // kinds which cannot be named outside of the library are not listed
            let ids: BTreeSet<u64> = f.insts.iter().map(|i| i.id).collect();
            for i in listed {
                if !ids.contains(&i) {
                    return cx.fail(format!("the model has an instance #{i} which is not in the file"), text);
                }
            }
            if let Err(e) = save(&m).and_then(|s| compare_saved(&f, &s, false, false)) {
                return cx.fail(e, text);
            }
            cx.add("instances accounted for", f.insts.len() as u64);
        }
    }
    cx.eval(&text);
    // cut off before the end mark is complete
    let Some(end) = step::end_of(&text) else { panic!("the generated file is not well-formed: {text}") };
    let mut cuts: BTreeSet<usize> = (end - 40.min(end)..end).collect();
    for _ in 0..if cx.thorough { 120 } else { 25 } {
        cuts.insert(cx.r.below(end));
    }
    // right after a complete instance, record or section
    let semi: Vec<usize> = text[..end - 1].match_indices(';').map(|x| x.0 + 1).collect();
    for _ in 0..10 {
        cuts.insert(*cx.r.pick(&semi));
    }
    for c in cuts {
        if !text.is_char_boundary(c) {
            continue;
        }
        let part = &text[..c];
        match load(part) {
            Err(p) => return cx.fail(p, part.to_string()),
            Ok(Ok(_)) => return cx.fail(format!("a file cut off after {c} of {end} bytes is accepted"), part.to_string()),
            Ok(Err(_)) => cx.count("cut files refused"),
        }
    }
    // cut off inside of a string or comment that looks like the end of the file
    {
        let mut g = f.clone();
        let tricky = ["", ";", ");", " ;\n", "x,$);"];
        let fake = format!("{}ENDSEC;{}END-ISO-10303-21;", cx.r.pick(&tricky), cx.r.pick(&["", "\n", " "]));
        let id = (0..).find(|i| g.insts.iter().all(|x| x.id != *i)).unwrap();
        let open = *cx.r.pick(&["IFCMATERIAL('", "IFCMATERIAL($,$,'", "IFCX('", "IFCX(/*", "IFCX('a''", "IFCMATERIAL(/*", "IFCX('a',/* b */'", "IFCX/*", "/*"]);
        let raw = format!("{open}{fake}{}", if open.ends_with('*') { "*/($,$,$)" } else { "',$,$)" });
        g.insts.push(GInst { id, kind: None, kw: String::new(), args: vec![], raw: raw.clone() });
        let t = render(&mut cx.r, l, &g, false);
        let c = t.rfind(&raw).unwrap() + raw.find(&fake).unwrap() + fake.len();
        match load(&t[..c]) {
            Err(p) => return cx.fail(p, t),
            Ok(Ok(_)) => return cx.fail(format!("a file cut off inside of a string or comment, after {c} bytes, is accepted"), t),
            Ok(Err(_)) => cx.count("files cut in a string or comment refused"),
        }
    }
    // text after the end mark
    let tail = *cx.r.pick(&[
        "x", ";", "#1= IFCWALL($);", "/* open", "*/", "END-ISO-10303-21;", "ENDSEC;", "DATA;ENDSEC;", "'", "\u{0}", "\u{1a}", "ISO-10303-21;", ".", "(",
        "/", "\u{a0}", "\u{feff}", "0",
    ]);
    let mut t = text.clone();
    layout(&mut cx.r, l, &mut t, 5);
    t.push_str(tail);
    if cx.r.coin() {
        t.push('\n');
    }
    let double = format!("{text}{text}");
    for (t, what) in [(&t, format!("followed by {tail:?}")), (&double, "followed by itself".into())] {
        match load(t) {
            Err(p) => return cx.fail(p, t.to_string()),
            Ok(Ok(_)) => return cx.fail(format!("a file {what} is accepted"), t.to_string()),
            Ok(Err(_)) => cx.count("files with further text refused"),
        }
    }
    // only layout after it is fine
    layout(&mut cx.r, Lay::Comment, &mut text, 10);
    if !matches!(load(&text), Ok(Ok(_))) {
        return cx.fail("a file followed by layout is refused", text);
    }
    // sections missing
    let plain = simple_render(&f);
    // the plain layout has the header up to the line before `DATA;`
    let head = plain.find("HEADER;\n").unwrap();
    let hl = header_render(&mut Rng::new(0), Lay::Plain, &f.header).len();
    let data = hl + 1;
    assert!(plain[data..].starts_with("DATA;\n"));
    let tail = plain.rfind("END-ISO-10303-21;").unwrap();
    let variants = [
        ("without its header section", format!("{}{}", &plain[..head], &plain[data..])),
        ("without its data section", format!("{}{}", &plain[..data], &plain[tail..])),
        ("without both sections", format!("{}{}", &plain[..head], &plain[tail..])),
        ("without its start mark and header", plain[data..].to_string()),
        ("with its sections exchanged", format!("{}{}{}{}", &plain[..head], &plain[data..tail], &plain[head..data], &plain[tail..])),
    ];
    for (what, t) in variants {
        match load(&t) {
            Err(p) => return cx.fail(p, t),
            Ok(Ok(_)) => return cx.fail(format!("a file {what} is accepted"), t),
            Ok(Err(_)) => cx.count("files with missing sections refused"),
        }
    }
    // two instances with one number
    if f.insts.len() > 1 {
        let mut g = f.clone();
        let a = cx.r.below(g.insts.len());
        let mut b = cx.r.below(g.insts.len() - 1);
        if b >= a {
            b += 1;
        }
        if cx.r.coin() {
            // the same instance again
            let at = cx.r.below(g.insts.len() + 1);
            let mut x = g.insts[a].clone();
            if cx.r.coin() {
                x.raw = "IFCX()".into();
                x.kind = None;
            }
            g.insts.insert(at, x);
        } else {
            g.insts[b].id = g.insts[a].id;
        }
        let t = render(&mut cx.r, l, &g, true);
        match load(&t) {
            Err(p) => return cx.fail(p, t),
            Ok(Ok(_)) => return cx.fail("a file which numbers two instances alike is accepted", t),
            Ok(Err(_)) => cx.count("files with a repeated number refused"),
        }
    }
    // a second data section: refused, or taken in as well
    let body = &plain[data..tail];
    let unused = (1..).find(|i| f.insts.iter().all(|x| x.id != *i)).unwrap();
    let used = f.insts.first().map(|i| i.id);
    for n in [Some(unused), used].into_iter().flatten() {
        let more = format!("{body}DATA;\n#{n}= {};\nENDSEC;\n", cx.r.pick(&["IFCX()", "IFCMATERIAL($,$,$)", "IFCPOLYLINE(())"]));
        let t = format!("{}{more}{}", &plain[..data], &plain[tail..]);
        match taken_in(&t, &more) {
            Err(e) => return cx.fail(format!("a file with two data sections: {e}"), t),
            Ok(_) => cx.count("files with two data sections"),
        }
    }
    // a record of the header missing
    let parts: Vec<&str> = [0, 1, 2].iter().map(|i| &plain[start_of(&plain, *i)..start_of(&plain, i + 1)]).collect();
    let k = cx.r.below(3);
    let t = format!("{}{}{}", &plain[..start_of(&plain, k)], "", &plain[start_of(&plain, k) + parts[k].len()..]);
    match load(&t) {
        Err(p) => return cx.fail(p, t),
        Ok(Ok(_)) => return cx.fail("a file without one of the three header records is accepted", t),
        Ok(Err(_)) => cx.count("files without a header record refused"),
    }
    // small damage to the data section: whatever is still accepted has every numbered instance
    for _ in 0..if cx.thorough { 60 } else { 12 } {
        let mut d = body.to_string();
        damage(&mut cx.r, &mut d);
        let t = format!("{}{d}{}", &plain[..data], &plain[tail..]);
        match taken_in(&t, &d) {
            Err(e) => return cx.fail(format!("a file with a damaged data section: {e}"), t),
            Ok(true) => cx.count("damaged files accepted completely"),
            Ok(false) => cx.count("damaged files refused"),
        }
    }
    cx.sample(|| plain);
}

/// where the i-th header record of a plain text starts (3: the end of the header section)
fn start_of(plain: &str, i: usize) -> usize {
    let mut at = plain.find("HEADER;\n").unwrap() + 8;
    for _ in 0..i {
        let mut quoted = false;
        let n = plain[at..]
            .find(|c| {
                quoted ^= c == '\'';
                c == ';' && !quoted
            })
            .unwrap();
        at += n + 2;
    }
    at
}

/// the numbers in front of an equals sign, outside of strings and comments
fn numbers(s: &str) -> Vec<u64> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    let skip = |mut i: usize| -> usize {
        // layout
        loop {
            if s[i..].starts_with("/*") {
                i = s[i + 2..].find("*/").map_or(s.len(), |n| i + 2 + n + 2);
            } else if i < b.len() && b[i].is_ascii_whitespace() {
                i += 1;
            } else {
                return i;
            }
        }
    };
    while i < b.len() {
        match b[i] {
            b'\'' => i = s[i + 1..].find('\'').map_or(s.len(), |n| i + n + 2),
            b'/' if s[i..].starts_with("/*") => i = skip(i),
            b'#' => {
                let e = i + 1 + s[i + 1..].bytes().take_while(|c| c.is_ascii_digit()).count();
                let n = skip(e);
                if n < b.len() && b[n] == b'=' {
                    v.extend(s[i + 1..e].parse::<u64>());
                }
                i = e;
            }
            _ => i += 1,
        }
    }
    v
}

/// if the text is accepted, the model has exactly the instances numbered in its data section
fn taken_in(text: &str, data: &str) -> Result<bool, String> {
    let m = match load(text)? {
        Err(_) => return Ok(false),
        Ok(m) => m,
    };
    let mut want = numbers(data);
    let all = want.len();
    want.sort();
    want.dedup();
    if want.len() != all {
        return Err("accepted although it numbers two instances alike".into());
    }
    let saved = save(&m)?;
    let mut got = numbers(&saved);
    got.sort();
    if got != want {
        let miss: Vec<&u64> = want.iter().filter(|i| !got.contains(i)).collect();
        return Err(format!("it is accepted, but {} of the {} numbered instances are in the model, missing {miss:?}", got.len(), want.len()));
    }
    if let Some(i) = want.iter().find(|i| !m.data.contains(&Id(**i as usize))) {
        return Err(format!("it is accepted without instance #{i}"));
    }
    Ok(true)
}

/// one small damage
fn damage(r: &mut Rng, s: &mut String) {
    let places: Vec<usize> = match r.below(4) {
        0 => s.match_indices(';').map(|x| x.0).collect(),
        1 => s.char_indices().filter(|c| "();,'=#*/".contains(c.1)).map(|c| c.0).collect(),
        _ => s.char_indices().map(|c| c.0).collect(),
    };
    let at = *r.pick(&places);
    let mut end = (at + 1 + if r.coin() { 0 } else { r.below(20) }).min(s.len());
    while !s.is_char_boundary(end) {
        end += 1;
    }
    match r.below(5) {
        0 | 1 | 2 => s.replace_range(at..end, ""),
        3 => s.insert_str(at, *r.pick(&[";", "'", "/*", "*/", "=", "#", "(", ")", ",", "#5=", "#5= IFCX()", "ENDSEC;", "\n", "''", "\"", "$"])),
        _ => {
            let t = s[at..end].to_string();
            s.insert_str(at, &t);
        }
    }
}

// ---------------------------------------------------------------- P06, P07

fn base(t: &Ty) -> Option<(&Vec<&'static str>, bool)> {
    match t {
        Ty::Ref(k) => Some((k, false)),
        Ty::List(t) => match &**t {
            Ty::Ref(k) => Some((k, true)),
            _ => None,
        },
        _ => None,
    }
}

/// all type-checked reference attributes: kind, attribute index
pub fn slots() -> &'static Vec<(&'static Kind, usize)> {
    static S: OnceLock<Vec<(&'static Kind, usize)>> = OnceLock::new();
    S.get_or_init(|| {
        schema()
            .kinds
            .iter()
            .flat_map(|k| (0..k.attrs.len()).filter(|i| base(&k.attrs[*i].ty).is_some()).map(move |i| (k, i)))
            .collect()
    })
}

fn put_ref(r: &mut Rng, v: &V, list: bool, id: u64) -> V {
    if !list {
        return V::Ref(id);
    }
    let mut l = v.list().to_vec();
    if l.is_empty() || r.coin() {
        l.insert(r.below(l.len() + 1), V::Ref(id));
    } else {
        let n = l.len();
        l[r.below(n)] = V::Ref(id);
    }
    V::List(l)
}

fn names(msg: &str, id: u64) -> bool {
    let t = format!("#{id}");
    msg.match_indices(&t).any(|(i, _)| !msg[i + t.len()..].starts_with(|c: char| c.is_ascii_digit()))
}

pub fn run06(cx: &mut Cx) {
    let sl = slots();
    let (k, ai) = sl[cx.case as usize % sl.len()];
    let (allowed, list) = base(&k.attrs[ai].ty).unwrap();
    let mut wrong: Vec<&'static str> = schema().kinds.iter().map(|k| k.name).filter(|n| !allowed.contains(n)).collect();
    cx.r.shuffle(&mut wrong);
    wrong.truncate(8);
    let mut want = vec![k.name];
    want.extend(&wrong);
    let mut f = gen_with(&mut cx.r, &Opts { kinds: 3, hostile_text: false, pad: true, ..Opts::default() }, &want);
    let l = lay(&mut cx.r);
    let text = render(&mut cx.r, l, &f, false);
    match load(&text) {
        Err(p) => return cx.fail(p, text),
        Ok(Err(e)) => return cx.fail(format!("a file with correct references is refused: {}", cut(&e, 400)), text),
        Ok(Ok(_)) => cx.count("control files accepted"),
    }
    let holders: Vec<usize> = (0..f.insts.len()).filter(|i| f.insts[*i].kind.is_some_and(|x| x.name == k.name)).collect();
    // a long list with one bad reference among good ones
    let long = list && cx.r.chance(1, 6);
    if long {
        let good: Vec<u64> =
            f.insts.iter().filter(|i| i.kind.is_some_and(|x| allowed.contains(&x.name))).map(|i| i.id).collect();
        if !good.is_empty() {
            let n = *cx.r.pick(&[20, 70, 300, 1100, 4200]);
            for h in &holders {
                f.insts[*h].args[ai] = V::List((0..n).map(|_| V::Ref(*cx.r.pick(&good))).collect());
            }
            cx.count("long lists with a bad reference");
        }
    }
    let mut targets: Vec<(u64, String)> = vec![];
    for w in &wrong {
        let c: Vec<u64> = f.insts.iter().filter(|i| i.kind.is_some_and(|x| x.name == *w)).map(|i| i.id).collect();
        targets.push((*cx.r.pick(&c), format!("of kind {w}")));
    }
    let missing = loop {
        let id = if cx.r.coin() { cx.r.below(200) as u64 } else { cx.r.u64() >> (1 + cx.r.below(60)) };
        if f.insts.iter().all(|i| i.id != id) {
            break id;
        }
    };
    targets.push((missing, "missing from the file".into()));
    for (t, what) in targets {
        let h = *cx.r.pick(&holders);
        let mut g = f.clone();
        g.insts[h].args[ai] = put_ref(&mut cx.r, &g.insts[h].args[ai], list, t);
        let id = g.insts[h].id;
        let text = render(&mut cx.r, l, &g, false);
        match load(&text) {
            Err(p) => return cx.fail(p, text),
            Ok(Ok(_)) => {
                return cx.fail(format!("#{id} {} attribute {}: reference to #{t}, {what}, is accepted", k.kw, ai + 1), text)
            }
            Ok(Err(e)) => {
                if !names(&e, id) {
                    return cx.fail(format!("the error does not name #{id}: {}", cut(&e, 300)), text);
                }
                cx.count("bad references refused");
                cx.eval(&format!("{} {ai} {what}", k.name));
            }
        }
    }
    cx.count(&format!("slot {}.{}", k.name, ai + 1));
    cx.sample(|| text);
}

pub fn run07(cx: &mut Cx) {
    let sl = slots();
    let n = cx.case as usize;
    let (k, ai) = sl[n % sl.len()];
    let (allowed, list) = base(&k.attrs[ai].ty).unwrap();
    let mut targets: Vec<Option<&'static str>> = allowed.iter().map(|a| Some(*a)).collect();
    targets.push(None);
    let mut want = vec![k.name];
    want.extend(allowed.iter());
    let f = gen_with(&mut cx.r, &Opts { kinds: 2, hostile_text: false, pad: true, ..Opts::default() }, &want);
    let holders: Vec<usize> = (0..f.insts.len()).filter(|i| f.insts[*i].kind.is_some_and(|x| x.name == k.name)).collect();
    for t in targets {
        let mut g = f.clone();
        let target = match t {
            Some(t) => {
                let c: Vec<u64> = g.insts.iter().filter(|i| i.kind.is_some_and(|x| x.name == t)).map(|i| i.id).collect();
                *cx.r.pick(&c)
            }
            None => {
                let id = loop {
                    let id = cx.r.below(100_000) as u64;
                    if g.insts.iter().all(|i| i.id != id) {
                        break id;
                    }
                };
                let raw = opaque_body(&mut cx.r, &[]);
                g.insts.push(GInst { id, kind: None, kw: String::new(), args: vec![], raw });
                id
            }
        };
        let h = *cx.r.pick(&holders);
        g.insts[h].args[ai] = put_ref(&mut cx.r, &g.insts[h].args[ai], list, target);
        let (hid, expect) = (g.insts[h].id, g.insts[h].args[ai].clone());
        // the target before or after the holder
        let before = cx.r.coin();
        cx.r.shuffle(&mut g.insts);
        let hp = g.insts.iter().position(|i| i.id == hid).unwrap();
        let tp = g.insts.iter().position(|i| i.id == target).unwrap();
        if hp != tp && (tp < hp) != before {
            g.insts.swap(hp, tp);
        }
        let l = lay(&mut cx.r);
        let text = render(&mut cx.r, l, &g, false);
        match reload(&text) {
            Err(e) => {
                return cx.fail(
                    format!("#{hid} {} attribute {} referring to a {}: {}", k.kw, ai + 1, t.unwrap_or("unsupported kind"), cut(&e, 400)),
                    text,
                )
            }
            Ok(s) => {
                let saved = step::parse(&s).ok();
                let got = saved.as_ref().and_then(|f| f.get(hid)).and_then(|i| i.args.get(ai));
                if got.is_none_or(|v| !step::sem_eq(&expect, v)) {
                    return cx.fail(format!("#{hid} {} attribute {} reads as {:?}", k.kw, ai + 1, got.map(step::show)), text);
                }
                cx.count(if hp == tp {
                    "reference to itself"
                } else if before {
                    "target before the reference"
                } else {
                    "target after the reference"
                });
                if t.is_none() {
                    cx.count("reference to an unsupported kind");
                }
                cx.eval(&format!("{} {ai} {t:?} {before}", k.name));
            }
        }
        cx.sample(|| text);
    }
}

// ---------------------------------------------------------------- P08

fn reading(m: &IFC, f: &GFile) -> Vec<(u64, Option<(&'static str, Vec<V>)>)> {
    f.insts.iter().map(|i| (i.id, typed::typed(m.data.get_untyped(Id(i.id as usize))))).collect()
}

pub fn run08(cx: &mut Cx) {
    let ks = &schema().kinds;
    let k = ks[cx.case as usize % ks.len()].name;
    let f = gen_with(&mut cx.r, &Opts { kinds: 8, pad: true, ..Opts::default() }, &[k]);
    let plain = simple_render(&f);
    let read = |t: &str| -> Result<(String, Vec<_>), String> {
        let m = load(t)??;
        Ok((save(&m)?, guard(|| reading(&m, &f))?))
    };
    let (s0, r0) = match read(&plain) {
        Ok(x) => x,
        Err(e) => return cx.fail(format!("a well-formed file is not loaded: {}", cut(&e, 400)), plain),
    };
    for v in 0..4 {
        let mut g = f.clone();
        if v > 0 {
            cx.r.shuffle(&mut g.insts);
        }
        let l = if v < 2 { Lay::Comment } else { lay(&mut cx.r) };
        let text = render(&mut cx.r, l, &g, false);
        match read(&text) {
            Err(e) => return cx.fail(format!("the same file in another layout or order is refused: {}", cut(&e, 400)), text),
            Ok((s, r)) => {
                if s != s0 {
                    let d = s0.lines().zip(s.lines()).find(|(a, b)| a != b);
                    return cx.fail(format!("the same file in another layout or order reads differently, first at {d:?}"), text);
                }
                if r != r0 {
                    let d = r0.iter().zip(&r).find(|(a, b)| a != b);
                    return cx.fail(format!("the same file in another layout or order reads differently, first at {d:?}"), text);
                }
                cx.count(match (l, v > 0) {
                    (Lay::Comment, _) => "variants with comments",
                    (Lay::Blank, _) => "variants with blanks",
                    (Lay::Plain, _) => "variants in another order only",
                });
                if text.contains("/*") {
                    cx.add("comments", text.matches("/*").count() as u64);
                }
                cx.eval(&text);
                cx.sample(|| text.clone());
            }
        }
    }
}

// ---------------------------------------------------------------- P19

fn str_list(v: &V) -> Option<Vec<String>> {
    v.list().iter().map(|x| x.s().map(|s| s.to_string())).collect()
}

/// the header of a saved text against the meant values
pub fn header_diff(h: &GHeader, saved: &str) -> Result<(), String> {
    let f = step::parse(saved)?;
    let names: Vec<&str> = f.header.iter().map(|r| r.0.as_str()).collect();
    if names != ["FILE_DESCRIPTION", "FILE_NAME", "FILE_SCHEMA"] {
        return Err(format!("header records {names:?}"));
    }
    let d = &f.header[0].1;
    if d.len() != 2 || d[1] != V::Str("2;1".into()) {
        return Err(format!("file description {}", step::show(&V::List(d.clone()))));
    }
    let mut views = vec![];
    for v in str_list(&d[0]).ok_or("file description is no list of strings")? {
        if v.is_empty() {
            continue;
        }
        let p = v.split_once('[').and_then(|(n, r)| r.trim_end().strip_suffix(']').map(|i| (n, i)));
        let Some((n, i)) = p else { return Err(format!("view definition {v:?}")) };
        let items: Vec<String> = i.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
        views.push((n.trim().to_string(), items));
    }
    if views != h.views {
        return Err(format!("view definitions {views:?} instead of {:?}", h.views));
    }
    let n = &f.header[1].1;
    if n.len() != 7 {
        return Err(format!("{} values in the file name record", n.len()));
    }
    let want = h.name.clone().unwrap_or_default();
    if n[0].s() != Some(&want) {
        return Err(format!("file name {} instead of {want:?}", step::show(&n[0])));
    }
    let (y, mo, dd, hh, mi, s) = civil(h.time);
    let t = format!("{y:04}-{mo:02}-{dd:02}T{hh:02}:{mi:02}:{s:02}");
    if n[1].s() != Some(&t) && n[1].s() != Some(&format!("{t}Z")) {
        return Err(format!("time stamp {} instead of {t}", step::show(&n[1])));
    }
    for (i, w, what) in [(2, &h.authors, "authors"), (3, &h.orgs, "organisations")] {
        if str_list(&n[i]).as_ref() != Some(w) {
            return Err(format!("{what} {} instead of {w:?}", step::show(&n[i])));
        }
    }
    for (i, w, what) in [(4, &h.prep, "preprocessor"), (5, &h.sys, "originating system"), (6, &h.auth, "authorisation")] {
        if n[i].s() != Some(w) {
            return Err(format!("{what} {} instead of {w:?}", step::show(&n[i])));
        }
    }
    let sc = str_list(&f.header[2].1[0]).unwrap_or_default();
    if f.header[2].1.len() != 1 || sc != h.schemas {
        return Err(format!("schemas {sc:?} instead of {:?}", h.schemas));
    }
    Ok(())
}

/// the fields of a loaded header against the meant values
fn header_fields(h: &GHeader, m: &IFC) -> Result<(), String> {
    let x = &m.header;
    let views: Vec<(String, Vec<String>)> =
        x.description.descriptions.iter().map(|d| (d.name.trim().to_string(), d.items.clone())).filter(|d| !d.0.is_empty() || !d.1.is_empty()).collect();
    let b = |c: bool, what: &str| if c { Ok(()) } else { Err(format!("{what} of the loaded header: {:?}", x)) };
    b(views == h.views, "view definitions")?;
    b(x.name.name.0 == h.name.clone().unwrap_or_default(), "file name")?;
    b(x.name.timestamp.0.timestamp() == h.time, "time stamp")?;
    b(x.name.author.0.iter().map(|a| &a.0).eq(h.authors.iter()), "authors")?;
    b(x.name.organization.0.iter().map(|a| &a.0).eq(h.orgs.iter()), "organisations")?;
    b(x.name.preprocessor_version.0 == h.prep, "preprocessor")?;
    b(x.name.originating_system.0 == h.sys, "originating system")?;
    b(x.name.authorization.0 == h.auth, "authorisation")?;
    b(x.schema.0.iter().map(|s| format!("{s:?}")).eq(h.schemas.iter().map(|s| s.to_string())), "schemas")
}

pub fn run19(cx: &mut Cx) {
    let h = header(&mut cx.r);
    let f = GFile { header: h, insts: vec![] };
    let l = lay(&mut cx.r);
    let text = render(&mut cx.r, l, &f, false);
    let m = match load(&text) {
        Err(p) => return cx.fail(p, text),
        Ok(Err(e)) => return cx.fail(format!("a well-formed header is refused: {}", cut(&e, 400)), text),
        Ok(Ok(m)) => m,
    };
    if let Err(e) = header_fields(&f.header, &m) {
        return cx.fail(e, text);
    }
    let saved = match save(&m) {
        Err(p) => return cx.fail(p, text),
        Ok(s) => s,
    };
    if let Err(e) = header_diff(&f.header, &saved) {
        return cx.fail(format!("{e}; saved as {}", cut(&saved, 600)), text);
    }
    cx.count("headers kept");
    match load(&saved) {
        Ok(Ok(n)) => {
            let mut meant = m.header.clone();
            meant.name.timestamp.0 = chrono::DateTime::from_timestamp(m.header.name.timestamp.0.timestamp(), 0).unwrap_or_default();
            if n.header != meant {
                return cx.fail(format!("the header reads back as {:?}", n.header), text);
            }
        }
        e => return cx.fail(format!("the saved header does not load: {:?}", e.map(|x| x.err())), text),
    }
    // another word of the header: refused or kept
    let (k, words): (&str, &[&str]) = *cx.r.pick(&[
        ("'IFC4'", &["'IFC5'", "'IFC4X1'", "'IFC4X4'", "'IFC'", "'IFC2X2'", "'IFC4X3_ADD1'", "'IFC4X3_ADD3'", "'XIFC4'", "'IFC44'", "'AP214'", "''", "'4'", "'IFC2X33'", "$", "'IFC4X3_RC4'"][..]),
        ("'2;1'", &["'2;2'", "'3;1'", "'2;1;1'", "'1'", "''", "'4;3'", "'2,1'", "$"][..]),
        ("ISO-10303-21", &["ISO-10303-22", "ISO-10303-2", "ISO-10303-210", "ISO-1030321", "STEP"][..]),
        ("'2020-01-01T00:00:00'", &["'2020-01-01'", "'2020-13-01T00:00:00'", "'2020-02-30T00:00:00'", "'2020-01-01T25:00:00'", "'2020-01-01T00:61:00'", "''", "$", "'today'", "'2020-01-01T00:00:00+99:00'"][..]),
    ]);
    let w = *cx.r.pick(words);
    let plain = wrap("");
    let t = if k.starts_with("ISO") && cx.r.coin() {
        let at = plain.rfind(k).unwrap();
        format!("{}{w}{}", &plain[..at], &plain[at + k.len()..])
    } else {
        plain.replacen(k, w, 1)
    };
    match load(&t) {
        Err(p) => return cx.fail(p, t),
        Ok(Err(_)) => cx.count("odd words of the header refused"),
        Ok(Ok(o)) => match save(&o) {
            Ok(s) if s.contains(w) => cx.count("odd words of the header kept"),
            Ok(s) => return cx.fail(format!("{w} of the header is accepted and saved as something else: {}", cut(&s, 600)), t),
            Err(p) => return cx.fail(p, t),
        },
    }
    // values given by the API
    let mut n = m;
    let g = header(&mut cx.r);
    let mut want = f.header.clone();
    n.header.name.name.0 = g.name.clone().unwrap_or_default();
    want.name = g.name.clone();
    n.header.name.preprocessor_version.0 = g.prep.clone();
    want.prep = g.prep.clone();
    n.header.name.originating_system.0 = g.sys.clone();
    want.sys = g.sys.clone();
    n.header.name.authorization.0 = g.auth.clone();
    want.auth = g.auth.clone();
    for (a, w) in n.header.name.author.0.iter_mut().zip(want.authors.iter_mut()) {
        *w = header_text(&mut cx.r);
        a.0 = w.clone();
    }
    for (a, w) in n.header.name.organization.0.iter_mut().zip(want.orgs.iter_mut()) {
        *w = header_text(&mut cx.r);
        a.0 = w.clone();
    }
    if let Some(t) = chrono::DateTime::from_timestamp(g.time, cx.r.below(1_000_000_000) as u32) {
        n.header.name.timestamp.0 = t;
        want.time = g.time;
    }
    match save(&n) {
        Err(p) => return cx.fail(p, format!("{:?}", want)),
        Ok(s) => {
            if let Err(e) = header_diff(&want, &s) {
                return cx.fail(format!("values set by the API: {e}; saved as {}", cut(&s, 600)), format!("{want:?}"));
            }
            match load(&s) {
                Ok(Ok(k)) => {
                    if let Err(e) = header_fields(&want, &k) {
                        return cx.fail(format!("values set by the API: {e}"), s);
                    }
                }
                e => return cx.fail(format!("a header set by the API does not load: {:?}", e.map(|x| x.err())), s),
            }
            cx.count("headers set by the API kept");
        }
    }
    cx.eval(&text);
    cx.sample(|| text);
}

// ---------------------------------------------------------------- P20

fn from_disk(p: &std::path::Path) -> Result<Result<IFC, String>, String> {
    guard(|| IFC::from_file(p).map_err(|e| format!("{e:#}")))
}

pub fn run20(cx: &mut Cx) {
    use std::os::unix::ffi::OsStrExt;
    let f = gen(&mut cx.r, &Opts { kinds: if cx.case % 50 == 0 { 100 } else { 8 }, ..Opts::default() });
    let l = lay(&mut cx.r);
    let mut text = render(&mut cx.r, l, &f, true);
    match cx.r.below(8) {
        0 => {
            let o = text.clone();
            for _ in 0..3 {
                mutate(&mut cx.r, &mut text, &o);
            }
        }
        1 => text.insert(0, '\u{feff}'),
        2 => text = text.replace('\n', "\r\n"),
        3 if cx.case % 5 == 0 => text.push_str(&"\n ".repeat(2_000_000)),
        4 => text.push_str(*cx.r.pick(&["\0", "\0\0\0\0", "\n\0", "\u{1a}", "\u{c}", "\u{a0}", "\u{feff}", "\u{2028}", " ;", "x"])),
        5 if cx.case % 5 == 0 => {
            // a large file whose end matters
            let n = 150_000 + cx.r.below(150_000);
            let more: String = (0..n).map(|i| format!("#{}=IFCX();", 10_000_000_000 + i as u64)).collect();
            let at = text.rfind("ENDSEC").unwrap_or(text.len());
            text.insert_str(at, &more);
        }
        6 => {
            // more letters of several bytes than any buffer holds, on any offset
            let n = 2_000 << cx.r.below(8);
            let c = *cx.r.pick(&["ä", "漢", "🏠", "ä漢🏠x"]);
            let more = format!("{}{}", "x".repeat(cx.r.below(5)), c.repeat(n));
            let more = match cx.r.below(3) {
                0 => format!("/*{more}*/"),
                1 => format!("#10000000000=IFCX('{more}');"),
                _ => format!("#10000000000=IFCMATERIAL('{more}',$,$);"),
            };
            let at = text.rfind("ENDSEC").unwrap_or(text.len());
            text.insert_str(at, &more);
        }
        _ => {}
    }
    let name: &[u8] = *cx.r.pick(&[&b"model.ifc"[..], b"a b.ifc", b"\xff\xfe.ifc", "ä漢.ifc".as_bytes(), b"noext", b"model.ifczip", b"-x"]);
    let path = cx.scratch.join(std::ffi::OsStr::from_bytes(name));
    let write = |b: &[u8]| std::fs::write(&path, b).expect("scratch file");
    write(text.as_bytes());
    let stamp = |p: &std::path::Path| std::fs::metadata(p).and_then(|m| Ok((m.len(), m.modified()?))).ok();
    let before = stamp(&path);
    let (a, b) = (load(&text), from_disk(&path));
    let same = match (&a, &b) {
        (Ok(Ok(x)), Ok(Ok(y))) => {
            cx.count("files loaded from disk");
            save(x) == save(y) && x.header == y.header
        }
        (Ok(Err(_)), Ok(Err(_))) => {
            cx.count("bad files refused from disk");
            true
        }
        _ => false,
    };
    if !same {
        let s = |r: &Result<Result<IFC, String>, String>| match r {
            Err(p) => format!("panic {p}"),
            Ok(Err(e)) => format!("error {}", cut(e, 200)),
            Ok(Ok(m)) => format!("a model\n{}", cut(&m.to_string(), 1000)),
        };
        return cx.fail(format!("from disk: {}\nfrom text: {}", s(&b), s(&a)), cut(&text, 5000));
    }
    if std::fs::read(&path).ok().as_deref() != Some(text.as_bytes()) || stamp(&path) != before {
        return cx.fail("loading changed the file", cut(&text, 5000));
    }
    cx.count("files unchanged by loading");
    cx.eval(&text);
    let must_fail = |cx: &mut Cx, p: &std::path::Path, what: &str, replay: &[u8]| match from_disk(p) {
        Err(e) => cx.fail(format!("{what}: {e}"), String::from_utf8_lossy(replay).to_string()),
        Ok(Ok(_)) => cx.fail(format!("{what} gives a model"), String::from_utf8_lossy(replay).to_string()),
        Ok(Err(_)) => cx.count(what),
    };
    // not UTF-8, anywhere: in a comment, in a string, behind the end mark
    let good = simple_render(&gen(&mut cx.r, &Opts { kinds: 4, ..Opts::default() }));
    let bad = *cx.r.pick(&[&b"\xff"[..], b"\xe4", b"\xc3", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\x80", b"\xc0\xaf"]);
    let mut bytes = good.clone().into_bytes();
    let at = match cx.r.below(4) {
        0 => {
            bytes.extend(b"/* ");
            bytes.extend(bad);
            bytes.extend(b" */");
            None
        }
        1 => Some(bytes.len()),
        _ => Some(boundary(&mut cx.r, &good)),
    };
    if let Some(at) = at {
        bytes.splice(at..at, bad.iter().copied());
    }
    write(&bytes);
    must_fail(cx, &path, "file that is not UTF-8", &bytes);
    // cut in the middle
    let end = step::end_of(&good).expect("well-formed") - 1;
    let c = if cx.r.coin() { cx.r.below(end) } else { end - cx.r.below(60) };
    write(&good.as_bytes()[..c]);
    must_fail(cx, &path, "file that was cut off", &good.as_bytes()[..c]);
    if std::fs::read(&path).ok().as_deref() != Some(&good.as_bytes()[..c]) {
        cx.fail("loading changed the file", "");
    }
    let _ = std::fs::remove_file(&path);
    must_fail(cx, &path, "missing file", name);
    if path.exists() {
        cx.fail("loading made the file", "");
    }
    match cx.r.below(5) {
        0 => {
            let s = cx.scratch.clone();
            must_fail(cx, &s, "directory", b"");
        }
        1 => {
            write(b"x");
            let p = path.join("below");
            must_fail(cx, &p, "path below a file", b"");
        }
        2 => {
            let _ = std::os::unix::fs::symlink(&path, &path);
            must_fail(cx, &path, "link to itself", b"");
        }
        3 => must_fail(cx, std::path::Path::new(""), "empty path", b""),
        _ => {
            let p = cx.scratch.join("x".repeat(300));
            must_fail(cx, &p, "overlong name", b"");
        }
    }
    let _ = std::fs::remove_file(&path);
    cx.sample(|| text);
}
