//! P01: load-save keeps every supported instance with the same values.  P02: opaque ones verbatim.

use crate::common::*;
use crate::gen::*;
use crate::monitor::*;
use crate::schema::schema;

pub fn run(cx: &mut Cx) {
    // every kind in turn, plus random company
    let ks = &schema().kinds;
    let k = ks[cx.case as usize % ks.len()].name;
    let o = Opts { opaque: cx.case % 3 != 0, kinds: if cx.thorough { 40 } else { 14 }, long: true, pad: true, ..Opts::default() };
    let f = gen_with(&mut cx.r, &o, &[k]);
    let l = lay(&mut cx.r);
    let enc = o.encode_umlauts && cx.r.coin();
    let text = render(&mut cx.r, l, &f, enc);
    let saved = match reload(&text) {
        Ok(s) => s,
        Err(e) => return cx.fail(format!("a well-formed file is not loaded and saved: {}", cut(&e, 500)), text),
    };
    match compare_saved(&f, &saved, true, false) {
        Ok((nt, _)) => {
            cx.add("supported instances compared", nt);
            for i in &f.insts {
                if let Some(k) = i.kind {
                    cx.count(&format!("kind {}", k.name));
                }
            }
        }
        Err(e) => return cx.fail(e, text),
    }
    cx.eval(&text);
    cx.sample(|| text.clone());
}

pub fn run02(cx: &mut Cx) {
    let o = Opts { kinds: 10, pad: true, ..Opts::default() };
    let mut f = gen(&mut cx.r, &o);
    // more opaque ones, in any place
    let n = 1 + cx.r.below(6);
    let ids: Vec<u64> = f.insts.iter().map(|i| i.id).collect();
    let mut used: std::collections::HashSet<u64> = ids.iter().copied().collect();
    for _ in 0..n {
        let id = loop {
            let id = cx.r.below(5000) as u64;
            if used.insert(id) {
                break id;
            }
        };
        let raw = opaque_body(&mut cx.r, &ids);
        let at = cx.r.below(f.insts.len() + 1);
        f.insts.insert(at, GInst { id, kind: None, kw: String::new(), args: vec![], raw });
    }
    let l = lay(&mut cx.r);
    let text = render(&mut cx.r, l, &f, false);
    let saved = match reload(&text) {
        Ok(s) => s,
        Err(e) => return cx.fail(format!("a well-formed file is not loaded and saved: {}", cut(&e, 500)), text),
    };
    match compare_saved(&f, &saved, true, true) {
        Ok((nt, no)) => {
            cx.add("supported neighbours compared", nt);
            cx.add("opaque instances compared", no);
        }
        Err(e) => return cx.fail(e, text),
    }
    for i in f.insts.iter().filter(|i| i.kind.is_none()) {
        if i.raw.contains(';') {
            cx.count("with a semicolon inside of a string or comment");
        }
        if i.raw.contains("''") {
            cx.count("with an escaped quote");
        }
        cx.eval(&i.raw);
    }
    // saving again keeps them as well
    match reload(&saved) {
        Ok(again) => {
            if let Err(e) = compare_saved(&f, &again, false, true) {
                cx.fail(format!("after the second load: {e}"), text.clone());
            }
        }
        Err(e) => cx.fail(format!("the saved text is refused: {}", cut(&e, 500)), text.clone()),
    }
    cx.sample(|| text.clone());
}
