//! Small helpers shared by the monitors.

use crate::gen::GFile;
use crate::monitor::guard;
use crate::step;
use ifc_rs::IFC;
use std::str::FromStr;

/// load: Ok(Ok(model)), Ok(Err(message)), Err(panic)
pub fn load(text: &str) -> Result<Result<IFC, String>, String> {
    guard(|| IFC::from_str(text).map_err(|e| format!("{e:#}")))
}

pub fn save(ifc: &IFC) -> Result<String, String> {
    guard(|| ifc.to_string())
}

/// load and save; any failure as text
pub fn reload(text: &str) -> Result<String, String> {
    save(&load(text)??)
}

pub fn cut(s: &str, n: usize) -> String {
    if s.chars().count() > n {
        s.chars().take(n).collect::<String>() + " ..."
    } else {
        s.to_string()
    }
}

/// instances of a generated file compared with a saved text; first difference
pub fn compare_saved(f: &GFile, saved: &str, typed: bool, opaque: bool) -> Result<(u64, u64), String> {
    let s = step::parse(saved).map_err(|e| format!("the saved text is not a valid exchange file: {e}"))?;
    let m = s.map();
    let (mut nt, mut no) = (0, 0);
    for i in &f.insts {
        let Some(j) = m.get(&i.id) else {
            return Err(format!("instance #{} is missing from the saved text", i.id));
        };
        match i.kind {
            Some(k) if typed => {
                nt += 1;
                if j.kw != k.kw {
                    return Err(format!("instance #{} is saved as {} instead of {}", i.id, j.kw, k.kw));
                }
                if let Some(d) = step::args_diff(k.kw, &i.args, &j.args) {
                    return Err(format!("instance #{} {}: {d}; saved as {}", i.id, k.kw, cut(&j.raw, 400)));
                }
            }
            None if opaque => {
                no += 1;
                if j.raw != i.raw {
                    return Err(format!("opaque instance #{} is saved as {:?} instead of {:?}", i.id, j.raw, i.raw));
                }
            }
            _ => {}
        }
    }
    if m.len() != f.insts.len() || s.insts.len() != m.len() {
        let ids: std::collections::HashSet<u64> = f.insts.iter().map(|i| i.id).collect();
        let extra: Vec<u64> = s.insts.iter().map(|i| i.id).filter(|i| !ids.contains(i)).take(5).collect();
        return Err(format!("{} instances saved for {} loaded (not in the file: {extra:?})", s.insts.len(), f.insts.len()));
    }
    Ok((nt, no))
}
