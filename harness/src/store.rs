//! P12: histories of the instance store against a reference map.

use crate::common::*;
use crate::gen;
use crate::monitor::*;
use crate::prng::Rng;
use crate::schema;
use crate::step::{self, V};
use crate::typed::{self, f};
use bevy_math::{DVec2, DVec3};
use ifc_rs::prelude::*;
use ifc_rs::IFC;
use std::collections::BTreeMap;

/// a kind that can be made and changed in place, with the attributes it has then
trait Kit: IfcType + Sized {
    fn make(x: f64, s: &str) -> (Self, Vec<V>);
    fn edit(&mut self, y: f64, s: &str) -> Vec<V>;
}

fn t(s: &str) -> V {
    V::Str(s.to_string())
}

/// nulls with some attributes set
fn e(n: usize, set: &[(usize, V)]) -> Vec<V> {
    let mut a = vec![V::Null; n];
    set.iter().for_each(|(i, v)| a[*i] = v.clone());
    a
}

fn none() -> V {
    V::List(vec![])
}

fn nums(v: &[f64]) -> V {
    V::List(v.iter().map(|x| f(*x)).collect())
}

macro_rules! kits {
    ($($k:ident: $x:ident $s:ident $make:expr => $args:expr; $new:expr => $after:expr;)*) => {
        const KINDS: &[&str] = &[$(stringify!($k)),*];
        $(impl Kit for $k {
            #[allow(unused_variables)]
            fn make($x: f64, $s: &str) -> (Self, Vec<V>) {
                ($make, $args)
            }
            #[allow(unused_variables)]
            fn edit(&mut self, $x: f64, $s: &str) -> Vec<V> {
                *self = $new;
                $after
            }
        })*
        fn insert_new(ifc: &mut IFC, kind: &str, x: f64, s: &str) -> (u64, Vec<V>) {
            match kind {
                $(stringify!($k) => { let (v, a) = $k::make(x, s); (ifc.data.insert_new(v).id().0 as u64, a) })*
                _ => unreachable!(),
            }
        }
        fn insert(ifc: &mut IFC, id: u64, typed: bool, kind: &str, x: f64, s: &str) -> (Option<Box<dyn IfcType>>, Vec<V>) {
            let id = Id(id as usize);
            match kind {
                $(stringify!($k) => { let (v, a) = $k::make(x, s);
                    (if typed { ifc.data.insert(TypedId::<$k>::new(id), v) } else { ifc.data.insert(id, v) }, a) })*
                _ => unreachable!(),
            }
        }
        fn edit(ifc: &mut IFC, id: u64, kind: &str, x: f64, s: &str) -> Vec<V> {
            match kind {
                $(stringify!($k) => ifc.data.get_mut(TypedId::<$k>::new(Id(id as usize))).edit(x, s),)*
                _ => unreachable!(),
            }
        }
        fn get(ifc: &IFC, id: u64, kind: &str) -> Option<(&'static str, Vec<V>)> {
            match kind {
                $(stringify!($k) => typed::typed(ifc.data.get(TypedId::<$k>::new(Id(id as usize)))),)*
                _ => unreachable!(),
            }
        }
        fn ids_of(ifc: &IFC, kind: &str) -> Vec<u64> {
            match kind {
                $(stringify!($k) => ifc.data.id_of::<$k>().map(|i| i.id().0 as u64).collect(),)*
                "Dummy" => ifc.data.id_of::<Dummy>().map(|i| i.id().0 as u64).collect(),
                _ => unreachable!(),
            }
        }
    };
}

kits! {
    Material: x s Material::new(s) => e(3, &[(0, t(s))]); Material::new("n").description(s) => e(3, &[(0, t("n")), (1, t(s))]);
    Point2D: x s Point2D::from(DVec2::new(x, 1.0)) => vec![nums(&[x, 1.0])]; Point2D::from(DVec2::new(x, x)) => vec![nums(&[x, x])];
    Point3D: x s Point3D::from(DVec3::new(x, 1.0, 2.0)) => vec![nums(&[x, 1.0, 2.0])]; Point3D::from(DVec3::new(3.0, x, x)) => vec![nums(&[3.0, x, x])];
    Person: x s Person::empty().given_name(s) => e(8, &[(2, t(s))]); Person::empty().id(s) => e(8, &[(0, t(s))]);
    Wall: x s Wall::new(s) => e(9, &[(0, V::Any), (2, t(s))]); Wall::new("w").tag(s) => e(9, &[(0, V::Any), (2, t("w")), (7, t(s))]);
    WallType: x s WallType::new(s, WallTypeEnum::Movable) => e(10, &[(0, V::Any), (2, t(s)), (9, V::Enum("MOVABLE".into()))]);
        WallType::new("w", WallTypeEnum::Movable).description(s) => e(10, &[(0, V::Any), (2, t("w")), (3, t(s)), (9, V::Enum("MOVABLE".into()))]);
    MaterialLayerSet: x s MaterialLayerSet::default() => e(3, &[(0, none())]); MaterialLayerSet::default().name(s) => e(3, &[(0, none()), (1, t(s))]);
    MaterialConstituentSet: x s MaterialConstituentSet::new().name(s) => e(3, &[(0, t(s)), (2, none())]); MaterialConstituentSet::new().description(s) => e(3, &[(1, t(s)), (2, none())]);
    ProductDefinitionShape: x s ProductDefinitionShape::new() => e(3, &[(2, none())]); ProductDefinitionShape::new().name(s) => e(3, &[(0, t(s)), (2, none())]);
    PointList2D: x s PointList2D::new([DVec2::new(x, x)].into_iter()) => vec![V::List(vec![nums(&[x, x])]), V::Null];
        PointList2D::new([DVec2::new(x, 0.0), DVec2::new(0.0, x)].into_iter()) => vec![V::List(vec![nums(&[x, 0.0]), nums(&[0.0, x])]), V::Null];
}

type Model = BTreeMap<u64, (String, Vec<V>)>;

fn eq(exp: &[V], got: &[V]) -> bool {
    exp.len() == got.len() && exp.iter().zip(got).all(|(a, b)| step::sem_eq(a, b))
}

/// the value stored under a number (or the text of an opaque one)
fn view(t: &dyn IfcType) -> (String, Vec<V>) {
    match typed::typed(t) {
        Some((n, v)) => (n.to_string(), v),
        None => match t.downcast_ref::<Dummy>() {
            Some(d) => ("Dummy".into(), vec![V::Str(d.to_string())]),
            None => (t.type_name().to_string(), vec![]),
        },
    }
}

fn same(exp: &(String, Vec<V>), t: &dyn IfcType, id: u64) -> Result<(), String> {
    let (n, v) = view(t);
    if n != exp.0 {
        return Err(format!("#{id} holds a {n} instead of a {}", exp.0));
    }
    if !eq(&exp.1, &v) {
        return Err(format!("#{id} {n} holds {} instead of {}", step::show(&V::List(v)), step::show(&V::List(exp.1.clone()))));
    }
    Ok(())
}

fn check_all(ifc: &IFC, m: &Model, n: &mut u64) -> Result<(), String> {
    // listings
    let mut by: BTreeMap<&str, Vec<u64>> = BTreeMap::new();
    m.iter().for_each(|(i, (k, _))| by.entry(k).or_default().push(*i));
    for name in typed::NAMES.iter().copied().chain(["Dummy"]) {
        let want = by.get(name).cloned().unwrap_or_default();
        let got = typed::listed(ifc, name);
        if got != want {
            return Err(format!("find_all_of_type::<{name}> gives {got:?} instead of {want:?}"));
        }
        if name != "Dummy" && !want.is_empty() {
            for (i, v) in typed::listed_values(ifc, name) {
                if !eq(&m[&i].1, &v) {
                    return Err(format!("find_all_of_type::<{name}> gives {} for #{i}", step::show(&V::List(v))));
                }
            }
        }
    }
    for k in KINDS.iter().copied().chain(["Dummy"]) {
        let want = by.get(k).cloned().unwrap_or_default();
        let got = ids_of(ifc, k);
        if got != want {
            return Err(format!("id_of::<{k}> gives {got:?} instead of {want:?}"));
        }
    }
    for (i, e) in m {
        same(e, ifc.data.get_untyped(Id(*i as usize)), *i)?;
    }
    // the saved section
    let s = ifc.data.to_string();
    let text = gen::wrap("").replace("DATA;\n\nENDSEC;\n", &s);
    let p = step::parse(&text).map_err(|e| format!("the data section is not valid: {e}"))?;
    let ids: Vec<u64> = p.insts.iter().map(|x| x.id).collect();
    let want: Vec<u64> = m.keys().copied().collect();
    if ids != want {
        return Err(format!("the data section lists {ids:?} instead of {want:?}"));
    }
    for x in &p.insts {
        let (k, v) = &m[&x.id];
        if typed::NAMES.contains(&k.as_str()) {
            let kind = schema::kind(k);
            if x.kw != kind.kw || step::args_diff(kind.kw, v, &x.args).is_some() {
                return Err(format!("the data section has {} for #{} {k}", cut(&x.raw, 200), x.id));
            }
        }
    }
    *n += m.len() as u64;
    Ok(())
}

fn some_id(r: &mut Rng, m: &Model, mode: usize) -> u64 {
    if !m.is_empty() && r.chance(1, 2) {
        let k: Vec<u64> = m.keys().copied().collect();
        let i = *r.pick(&k);
        return match r.below(4) {
            0 => i.saturating_add(1).min(u64::MAX - 100_000),
            1 => i.saturating_sub(1),
            _ => i,
        };
    }
    match mode {
        0 => r.below(12) as u64,
        1 => r.below(1000) as u64,
        2 => *r.pick(&[0, 1, 2, 9, 10, 99, 100, 101, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64, u64::MAX - 100_001]),
        _ => r.u64() >> (1 + r.below(60)),
    }
}

pub fn run(cx: &mut Cx) {
    let mut trace = String::new();
    let r = guard(|| history(cx, &mut trace));
    let e = match r {
        Ok(Ok(())) => {
            cx.eval(&trace);
            cx.sample(|| trace.clone());
            return;
        }
        Ok(Err(e)) => e,
        Err(p) => {
            assert!(!p.contains("src/store.rs") || p.contains("/repo/"), "{p}");
            p
        }
    };
    cx.eval(&trace);
    cx.fail(e, trace);
}

fn history(cx: &mut Cx, trace: &mut String) -> Result<(), String> {
    let mut m: Model = BTreeMap::new();
    let mut ifc = if cx.r.coin() {
        IFC::default()
    } else {
        // start from a loaded file
        let o = gen::Opts { kinds: 6, big_ids: false, extreme_num: false, ..gen::Opts::default() };
        let f = gen::gen(&mut cx.r, &o);
        let text = gen::simple_render(&f);
        let ifc = load(&text)??;
        for i in &f.insts {
            if i.id > u64::MAX - 100_000 {
                return Ok(());
            }
            let t = ifc.data.try_get_untyped(Id(i.id as usize)).map_err(|e| e.to_string())?;
            m.insert(i.id, view(t));
        }
        trace.push_str(&text);
        ifc
    };
    for t in ifc.data.find_all_of_type::<Dummy>() {
        // a fresh default model holds nothing
        if !m.contains_key(&(t.0.id().0 as u64)) {
            return Err("a new model is not empty".into());
        }
    }
    let mode = cx.r.below(4);
    let mut steps = 5 + cx.r.below(if cx.thorough { 120 } else { 40 });
    let mut checked = 0;
    if cx.r.chance(1, 250) {
        // a large store
        let kind = *cx.r.pick(KINDS);
        let n = 1100 + cx.r.below(3000);
        trace.push_str(&format!("{n} times insert_new {kind}\n"));
        for k in 0..n {
            let (id, v) = insert_new(&mut ifc, kind, k as f64, "bulk");
            if m.contains_key(&id) {
                return Err(format!("insert_new gave #{id}, which was in use"));
            }
            m.insert(id, (kind.into(), v));
        }
        check_all(&ifc, &m, &mut checked).map_err(|e| format!("after {n} insertions: {e}"))?;
        steps = 5;
        cx.count("large stores");
    }
    for step_no in 0..steps {
        let kind = *cx.r.pick(KINDS);
        let (x, s) = (gen::real(&mut cx.r, false), gen::text(&mut cx.r, false));
        match cx.r.below(10) {
            0..=2 => {
                let (id, v) = insert_new(&mut ifc, kind, x, &s);
                trace.push_str(&format!("insert_new {kind} -> #{id}\n"));
                if m.contains_key(&id) {
                    return Err(format!("step {step_no}: insert_new gave #{id}, which was in use"));
                }
                m.insert(id, (kind.into(), v));
                cx.count("insertions without a number");
            }
            3 | 4 => {
                let id = some_id(&mut cx.r, &m, mode);
                let typed_id = cx.r.coin();
                trace.push_str(&format!("insert #{id} {kind}\n"));
                let (old, v) = insert(&mut ifc, id, typed_id, kind, x, &s);
                let was = m.insert(id, (kind.into(), v));
                match (&old, &was) {
                    (None, None) => cx.count("insertions under a free number"),
                    (Some(o), Some(w)) => {
                        same(w, &**o, id).map_err(|e| format!("step {step_no}: insert returned the wrong old value: {e}"))?;
                        cx.count("insertions over a stored value");
                    }
                    _ => return Err(format!("step {step_no}: insert at #{id} returned {} old value", if old.is_some() { "an" } else { "no" })),
                }
            }
            5 => {
                let id = some_id(&mut cx.r, &m, mode);
                let which = cx.r.below(3);
                trace.push_str(&format!("insert_if_not_exists #{id} {which}\n"));
                let (k, v) = match which {
                    0 => {
                        ifc.data.insert_if_not_exists::<MaterialLayerSet>(Id(id as usize));
                        ("MaterialLayerSet", vec![V::List(vec![]), V::Null, V::Null])
                    }
                    1 => {
                        ifc.data.insert_if_not_exists::<MaterialConstituentSet>(Id(id as usize));
                        ("MaterialConstituentSet", vec![V::Null, V::Null, V::List(vec![])])
                    }
                    _ => {
                        ifc.data.insert_if_not_exists::<ProductDefinitionShape>(Id(id as usize));
                        ("ProductDefinitionShape", vec![V::Null, V::Null, V::List(vec![])])
                    }
                };
                cx.count(if m.contains_key(&id) { "insert_if_not_exists on a stored value" } else { "insert_if_not_exists on a free number" });
                m.entry(id).or_insert((k.into(), v));
            }
            6 => {
                let id = some_id(&mut cx.r, &m, mode);
                trace.push_str(&format!("remove #{id}\n"));
                let old = ifc.data.remove(Id(id as usize));
                match (&old, &m.remove(&id)) {
                    (None, None) => cx.count("removals of a free number"),
                    (Some(o), Some(w)) => {
                        same(w, &**o, id).map_err(|e| format!("step {step_no}: remove returned another value: {e}"))?;
                        cx.count("removals of a stored value");
                    }
                    _ => return Err(format!("step {step_no}: remove #{id} returned {} value", if old.is_some() { "a" } else { "no" })),
                }
            }
            7 => {
                let ids: Vec<u64> = m.iter().filter(|(_, (k, _))| KINDS.contains(&k.as_str())).map(|x| *x.0).collect();
                if !ids.is_empty() {
                    let id = *cx.r.pick(&ids);
                    let k = m[&id].0.clone();
                    trace.push_str(&format!("edit #{id} {k}\n"));
                    let new = edit(&mut ifc, id, &k, x, &s);
                    m.insert(id, (k, new));
                    cx.count("in-place edits");
                }
            }
            8 => {
                // looking up: the value or nothing
                let id = some_id(&mut cx.r, &m, mode);
                let has = ifc.data.contains(&Id(id as usize));
                if has != m.contains_key(&id) {
                    return Err(format!("step {step_no}: contains(#{id}) is {has}"));
                }
                match (ifc.data.try_get_untyped(Id(id as usize)), m.get(&id)) {
                    (Ok(t), Some(w)) => {
                        same(w, t, id)?;
                        if KINDS.contains(&w.0.as_str()) {
                            let (n, v) = get(&ifc, id, &w.0).expect("typed");
                            if n != w.0 || !eq(&w.1, &v) {
                                return Err(format!("step {step_no}: get(#{id}) gives {n} {}", step::show(&V::List(v))));
                            }
                        }
                        cx.count("lookups of a stored value");
                    }
                    (Err(_), None) => cx.count("lookups of a free number"),
                    (o, _) => return Err(format!("step {step_no}: lookup of #{id} gives {}", if o.is_ok() { "a value" } else { "none" })),
                }
            }
            _ => {
                // a lookup under another kind gives no value
                if let Some((id, (k, _))) = m.iter().nth(cx.r.below(m.len().max(1))) {
                    if k != kind {
                        let (id, k) = (*id, k.clone());
                        if let Ok(v) = guard(|| get(&ifc, id, kind)) {
                            return Err(format!("step {step_no}: #{id} {k} is given as a {kind}: {v:?}"));
                        }
                        cx.count("lookups under another kind");
                    }
                }
            }
        }
        if step_no % 8 == 7 || step_no + 1 == steps {
            check_all(&ifc, &m, &mut checked).map_err(|e| format!("after step {step_no}: {e}"))?;
        }
    }
    cx.add("stored values compared", checked);
    Ok(())
}
