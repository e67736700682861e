//! P17: queries of the extractor against the relations of the file.
//! P18: resolved views of geometry against the referenced instances of the file.

use crate::common::*;
use crate::gen::*;
use crate::monitor::*;
use crate::prng::Rng;
use crate::schema::kind;
use crate::step::{self, V};
use crate::typed;
use ifc_rs::prelude::*;
use ifc_rs::IFC;
use std::collections::{BTreeMap, HashMap};

type Insts = BTreeMap<u64, (String, Vec<V>)>;

// ---------------------------------------------------------------- P17

struct World<'a> {
    r: &'a mut Rng,
    ids: Vec<u64>,
    /// number, kind name, attributes
    insts: Vec<(u64, &'static str, Vec<V>)>,
    by: HashMap<&'static str, Vec<u64>>,
}

fn null(n: usize) -> Vec<V> {
    vec![V::Null; n]
}

impl World<'_> {
    fn add(&mut self, k: &'static str, args: Vec<V>) -> u64 {
        let id = self.ids.pop().expect("numbers");
        self.insts.push((id, k, args));
        self.by.entry(k).or_default().push(id);
        id
    }
    fn root(&mut self, rest: Vec<V>) -> Vec<V> {
        let mut a = vec![V::Str(guid(self.r)), V::Null, V::Str(text(self.r, false)), V::Null];
        a.extend(rest);
        a
    }
    /// an instance of a kind that is not supported, `~` and its keyword
    fn opaque(&mut self, k: &'static str) {
        let a = vec![V::Str("x".into()), V::Null, V::List(vec![V::Num("1.".into())])];
        self.add(k, a);
    }
    fn rooted(&mut self, k: &'static str, rest: Vec<V>) -> u64 {
        let a = self.root(rest);
        self.add(k, a)
    }
    fn all(&self, ks: &[&'static str]) -> Vec<u64> {
        ks.iter().flat_map(|k| self.by.get(k).cloned().unwrap_or_default()).collect()
    }
    /// a random sublist of the candidates, without repeats
    fn some(&mut self, mut c: Vec<u64>, max: usize) -> Vec<u64> {
        self.r.shuffle(&mut c);
        let n = if self.r.chance(1, 60) { max + self.r.below(60) } else { self.r.below(max + 1) };
        c.truncate(n);
        c
    }
}

fn refs(v: Vec<u64>) -> V {
    V::List(v.into_iter().map(V::Ref).collect())
}

const ELEMENTS: [&str; 6] = ["Wall", "Slab", "Roof", "Window", "Door", "ShadingDevice"];
const OPAQUE: [&str; 7] = [
    "~IFCMATERIALLAYERWITHOFFSETS", "~IFCCONSTITUENT", "~IFCLAYERSET", "~IFCVOIDINGFEATURE", "~IFCMATERIALPROFILESETUSAGE", "~IFCBEAM", "~IFCBRIDGE",
];
const SPATIAL: [&str; 5] = ["Project", "Site", "Building", "Storey", "Space"];

fn world<'a>(r: &'a mut Rng, big: bool) -> World<'a> {
    let n = if r.chance(1, 150) { 16 } else if big { 4 } else { 2 };
    let most = 200 * n as u64;
    let mut ids: Vec<u64> = match r.below(6) {
        0 | 1 => (1..most).collect(),
        2 => (0..most).collect(),
        // numbers which are equal in their lower 8, 16 or 32 bits
        3 => {
            let bits = *r.pick(&[8, 16, 32]);
            (0..most).map(|i| ((i % 3) << bits) + i / 3 + ((i / 600) << 40)).collect()
        }
        _ => {
            let base = r.below(100_000) as u64;
            (0..most).map(|i| base + i * 7).collect()
        }
    };
    if r.coin() {
        r.shuffle(&mut ids);
    }
    let mut w = World { r, ids, insts: vec![], by: HashMap::new() };
    if w.r.coin() {
        for k in OPAQUE {
            for _ in 0..w.r.below(3) {
                w.opaque(k);
            }
        }
    }
    // materials
    for _ in 0..1 + w.r.below(n + 1) {
        let g = V::Str(guid(w.r));
        w.add("Material", vec![g, V::Null, V::Null]);
    }
    let mats = w.all(&["Material"]);
    for _ in 0..w.r.below(2 * n + 1) {
        let m = if w.r.coin() { V::Ref(*w.r.pick(&mats)) } else { V::Null };
        let t = V::Num(format!("{}.5", w.r.below(1000)));
        let g = V::Str(guid(w.r));
        w.add("MaterialLayer", vec![m, t, V::Enum("F".into()), g, V::Null, V::Null, V::Null]);
        let m = V::Ref(*w.r.pick(&mats));
        let g = V::Str(guid(w.r));
        w.add("MaterialConstituent", vec![g, V::Null, m, V::Null, V::Null]);
    }
    for _ in 0..w.r.below(n + 1) {
        let l = w.all(&["MaterialLayer", "~IFCMATERIALLAYERWITHOFFSETS"]);
        let mut l = w.some(l, 4);
        if !l.is_empty() && w.r.chance(1, 3) {
            // a layer stands twice in its set
            let i = w.r.below(l.len() + 1);
            l.insert(i, *w.r.pick(&l));
        }
        let g = V::Str(guid(w.r));
        w.add("MaterialLayerSet", vec![refs(l), g, V::Null]);
        let c = w.all(&["MaterialConstituent", "~IFCCONSTITUENT"]);
        let c = w.some(c, 4);
        let g = V::Str(guid(w.r));
        w.add("MaterialConstituentSet", vec![g, V::Null, refs(c)]);
        let s = w.all(&["MaterialLayerSet", "~IFCLAYERSET"]);
        for _ in 0..w.r.below(3) {
            let s = V::Ref(*w.r.pick(&s));
            let off = V::Num(format!("{}.", w.r.below(1000)));
            w.add("MaterialLayerSetUsage", vec![s, V::Enum("AXIS2".into()), V::Enum("POSITIVE".into()), off, V::Null]);
        }
    }
    // objects
    for _ in 0..w.r.below(n + 1) {
        w.rooted("Project", vec![V::Null, V::Null, V::Null, V::List(vec![]), V::Null]);
    }
    for k in ["Site", "Building", "Storey", "Space"] {
        for _ in 0..w.r.below(n + 1) {
            let rest = null(kind(k).attrs.len() - 4);
            w.rooted(k, rest);
        }
    }
    for k in ELEMENTS {
        for _ in 0..w.r.below(n + 2) {
            let rest = null(kind(k).attrs.len() - 4);
            w.rooted(k, rest);
        }
    }
    for _ in 0..w.r.below(2 * n + 1) {
        w.rooted("OpeningElement", null(5));
    }
    for (t, e) in [("WallType", "STANDARD"), ("SlabType", "FLOOR"), ("RoofType", "FLAT_ROOF"), ("DoorType", "DOOR"), ("WindowType", "WINDOW")] {
        for _ in 0..w.r.below(n + 1) {
            let mut rest = null(5);
            rest.push(V::Enum(e.into()));
            match t {
                "DoorType" => rest.extend([V::Enum("SINGLE_SWING_LEFT".into()), V::Null, V::Null]),
                "WindowType" => rest.extend([V::Enum("SINGLE_PANEL".into()), V::Null, V::Null]),
                _ => {}
            }
            w.rooted(t, rest);
        }
    }
    // relations
    for _ in 0..w.r.below(2 * n + 2) {
        let whole = w.all(&["Project", "Site", "Building", "Storey"]);
        if whole.is_empty() {
            break;
        }
        let o = *w.r.pick(&whole);
        let c = w.all(&["Site", "Building", "Storey", "Space", "~IFCBRIDGE"]);
        let c = w.some(c, 4);
        w.rooted("RelAggregates", vec![V::Ref(o), refs(c)]);
    }
    for _ in 0..w.r.below(2 * n + 2) {
        let whole = w.all(&["Site", "Building", "Storey", "OpeningElement", "Wall", "Slab"]);
        if whole.is_empty() {
            break;
        }
        let o = *w.r.pick(&whole);
        let mut ks = ELEMENTS.to_vec();
        ks.extend(["OpeningElement", "~IFCBEAM"]);
        let c = w.all(&ks);
        let c = w.some(c, 5);
        w.rooted("RelContainedInSpatialStructure", vec![refs(c), V::Ref(o)]);
    }
    for (e, t) in [("Wall", "WallType"), ("Slab", "SlabType"), ("Roof", "RoofType"), ("Door", "DoorType"), ("Window", "WindowType")] {
        // an element has at most one type
        let mut els = w.all(&[e]);
        w.r.shuffle(&mut els);
        for ty in w.all(&[t]) {
            for _ in 0..w.r.below(3) {
                let k = w.r.below(els.len() + 1);
                let l = els.split_off(els.len() - k);
                w.rooted("RelDefinesByType", vec![refs(l), V::Ref(ty)]);
            }
        }
    }
    let openings = w.all(&["OpeningElement", "~IFCVOIDINGFEATURE"]);
    for _ in 0..w.r.below(2 * n + 2) {
        let whole = w.all(&["Wall", "Slab", "Window", "Building", "OpeningElement"]);
        if whole.is_empty() || openings.is_empty() {
            break;
        }
        let (o, p) = (*w.r.pick(&whole), *w.r.pick(&openings));
        w.rooted("RelVoidsElement", vec![V::Ref(o), V::Ref(p)]);
    }
    for _ in 0..w.r.below(2 * n + 2) {
        let mats = w.all(&["Material", "MaterialLayerSet", "MaterialLayerSetUsage", "MaterialConstituentSet", "~IFCMATERIALPROFILESETUSAGE"]);
        let m = *w.r.pick(&mats);
        let mut ks = ELEMENTS.to_vec();
        ks.extend(["WallType", "SlabType", "~IFCBEAM"]);
        let c = w.all(&ks);
        let c = w.some(c, 4);
        w.rooted("RelAssociatesMaterial", vec![refs(c), V::Ref(m)]);
    }
    // no other relation matters
    for _ in 0..w.r.below(3) {
        let c = w.all(&["Storey", "Wall", "Slab"]);
        let c = w.some(c, 3);
        let p = w.add("PropertySingleValue", vec![V::Str("p".into()), V::Null, V::Typed("IFCREAL".into(), vec![V::Num("1.".into())]), V::Null]);
        let s = w.rooted("PropertySet", vec![refs(vec![p])]);
        w.rooted("RelDefinesByProperties", vec![refs(c), V::Ref(s)]);
    }
    w
}

/// which of its places holds an instance: its number in the model, by identity
fn number_of<T: IfcType>(ifc: &IFC, t: &T) -> Option<u64> {
    ifc.data.find_all_of_type::<T>().find(|(_, x)| std::ptr::eq(*x, t)).map(|(i, _)| i.id().0 as u64)
}

fn sorted(mut v: Vec<u64>) -> Vec<u64> {
    v.sort();
    v
}

macro_rules! parts {
    ($x:expr, $id:expr, $rel:ident, $($k:ident),*) => {{
        let mut v: Vec<(&'static str, Vec<u64>)> = vec![];
        $(
            let got: Vec<(u64, Option<u64>)> = $x
                .relations_of::<$rel, $k>(TypedId::new(Id($id as usize)))
                .map(|(i, t)| (i.id().0 as u64, number_of(&$x, t)))
                .collect();
            if let Some(b) = got.iter().find(|(i, n)| Some(*i) != *n) {
                return Err(format!("parts of #{}: #{} comes with the instance {:?}", $id, b.0, b.1));
            }
            v.push((stringify!($k), got.into_iter().map(|x| x.0).collect()));
        )*
        v
    }};
}

fn check_queries(x: &IfcExtractor, m: &BTreeMap<u64, (&'static str, Vec<V>)>, counts: &mut BTreeMap<&'static str, u64>) -> Result<(), String> {
    let ifc: &IFC = x;
    let of = |k: &str| m.iter().filter(|(_, v)| v.0 == k).collect::<Vec<_>>();
    let mut n = |k: &'static str, c: usize| *counts.entry(k).or_default() += c as u64;
    // projects
    let want: Vec<u64> = of("Project").iter().map(|p| *p.0).collect();
    let got: Vec<(u64, Option<u64>)> = x.projects().map(|(i, p)| (i.id().0 as u64, number_of(ifc, p))).collect();
    if sorted(got.iter().map(|g| g.0).collect()) != want || got.iter().any(|g| Some(g.0) != g.1) {
        return Err(format!("projects {got:?} instead of {want:?}"));
    }
    n("projects found", got.len());
    // parts
    for (&id, (k, _)) in m.iter().filter(|(_, v)| SPATIAL.contains(&v.0)) {
        let related: Vec<u64> = of("RelAggregates").iter().filter(|r| r.1 .1[4] == V::Ref(id)).flat_map(|r| r.1 .1[5].refs()).collect();
        let got = match *k {
            "Project" => parts!(x, id, Project, Project, Site, Building, Storey, Space, Wall),
            "Site" => parts!(x, id, Site, Project, Site, Building, Storey, Space, Wall),
            "Building" => parts!(x, id, Building, Project, Site, Building, Storey, Space, Wall),
            "Storey" => parts!(x, id, Storey, Project, Site, Building, Storey, Space, Wall),
            _ => parts!(x, id, Space, Project, Site, Building, Storey, Space, Wall),
        };
        for (pk, g) in got {
            let want: Vec<u64> = related.iter().copied().filter(|i| m[i].0 == pk).collect();
            if sorted(g.clone()) != sorted(want.clone()) {
                return Err(format!("{pk} parts of #{id} {k}: {g:?} instead of {want:?}"));
            }
            n(if g.is_empty() { "empty answers" } else { "parts found" }, g.len().max(1));
        }
    }
    // contained elements
    for (&id, (k, _)) in m.iter().filter(|(_, v)| SPATIAL[1..].contains(&v.0) || ELEMENTS.contains(&v.0) || v.0 == "OpeningElement") {
        let want: Vec<u64> =
            of("RelContainedInSpatialStructure").iter().filter(|r| r.1 .1[5] == V::Ref(id)).flat_map(|r| r.1 .1[4].refs()).collect();
        let i = Id(id as usize);
        let got: Vec<u64> = match *k {
            "Site" => x.contained_structures(TypedId::<Site>::new(i)).map(|i| i.0 as u64).collect(),
            "Building" => x.contained_structures(TypedId::<Building>::new(i)).map(|i| i.0 as u64).collect(),
            "Storey" => x.contained_structures(TypedId::<Storey>::new(i)).map(|i| i.0 as u64).collect(),
            "Space" => x.contained_structures(TypedId::<Space>::new(i)).map(|i| i.0 as u64).collect(),
            "Wall" => x.contained_structures(TypedId::<Wall>::new(i)).map(|i| i.0 as u64).collect(),
            "OpeningElement" => x.contained_structures(TypedId::<OpeningElement>::new(i)).map(|i| i.0 as u64).collect(),
            _ => x.contained_structures(TypedId::<Slab>::new(i)).map(|i| i.0 as u64).collect(),
        };
        if sorted(got.clone()) != sorted(want.clone()) {
            return Err(format!("elements of #{id} {k}: {got:?} instead of {want:?}"));
        }
        n(if got.is_empty() { "empty answers" } else { "elements found" }, got.len().max(1));
        // an element tells its kind
        for g in got {
            let t = x.data.get_untyped(Id(g as usize));
            let (kind, at) = match t.to_structure().and_then(|s| s.structure_type()) {
                Some(StructureType::Wall(t)) => ("Wall", number_of(ifc, t)),
                Some(StructureType::Slab(t)) => ("Slab", number_of(ifc, t)),
                Some(StructureType::Roof(t)) => ("Roof", number_of(ifc, t)),
                Some(StructureType::Window(t)) => ("Window", number_of(ifc, t)),
                Some(StructureType::Door(t)) => ("Door", number_of(ifc, t)),
                Some(StructureType::ShadingDevice(t)) => ("ShadingDevice", number_of(ifc, t)),
                None if m[&g].0.starts_with('~') => (m[&g].0, Some(g)),
                None => ("OpeningElement", Some(g)),
            };
            if m[&g].0 != kind || at != Some(g) {
                return Err(format!("#{g} {} tells that it is the {kind} {at:?}", m[&g].0));
            }
            n("elements telling their kind", 1);
        }
    }
    // types, where there is one
    for r in of("RelDefinesByType") {
        let ty = r.1 .1[5].r().unwrap();
        for e in r.1 .1[4].refs() {
            let i = Id(e as usize);
            let got = match m[&e].0 {
                "Wall" => number_of(ifc, TypeRelation::<Wall, WallType>::related_type(x, TypedId::new(i))),
                "Slab" => number_of(ifc, TypeRelation::<Slab, SlabType>::related_type(x, TypedId::new(i))),
                "Roof" => number_of(ifc, TypeRelation::<Roof, RoofType>::related_type(x, TypedId::new(i))),
                "Door" => number_of(ifc, TypeRelation::<Door, DoorType>::related_type(x, TypedId::new(i))),
                _ => number_of(ifc, TypeRelation::<Window, WindowType>::related_type(x, TypedId::new(i))),
            };
            if got != Some(ty) {
                return Err(format!("type of #{e} {}: {got:?} instead of #{ty}", m[&e].0));
            }
            n("types found", 1);
        }
    }
    // openings and materials
    for (&id, (k, _)) in m.iter().filter(|(_, v)| ELEMENTS.contains(&v.0)) {
        macro_rules! ask {
            ($f:ident) => {{
                let i = Id(id as usize);
                let v: Vec<Option<u64>> = match *k {
                    "Wall" => x.$f(TypedId::<Wall>::new(i)).map(|o| number_of(ifc, o)).collect(),
                    "Slab" => x.$f(TypedId::<Slab>::new(i)).map(|o| number_of(ifc, o)).collect(),
                    "Roof" => x.$f(TypedId::<Roof>::new(i)).map(|o| number_of(ifc, o)).collect(),
                    "Window" => x.$f(TypedId::<Window>::new(i)).map(|o| number_of(ifc, o)).collect(),
                    "Door" => x.$f(TypedId::<Door>::new(i)).map(|o| number_of(ifc, o)).collect(),
                    _ => x.$f(TypedId::<ShadingDevice>::new(i)).map(|o| number_of(ifc, o)).collect(),
                };
                v.into_iter().map(|i| i.unwrap_or(u64::MAX)).collect::<Vec<u64>>()
            }};
        }
        let want = sorted(of("RelVoidsElement").iter().filter(|r| r.1 .1[4] == V::Ref(id)).filter_map(|r| r.1 .1[5].r()).filter(|i| m[i].0 == "OpeningElement").collect());
        let got = sorted(ask!(related_voids));
        if got != want {
            return Err(format!("openings of #{id} {k}: {got:?} instead of {want:?}"));
        }
        n(if got.is_empty() { "empty answers" } else { "openings found" }, got.len().max(1));
        let mats: Vec<u64> = of("RelAssociatesMaterial").iter().filter(|r| r.1 .1[4].refs().contains(&id)).filter_map(|r| r.1 .1[5].r()).collect();
        let sets: Vec<u64> = mats.iter().filter(|i| m[i].0 == "MaterialLayerSetUsage").filter_map(|i| m[i].1[0].r()).collect();
        let layers: Vec<u64> = sets
            .iter()
            .filter(|i| m[i].0 == "MaterialLayerSet")
            .flat_map(|i| m[i].1[0].refs())
            .filter(|i| m[i].0 == "MaterialLayer")
            .collect();
        let got = ask!(related_materials);
        // the layers of one set are in its order
        if sorted(got.clone()) != sorted(layers.clone()) || sets.len() == 1 && got != layers {
            return Err(format!("material layers of #{id} {k}: {got:?} instead of {layers:?}"));
        }
        if sets.len() == 1 && layers.len() > 1 {
            n("layers in their order", layers.len());
        }
        if layers.len() < sets.iter().flat_map(|i| m[i].1[0].refs()).count() {
            n("answers without the opaque ones", 1);
        }
        n(if got.is_empty() { "empty answers" } else { "material layers found" }, got.len().max(1));
        let cons: Vec<u64> = mats.iter().filter(|i| m[i].0 == "MaterialConstituentSet").flat_map(|i| m[i].1[2].refs()).filter(|i| m[i].0 == "MaterialConstituent").collect();
        let got = sorted(ask!(related_constiuents));
        if got != sorted(cons.clone()) {
            return Err(format!("material constituents of #{id} {k}: {got:?} instead of {cons:?}"));
        }
        n(if got.is_empty() { "empty answers" } else { "material constituents found" }, got.len().max(1));
    }
    Ok(())
}

/// for P23: the text of a model, what the queries say about it, and the text after them
pub fn answers(r: &mut Rng) -> String {
    let mut w = world(r, false);
    let mut data = String::new();
    for (id, k, a) in &w.insts {
        data.push_str(&format!("#{id}= {}{};\n", k.strip_prefix('~').unwrap_or_else(|| &kind(k).kw), step::show(&V::List(a.clone()))));
    }
    let m: BTreeMap<u64, (&'static str, Vec<V>)> = std::mem::take(&mut w.insts).into_iter().map(|(i, k, a)| (i, (k, a))).collect();
    let Ok(Ok(ifc)) = load(&wrap(&data)) else { return "no model".into() };
    let before = ifc.to_string();
    let x = IfcExtractor::from(ifc);
    let mut counts = BTreeMap::new();
    let said = guard(|| check_queries(&x, &m, &mut counts));
    let after = x.to_string();
    if before != after {
        return "asking has changed the model".into();
    }
    format!("{said:?} {counts:?}\n{after}")
}

pub fn run17(cx: &mut Cx) {
    let mut r = Rng::new(cx.r.u64());
    let big = cx.thorough || cx.case % 4 == 0;
    let mut w = world(&mut r, big);
    if w.r.coin() {
        let mut i = std::mem::take(&mut w.insts);
        w.r.shuffle(&mut i);
        w.insts = i;
    }
    let mut data = String::new();
    for (id, k, a) in &w.insts {
        data.push_str(&format!("#{id}= {}{};\n", k.strip_prefix('~').unwrap_or_else(|| &kind(k).kw), step::show(&V::List(a.clone()))));
    }
    let m: BTreeMap<u64, (&'static str, Vec<V>)> = w.insts.iter().map(|(i, k, a)| (*i, (*k, a.clone()))).collect();
    let text = wrap(&data);
    let ifc = match load(&text) {
        Ok(Ok(i)) => i,
        Ok(Err(e)) => return cx.fail(format!("a well-formed file is refused: {}", cut(&e, 400)), text),
        Err(p) => return cx.fail(p, text),
    };
    let x = IfcExtractor::from(ifc);
    let mut counts = BTreeMap::new();
    match guard(|| check_queries(&x, &m, &mut counts)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return cx.fail(e, text),
        Err(p) => {
            assert!(!p.contains("src/queries.rs"), "{p}");
            return cx.fail(format!("a query: {p}"), text);
        }
    }
    counts.into_iter().for_each(|(k, c)| cx.add(k, c));
    cx.eval(&text);
    cx.sample(|| text);
}

// ---------------------------------------------------------------- P18

struct View<'a> {
    ifc: &'a IFC,
    m: &'a Insts,
    n: u64,
    some: u64,
    none: u64,
}

type R = Result<(), String>;

fn num(what: &str, got: f64, exp: &V) -> R {
    match exp.f() {
        Some(e) if e.to_bits() == got.to_bits() || e == got => Ok(()),
        e => Err(format!("{what} is {got:?} instead of {e:?}")),
    }
}

impl View<'_> {
    /// the instance shown is the one referred to
    fn is(&mut self, what: &str, got: &dyn IfcType, exp: &V) -> R {
        let id = exp.r().ok_or_else(|| format!("{what}: no reference in the file"))?;
        let (k, a) = &self.m[&id];
        let (n, v) = typed::typed(got).ok_or_else(|| format!("{what}: an opaque value"))?;
        self.n += 1;
        if n != k {
            return Err(format!("{what} is a {n} instead of #{id} {k}"));
        }
        if let Some(d) = step::args_diff(kind(n).kw, a, &v) {
            return Err(format!("{what} is not #{id}: {d}"));
        }
        let stored = self.ifc.data.get_untyped(Id(id as usize));
        if !std::ptr::eq(stored as *const dyn IfcType as *const u8, got as *const dyn IfcType as *const u8) {
            // a copy is as good, as long as it has the same values
            self.n += 1;
        }
        Ok(())
    }
    fn opt<T: IfcType>(&mut self, what: &str, got: Option<&T>, exp: &V) -> R {
        match (got, step::is_null(exp)) {
            (None, true) => {
                self.none += 1;
                Ok(())
            }
            (Some(g), false) => {
                self.some += 1;
                self.is(what, g, exp)
            }
            (g, _) => Err(format!("{what} is {} although the file has {}", if g.is_some() { "shown" } else { "missing" }, step::show(exp))),
        }
    }
    fn optnum(&mut self, what: &str, got: Option<f64>, exp: &V) -> R {
        match (got, step::is_null(exp)) {
            (None, true) => {
                self.none += 1;
                Ok(())
            }
            (Some(g), false) => {
                self.some += 1;
                num(what, g, exp)
            }
            _ => Err(format!("{what} is {got:?} although the file has {}", step::show(exp))),
        }
    }
    fn args(&self, v: &V) -> Result<(&str, Vec<V>), String> {
        let id = v.r().ok_or("no reference in the file")?;
        let (k, a) = &self.m[&id];
        Ok((k, a.clone()))
    }
    fn axis2(&mut self, got: &MappedAxis2D, exp: &V) -> R {
        let (k, a) = self.args(exp)?;
        if k != "Axis2D" {
            return Err(format!("a two-dimensional axis is shown for a {k}"));
        }
        self.is("location", got.location, &a[0])?;
        self.opt("x direction", got.local_x, &a[1])
    }
    fn axis3(&mut self, got: &MappedAxis3D, exp: &V) -> R {
        let (k, a) = self.args(exp)?;
        if k != "Axis3D" {
            return Err(format!("a three-dimensional axis is shown for a {k}"));
        }
        self.is("location", got.location, &a[0])?;
        self.opt("z direction", got.local_z, &a[1])?;
        self.opt("x direction", got.local_x, &a[2])
    }
    fn points(&mut self, got: &Points, curve: &V) -> R {
        let (k, a) = self.args(curve)?;
        let k = k.to_string();
        let want: Vec<V> = if k == "PolyLine" {
            a[0].refs().iter().map(|p| self.m[p].1[0].clone()).collect()
        } else {
            self.args(&a[0])?.1[0].list().to_vec()
        };
        let g: Vec<Vec<f64>> = match got {
            Points::D2(p) => p.iter().map(|p| vec![p.x, p.y]).collect(),
            Points::D3(p) => p.iter().map(|p| vec![p.x, p.y, p.z]).collect(),
        };
        let two = match k.as_str() {
            "PolyLine" => want[0].list().len() == 2,
            _ => self.args(&a[0])?.0 == "PointList2D",
        };
        if two != matches!(got, Points::D2(_)) {
            return Err(format!("the points of a {k} are shown in the wrong dimension"));
        }
        if g.len() != want.len() {
            return Err(format!("{} points of a {k} with {}", g.len(), want.len()));
        }
        for (i, (g, w)) in g.iter().zip(&want).enumerate() {
            for (x, y) in g.iter().zip(w.list()) {
                num(&format!("point {} of a {k}", i + 1), *x, y)?;
            }
            self.n += 1;
        }
        Ok(())
    }
    fn profile_type(&mut self, got: &ProfileType, exp: &V) -> R {
        use crate::typed::ToV;
        if step::sem_eq(&got.tv(), exp) {
            Ok(())
        } else {
            Err(format!("profile type {} instead of {}", step::show(&got.tv()), step::show(exp)))
        }
    }
    fn rectangle(&mut self, got: &MappedRectangleProfileDef, a: &[V]) -> R {
        match (&got.axis, step::is_null(&a[2])) {
            (None, true) => self.none += 1,
            (Some(AxisMappings::D2(x)), false) => self.axis2(x, &a[2])?,
            (Some(AxisMappings::D3(x)), false) => self.axis3(x, &a[2])?,
            (g, _) => return Err(format!("position is {} although the file has {}", if g.is_some() { "shown" } else { "missing" }, step::show(&a[2]))),
        }
        num("width", got.x_dim, &a[3])?;
        num("height", got.y_dim, &a[4])
    }
    fn arbitrary(&mut self, got: &MappedArbitraryClosedProfileDef, a: &[V]) -> R {
        self.profile_type(&got.profile_type, &a[0])?;
        self.points(&got.points, &a[2])
    }
    fn solid(&mut self, got: &MappedExtrudedAreaSolid, a: &[V]) -> R {
        let (k, p) = self.args(&a[0])?;
        let k = k.to_string();
        match &got.profile_def {
            MappedProfileDef::Rectangle(r) if k == "RectangleProfileDef" => self.rectangle(r, &p)?,
            MappedProfileDef::Arbitrary(r) if k == "ArbitraryClosedProfileDef" => self.arbitrary(r, &p)?,
            _ => return Err(format!("the profile of a solid is shown as another kind than {k}")),
        }
        match (&got.position, step::is_null(&a[1])) {
            (None, true) => self.none += 1,
            (Some(x), false) => self.axis3(x, &a[1])?,
            (g, _) => return Err(format!("position is {} although the file has {}", if g.is_some() { "shown" } else { "missing" }, step::show(&a[1]))),
        }
        self.is("extrusion direction", got.extruded_direction, &a[2])?;
        num("depth", got.depth, &a[3])
    }
    fn uniform(&mut self, got: &TransformMapping, a: &[V]) -> R {
        self.opt("x axis", got.axis_x, &a[0])?;
        self.opt("y axis", got.axis_y, &a[1])?;
        self.opt("translation", got.translation, &a[2])?;
        self.optnum("scale", got.scale, &a[3])?;
        self.opt("z axis", got.axis_z, &a[4])
    }
    fn non_uniform(&mut self, got: &NonUniformTransformMapping, a: &[V]) -> R {
        self.opt("x axis", got.axis_x, &a[0])?;
        self.opt("y axis", got.axis_y, &a[1])?;
        self.opt("translation", got.translation, &a[2])?;
        self.optnum("scale", got.scale, &a[3])?;
        self.opt("z axis", got.axis_z, &a[4])?;
        self.optnum("y scale", got.scale_y, &a[5])?;
        self.optnum("z scale", got.scale_z, &a[6])
    }
    fn shapes(&mut self, got: Vec<&ShapeRepresentation>, exp: &V) -> R {
        if step::is_null(exp) {
            self.none += 1;
            return if got.is_empty() { Ok(()) } else { Err(format!("{} shapes of a product without any", got.len())) };
        }
        let (_, a) = self.args(exp)?;
        if got.len() != a[2].list().len() {
            return Err(format!("{} shapes of a product with {}", got.len(), a[2].list().len()));
        }
        for (g, e) in got.into_iter().zip(a[2].list()) {
            self.is("shape", g, e)?;
        }
        self.some += 1;
        Ok(())
    }
    fn one(&mut self, id: u64, k: &str, a: &[V]) -> R {
        let ifc = self.ifc;
        let at = Id(id as usize);
        macro_rules! get {
            ($t:ident) => {
                ifc.data.get(TypedId::<$t>::new(at))
            };
        }
        macro_rules! product {
            ($t:ident) => {
                self.shapes(get!($t).shapes(ifc), &a[6])
            };
        }
        match k {
            "Axis2D" => {
                let x = get!(Axis2D);
                self.axis2(&x.mappings(ifc), &V::Ref(id))?;
                match AxisMappings::map_2d(x, ifc) {
                    AxisMappings::D2(x) => self.axis2(&x, &V::Ref(id)),
                    _ => Err("map_2d gives a three-dimensional axis".into()),
                }
            }
            "Axis3D" => {
                let x = get!(Axis3D);
                self.axis3(&x.mappings(ifc), &V::Ref(id))?;
                match AxisMappings::map_3d(x, ifc) {
                    AxisMappings::D3(x) => self.axis3(&x, &V::Ref(id)),
                    _ => Err("map_3d gives a two-dimensional axis".into()),
                }
            }
            "RectangleProfileDef" => self.rectangle(&get!(RectangleProfileDef).mappings(ifc), a),
            "ArbitraryClosedProfileDef" => self.arbitrary(&get!(ArbitraryClosedProfileDef).mappings(ifc), a),
            "PolyLine" => self.points(&get!(PolyLine).points(ifc), &V::Ref(id)),
            "ExtrudedAreaSolid" => self.solid(&get!(ExtrudedAreaSolid).mappings(ifc), a),
            "CartesianTransformationOperator3D" => self.uniform(&get!(CartesianTransformationOperator3D).mappings(ifc), a),
            "CartesianTransformationOperator3DnonUniform" => {
                self.non_uniform(&get!(CartesianTransformationOperator3DnonUniform).mappings(ifc), a)
            }
            "MappedItem" => {
                let ((origin, shape), t) = get!(MappedItem).mappings(ifc);
                let (_, map) = self.args(&a[0])?;
                self.axis3(&origin, &map[0])?;
                self.is("mapped shape", shape, &map[1])?;
                let (tk, ta) = self.args(&a[1])?;
                let tk = tk.to_string();
                match &t {
                    MappedTransform::Uniform(u) if tk == "CartesianTransformationOperator3D" => self.uniform(u, &ta),
                    MappedTransform::NonUniform(u) if tk == "CartesianTransformationOperator3DnonUniform" => self.non_uniform(u, &ta),
                    _ => Err(format!("the transformation is shown as another kind than {tk}")),
                }
            }
            "ShapeRepresentation" => {
                let x = get!(ShapeRepresentation);
                let items: Vec<_> = x.items(ifc).collect();
                let want = a[3].list();
                if items.len() != want.len() {
                    return Err(format!("{} items of {}", items.len(), want.len()));
                }
                for (g, e) in items.iter().zip(want) {
                    let (ek, _) = self.args(e)?;
                    let ek = ek.to_string();
                    let (shown, is) = (g.to_string(), ifc.data.get_untyped(Id(e.r().unwrap() as usize)).to_string());
                    if shown != is {
                        return Err(format!("item {} is shown as {shown} instead of {is}", step::show(e)));
                    }
                    match g {
                        ShapeItemEnum::MappedItem(t) if ek == "MappedItem" => self.is("item", *t, e)?,
                        ShapeItemEnum::ExtrudedAreaSolid(t) if ek == "ExtrudedAreaSolid" => self.is("item", *t, e)?,
                        ShapeItemEnum::Other(t) if ek == "PolyLine" => self.is("item", *t, e)?,
                        ShapeItemEnum::Dummy(d) if ek == "Dummy" => {
                            let id = e.r().unwrap();
                            if !std::ptr::eq(*d, ifc.data.get(TypedId::<Dummy>::new(Id(id as usize)))) {
                                return Err(format!("the item #{id} is another opaque one"));
                            }
                        }
                        _ => return Err(format!("item {} is shown as another kind than {ek}", step::show(e))),
                    }
                }
                macro_rules! of {
                    ($t:ident) => {
                        let got: Vec<&$t> = x.items_of::<$t>(ifc).collect();
                        let w: Vec<V> = want.iter().filter(|e| self.args(e).is_ok_and(|x| x.0 == stringify!($t))).cloned().collect();
                        if got.len() != w.len() {
                            return Err(format!("{} items of kind {} instead of {}", got.len(), stringify!($t), w.len()));
                        }
                        for (g, e) in got.into_iter().zip(&w) {
                            self.is("item of a kind", g, e)?;
                        }
                    };
                }
                of!(MappedItem);
                of!(ExtrudedAreaSolid);
                of!(PolyLine);
                let (ck, c) = self.args(&a[0])?;
                let want = if ck == "GeometricRepresentationSubContext" { c[6].clone() } else { a[0].clone() };
                if self.m[&want.r().unwrap()].0 == "Dummy" || ck == "Dummy" {
                    return Ok(());
                }
                self.is("parent context", x.parent_context(ifc), &want)
            }
            "Site" => product!(Site),
            "Building" => product!(Building),
            "Storey" => product!(Storey),
            "Space" => product!(Space),
            "Wall" => product!(Wall),
            "Slab" => product!(Slab),
            "Roof" => product!(Roof),
            "OpeningElement" => product!(OpeningElement),
            "ShadingDevice" => product!(ShadingDevice),
            "Door" => product!(Door),
            "Window" => product!(Window),
            _ => Ok(()),
        }
    }
}

const VIEWS: [&str; 21] = [
    "Axis2D", "Axis3D", "RectangleProfileDef", "ArbitraryClosedProfileDef", "PolyLine", "ExtrudedAreaSolid", "CartesianTransformationOperator3D",
    "CartesianTransformationOperator3DnonUniform", "MappedItem", "ShapeRepresentation", "Site", "Building", "Storey", "Space", "Wall", "Slab",
    "Roof", "OpeningElement", "ShadingDevice", "Door", "Window",
];

pub fn run18(cx: &mut Cx) {
    let k = VIEWS[cx.case as usize % VIEWS.len()];
    let o = Opts { opaque: false, hostile_text: false, kinds: if cx.thorough { 12 } else { 4 }, big_ids: false, ..Opts::default() };
    let mut f = gen_with(&mut cx.r, &o, &[k, "ExtrudedAreaSolid", "PolyLine", "Point2D", "Point3D", "MappedItem", "Axis2D"]);
    // curves have at least one point, and points of one dimension
    let dims: HashMap<u64, &str> = f.insts.iter().filter_map(|i| Some((i.id, i.kind?.name))).collect();
    let two: Vec<u64> = dims.iter().filter(|d| *d.1 == "Point2D").map(|d| *d.0).collect();
    let three: Vec<u64> = dims.iter().filter(|d| *d.1 == "Point3D").map(|d| *d.0).collect();
    for i in &mut f.insts {
        if i.kind.is_some_and(|k| k.name == "PolyLine") {
            let mut c = if cx.r.coin() { two.clone() } else { three.clone() };
            c.sort();
            let n = 1 + cx.r.below(6);
            i.args[0] = refs((0..n).map(|_| *cx.r.pick(&c)).collect());
        }
    }
    // some shapes have items the library does not know
    let mut next = f.insts.iter().map(|i| i.id).max().unwrap_or(0) + 1;
    let mut extra = vec![];
    for i in &mut f.insts {
        if i.kind.is_some_and(|k| k.name == "ShapeRepresentation") && cx.r.chance(1, 4) {
            if let V::List(l) = &mut i.args[3] {
                let at = cx.r.below(l.len() + 1);
                l.insert(at, V::Ref(next));
                let raw = match cx.r.below(5) {
                    0 => "IFCBLOCK($,1.,2.,3.)".to_string(),
                    1 => format!("IFCBOOLEANRESULT(.DIFFERENCE.,#{},#{})", i.id, i.id),
                    2 => format!("(IFCA('#1;') IFCB(#{}))", i.id),
                    3 => "IFCTEXTLITERAL('( #1 )',*,.LEFT.)".to_string(),
                    _ => format!("IFCFACETEDBREP(#{})", i.id),
                };
                extra.push(GInst { id: next, kind: None, kw: String::new(), args: vec![], raw });
                next += 1;
            }
        }
    }
    f.insts.extend(extra);
    let text = render(&mut cx.r, Lay::Plain, &f, false);
    let ifc = match load(&text) {
        Ok(Ok(i)) => i,
        Ok(Err(e)) => return cx.fail(format!("a well-formed file is refused: {}", cut(&e, 400)), text),
        Err(p) => return cx.fail(p, text),
    };
    let m: Insts = f.insts.iter().map(|i| (i.id, (i.kind.map_or("Dummy", |k| k.name).to_string(), i.args.clone()))).collect();
    let before = ifc.to_string();
    let mut v = View { ifc: &ifc, m: &m, n: 0, some: 0, none: 0 };
    for (id, (k, a)) in &m {
        if !VIEWS.contains(&k.as_str()) {
            continue;
        }
        match guard(|| v.one(*id, k, a)) {
            Ok(Ok(())) => cx.count(&format!("views of {k}")),
            Ok(Err(e)) => return cx.fail(format!("view of #{id} {k}: {e}"), text),
            Err(p) => {
                assert!(!p.contains("src/queries.rs"), "{p}");
                return cx.fail(format!("view of #{id} {k}: {p}"), text);
            }
        }
    }
    let (n, some, none) = (v.n, v.some, v.none);
    if ifc.to_string() != before {
        // decided by P23
        cx.count("asking has changed the model");
    }
    cx.add("parts of views compared", n);
    cx.add("optional parts shown", some);
    cx.add("optional parts absent", none);
    cx.eval(&text);
    cx.sample(|| text);
}
