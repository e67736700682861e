//! The construction API: every constructor and setter with random arguments, and the attribute
//! values that the standard's order of attributes makes of them.  Used for P22 (what is saved),
//! P03 (it can be loaded again), P09 and P10 (values through the API) and P11 (fresh ids).

use crate::common::*;
use crate::enums::Variants;
use crate::gen;
use crate::monitor::*;
use crate::prng::Rng;
use crate::schema;
use crate::step::{self, V};
use crate::typed::{self, f, ToV};
use bevy_math::{DVec2, DVec3};
use ifc_rs::prelude::*;
use ifc_rs::IFC;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy)]
pub struct Mode {
    /// odd characters in texts
    pub hostile: bool,
    /// apostrophes in texts
    pub quotes: bool,
    /// numbers of any magnitude
    pub extreme: bool,
}

pub struct Made {
    pub id: u64,
    pub name: &'static str,
    pub exp: Vec<V>,
}

pub struct G<'a> {
    pub ifc: IFC,
    pub r: &'a mut Rng,
    pub mode: Mode,
    /// numbers of stored instances by kind
    pub pool: HashMap<&'static str, Vec<u64>>,
    /// everything the harness stored itself or loaded
    pub known: HashSet<u64>,
    pub made: Vec<Made>,
    /// instances which the library has to store on its own
    pub hidden: u64,
    pub depth: u32,
    pub texts: u64,
    pub numbers: u64,
    pub setters: u64,
}

type E = Vec<V>;
type Set<T> = fn(&mut G, T, &mut E) -> T;
type Make<T> = fn(&mut G) -> (T, E);

/// a direction: any positive multiple is the same direction
fn dir(v: Vec<f64>) -> V {
    V::Typed("DIRECTION".into(), v.into_iter().map(f).collect())
}

impl G<'_> {
    /// the length of a list: mostly short
    fn len(&mut self, most: usize) -> usize {
        if self.r.chance(1, 50) {
            most + self.r.below(150)
        } else {
            self.r.below(most)
        }
    }
    pub fn txt(&mut self) -> String {
        self.texts += 1;
        let mut s = gen::text(self.r, self.mode.hostile);
        if self.mode.quotes && self.r.chance(1, 4) {
            for _ in 0..1 + self.r.below(3) {
                let n = s.chars().count();
                let at = s.char_indices().nth(self.r.below(n + 1)).map_or(s.len(), |x| x.0);
                s.insert_str(at, self.r.pick(&["'", "''", "';", "','"]));
            }
        }
        s
    }
    pub fn num(&mut self) -> f64 {
        self.numbers += 1;
        gen::real(self.r, self.mode.extreme)
    }
    fn int(&mut self) -> i64 {
        self.numbers += 1;
        gen::int(self.r, self.mode.extreme)
    }
    fn en<T: Variants + ToV>(&mut self) -> (T, V) {
        let mut a = T::all();
        let t = a.swap_remove(self.r.below(a.len()));
        let v = t.tv();
        (t, v)
    }
    fn time(&mut self) -> (IfcTimestamp, V) {
        let t = gen::time(self.r, self.mode.extreme);
        (IfcTimestamp(chrono::DateTime::from_timestamp(t, 0).expect("time")), V::Num(t.to_string()))
    }
    fn vec3(&mut self) -> DVec3 {
        DVec3::new(self.num(), self.num(), self.num())
    }
    fn vec2(&mut self) -> DVec2 {
        DVec2::new(self.num(), self.num())
    }
    fn old(&mut self, name: &'static str) -> Option<u64> {
        let p = self.pool.get(name)?;
        Some(*self.r.pick(p))
    }
    fn store<T: IfcType>(&mut self, name: &'static str, t: T, exp: E) -> u64 {
        let id = self.ifc.data.insert_new(t).id().0 as u64;
        self.known.insert(id);
        self.pool.entry(name).or_default().push(id);
        self.made.push(Made { id, name, exp });
        id
    }
    /// an existing instance of the kind or a new one stored by the harness
    fn tid<T: IfcType>(&mut self, name: &'static str, make: Make<T>) -> (TypedId<T>, V) {
        let id = match self.old(name) {
            Some(i) if self.depth > 3 || self.r.coin() => i,
            _ => {
                self.depth += 1;
                let (t, e) = make(self);
                self.depth -= 1;
                self.store(name, t, e)
            }
        };
        (TypedId::new(Id(id as usize)), V::Ref(id))
    }
    /// as an argument: the number of an instance, or a value the library has to store
    fn arg<T: IfcType>(&mut self, name: &'static str, make: Make<T>) -> (IdOr<T>, V) {
        let deep = self.depth > 3;
        if !deep && self.r.coin() {
            self.depth += 1;
            let (t, e) = make(self);
            self.depth -= 1;
            self.hidden += 1;
            return (IdOr::from(t), V::Typed(format!("NEW:{}", schema::kind(name).kw), e));
        }
        let (id, v) = self.tid(name, make);
        (if self.r.coin() { IdOr::from(id) } else { IdOr::from(id.id()) }, v)
    }
    /// only existing instances (kinds without a constructor)
    fn loaded<T: IfcType>(&mut self, name: &'static str) -> (IdOr<T>, V) {
        let i = self.old(name).unwrap_or_else(|| panic!("no {name} in the pool"));
        (IdOr::from(Id(i as usize)), V::Ref(i))
    }
    fn any_id(&mut self) -> (Id, V) {
        let mut k: Vec<u64> = self.known.iter().copied().collect();
        k.sort();
        let i = *self.r.pick(&k);
        (Id(i as usize), V::Ref(i))
    }
    /// a random sequence of setters: none, each once in any order, or any with repeats
    fn apply<T>(&mut self, mut t: T, e: &mut E, sets: &[Set<T>]) -> T {
        if sets.is_empty() {
            return t;
        }
        let mut seq: Vec<usize> = match self.r.below(5) {
            0 => vec![],
            1 | 2 => (0..sets.len()).collect(),
            3 => vec![self.r.below(sets.len())],
            _ => (0..self.r.below(2 * sets.len() + 1)).map(|_| self.r.below(sets.len())).collect(),
        };
        self.r.shuffle(&mut seq);
        for i in seq {
            self.setters += 1;
            t = sets[i](self, t, e);
        }
        t
    }
}

macro_rules! st {
    ($m:ident, $i:expr) => {
        |g, x, e| {
            let t = g.txt();
            e[$i] = V::Str(t.clone());
            x.$m(t)
        }
    };
}
macro_rules! sadd {
    ($m:ident, $i:expr) => {
        |g, x, e| {
            let t = g.txt();
            push(&mut e[$i], V::Str(t.clone()));
            x.$m(t)
        }
    };
}
macro_rules! sr {
    ($m:ident, $i:expr) => {
        |g, x, e| {
            let t = g.num();
            e[$i] = f(t);
            x.$m(t)
        }
    };
}
macro_rules! se {
    ($m:ident, $i:expr, $t:ty) => {
        |g, x, e| {
            let (t, v) = g.en::<$t>();
            e[$i] = v;
            x.$m(t)
        }
    };
}
/// reference with a constructor
macro_rules! sk {
    ($m:ident, $i:expr, $k:ident, $f:path) => {
        |g, x, e| {
            let (t, v) = g.arg::<$k>(stringify!($k), $f);
            e[$i] = v;
            x.$m(t, &mut g.ifc)
        }
    };
}
macro_rules! skadd {
    ($m:ident, $i:expr, $k:ident, $f:path) => {
        |g, x, e| {
            let (t, v) = g.arg::<$k>(stringify!($k), $f);
            push(&mut e[$i], v);
            x.$m(t, &mut g.ifc)
        }
    };
}
/// references to kinds without a constructor
macro_rules! sl {
    ($m:ident, $i:expr, $k:ident) => {
        |g, x, e| {
            let (t, v) = g.loaded::<$k>(stringify!($k));
            e[$i] = v;
            x.$m(t, &mut g.ifc)
        }
    };
}
macro_rules! sladd {
    ($m:ident, $i:expr, $k:ident) => {
        |g, x, e| {
            let (t, v) = g.loaded::<$k>(stringify!($k));
            push(&mut e[$i], v);
            x.$m(t, &mut g.ifc)
        }
    };
}

fn push(v: &mut V, x: V) {
    match v {
        V::List(l) => l.push(x),
        _ => *v = V::List(vec![x]),
    }
}

fn nulls(n: usize) -> E {
    vec![V::Null; n]
}

/// a root with the given name and n further attributes
fn rooted(name: &str, n: usize) -> E {
    let mut e = vec![V::Any, V::Null, V::Str(name.to_string()), V::Null];
    e.extend(nulls(n));
    e
}

fn root_sets<T: RootBuilder>() -> Vec<Set<T>> {
    vec![
        |g, x, e| {
            let (t, v) = g.arg::<OwnerHistory>("OwnerHistory", owner_history);
            e[1] = v;
            RootBuilder::owner_history(x, t, &mut g.ifc)
        },
        |g, x, e| {
            let t = g.txt();
            e[2] = V::Str(t.clone());
            RootBuilder::name(x, t)
        },
        |g, x, e| {
            let t = g.txt();
            e[3] = V::Str(t.clone());
            RootBuilder::description(x, t)
        },
    ]
}

fn product_sets<T: RootBuilder + ObjectBuilder + ProductBuilder>() -> Vec<Set<T>> {
    let mut v = root_sets::<T>();
    v.push(|g, x, e| {
        let t = g.txt();
        e[4] = V::Str(t.clone());
        ObjectBuilder::object_type(x, t)
    });
    v.push(|g, x, e| {
        let (t, v) = g.arg::<LocalPlacement>("LocalPlacement", local_placement);
        e[5] = v;
        ProductBuilder::object_placement(x, t, &mut g.ifc)
    });
    v.push(|g, x, e| {
        let (t, v) = g.arg::<ProductDefinitionShape>("ProductDefinitionShape", shape);
        e[6] = v;
        ProductBuilder::representation(x, t, &mut g.ifc)
    });
    v
}

fn element_sets<T: RootBuilder + ObjectBuilder + ProductBuilder + ElementBuilder>() -> Vec<Set<T>> {
    let mut v = product_sets::<T>();
    v.push(|g, x, e| {
        let t = g.txt();
        e[7] = V::Str(t.clone());
        ElementBuilder::tag(x, t)
    });
    v
}

fn sse_sets<T>() -> Vec<Set<T>>
where
    T: RootBuilder + ObjectBuilder + ProductBuilder + SpatialElementBuilder + SpatialStructureElementBuilder,
{
    let mut v = product_sets::<T>();
    v.push(|g, x, e| {
        let t = g.txt();
        e[7] = V::Str(t.clone());
        SpatialElementBuilder::long_name(x, t)
    });
    v.push(|g, x, e| {
        let (t, v) = g.en();
        e[8] = v;
        SpatialStructureElementBuilder::composition_type(x, t)
    });
    v
}

fn type_sets<T: RootBuilder + TypeProductBuilder + ElementTypeBuilder>() -> Vec<Set<T>> {
    let mut v = root_sets::<T>();
    v.push(|g, x, e| {
        let t = g.txt();
        e[7] = V::Str(t.clone());
        TypeProductBuilder::tag(x, t)
    });
    v.push(|g, x, e| {
        let t = g.txt();
        e[8] = V::Str(t.clone());
        ElementTypeBuilder::element_type(x, t)
    });
    v
}

fn with<T>(mut a: Vec<Set<T>>, b: &[Set<T>]) -> Vec<Set<T>> {
    a.extend_from_slice(b);
    a
}

// ---------------------------------------------------------------- materials

fn material(g: &mut G) -> (Material, E) {
    let n = g.txt();
    let mut e = vec![V::Str(n.clone()), V::Null, V::Null];
    let x = g.apply(Material::new(n), &mut e, &[st!(description, 1), st!(category, 2)]);
    (x, e)
}
fn constituent(g: &mut G) -> (MaterialConstituent, E) {
    let (m, v) = g.tid("Material", material);
    let mut e = vec![V::Null, V::Null, v, V::Null, V::Null];
    let x = g.apply(
        MaterialConstituent::new(m),
        &mut e,
        &[sk!(material, 2, Material, material), st!(name, 0), st!(description, 1), st!(category, 4), sr!(fraction, 3)],
    );
    (x, e)
}
fn constituent_set(g: &mut G) -> (MaterialConstituentSet, E) {
    let mut e = vec![V::Null, V::Null, V::List(vec![])];
    let x = g.apply(
        MaterialConstituentSet::new(),
        &mut e,
        &[st!(name, 0), st!(description, 1), skadd!(add_constituent, 2, MaterialConstituent, constituent)],
    );
    (x, e)
}
fn layer(g: &mut G) -> (MaterialLayer, E) {
    let (t, b) = (g.num(), g.r.coin());
    let mut e = vec![V::Null, f(t), V::Enum(if b { "T" } else { "F" }.into()), V::Null, V::Null, V::Null, V::Null];
    let x = g.apply(
        MaterialLayer::new(t, b),
        &mut e,
        &[
            sk!(material, 0, Material, material),
            st!(name, 3),
            st!(description, 4),
            st!(category, 5),
            |g, x, e| {
                let i = g.int();
                e[6] = V::Num(i.to_string());
                x.priority(i)
            },
        ],
    );
    (x, e)
}
fn layer_set(g: &mut G) -> (MaterialLayerSet, E) {
    let mut e = vec![V::List(vec![]), V::Null, V::Null];
    let x = g.apply(
        MaterialLayerSet::new(),
        &mut e,
        &[st!(name, 1), st!(description, 2), skadd!(add_layer, 0, MaterialLayer, layer)],
    );
    (x, e)
}
fn layer_set_usage(g: &mut G) -> (MaterialLayerSetUsage, E) {
    let (s, v) = g.arg::<MaterialLayerSet>("MaterialLayerSet", layer_set);
    let (d, dv) = g.en();
    let (n, nv) = g.en();
    let o = g.num();
    let mut e = vec![v, dv, nv, f(o), V::Null];
    let x = MaterialLayerSetUsage::new(s, d, n, o, &mut g.ifc);
    let x = g.apply(x, &mut e, &[sr!(reference_extent, 4)]);
    (x, e)
}

// ---------------------------------------------------------------- actors

fn organization(g: &mut G) -> (Organization, E) {
    let (i, n, d) = (g.r.coin().then(|| g.txt()), g.txt(), g.r.coin().then(|| g.txt()));
    let o = |t: &Option<String>| t.as_ref().map_or(V::Null, |t| V::Str(t.clone()));
    let mut e = vec![o(&i), V::Str(n.clone()), o(&d), V::Null, V::Null];
    let x = g.apply(
        Organization::new(i.as_deref(), n, d.as_deref()),
        &mut e,
        &[sladd!(add_role, 3, ActorRole), sladd!(add_address, 4, TelecomAddress), sladd!(add_address, 4, PostalAddress)],
    );
    (x, e)
}
fn person(g: &mut G) -> (Person, E) {
    let mut e = nulls(8);
    let x = g.apply(
        Person::empty(),
        &mut e,
        &[
            st!(id, 0),
            st!(family_name, 1),
            st!(given_name, 2),
            sadd!(add_middle_name, 3),
            sadd!(add_prefix_title, 4),
            sadd!(add_suffix_title, 5),
            sladd!(add_role, 6, ActorRole),
            sladd!(add_address, 7, TelecomAddress),
            sladd!(add_address, 7, PostalAddress),
        ],
    );
    (x, e)
}
fn person_org(g: &mut G) -> (PersonAndOrganization, E) {
    let (p, pv) = g.tid("Person", person);
    let (o, ov) = g.tid("Organization", organization);
    let mut e = vec![pv, ov, V::Null];
    let x = g.apply(PersonAndOrganization::new(p, o), &mut e, &[sladd!(add_role, 2, ActorRole)]);
    (x, e)
}
fn application(g: &mut G) -> (Application, E) {
    let (o, ov) = g.tid("Organization", organization);
    let (a, b, c) = (g.txt(), g.txt(), g.txt());
    let e = vec![ov, V::Str(a.clone()), V::Str(b.clone()), V::Str(c.clone())];
    (Application::new(o, a, b, c), e)
}
fn owner_history(g: &mut G) -> (OwnerHistory, E) {
    let (c, cv) = g.en();
    let (t, tv) = g.time();
    let mut e = nulls(8);
    e[3] = cv;
    e[7] = tv;
    let x = g.apply(
        OwnerHistory::new(c, t),
        &mut e,
        &[
            // setting the owner also sets the last modifier
            |g, x, e| {
                let (t, v) = g.arg::<PersonAndOrganization>("PersonAndOrganization", person_org);
                e[0] = v.clone();
                e[5] = v;
                x.owning_user(t, &mut g.ifc)
            },
            |g, x, e| {
                let (t, v) = g.arg::<Application>("Application", application);
                e[1] = v.clone();
                e[6] = v;
                x.owning_application(t, &mut g.ifc)
            },
            se!(state, 2, AccessState),
            |g, x, e| {
                let (t, v) = g.time();
                e[4] = v;
                x.last_modified_date(t)
            },
            sk!(last_modifying_user, 5, PersonAndOrganization, person_org),
            sk!(last_modifying_application, 6, Application, application),
        ],
    );
    (x, e)
}

// ---------------------------------------------------------------- geometry

fn point2(g: &mut G) -> (Point2D, E) {
    let p = g.vec2();
    (Point2D::from(p), vec![V::List(vec![f(p.x), f(p.y)])])
}
fn point3(g: &mut G) -> (Point3D, E) {
    let p = g.vec3();
    (Point3D::from(p), vec![V::List(vec![f(p.x), f(p.y), f(p.z)])])
}
fn small(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => *r.pick(&[0.0, 1.0, -1.0, 1.0, 1e-6]),
        _ => (r.unit() - 0.5) * *r.pick(&[1.0, 100.0, 1e6]),
    }
}
fn dvec3(g: &mut G) -> DVec3 {
    loop {
        let v = DVec3::new(small(g.r), small(g.r), small(g.r));
        if v.length() > 1e-3 {
            return v;
        }
    }
}
fn direction2(g: &mut G) -> (Direction2D, E) {
    let v = dvec3(g);
    let v = if v.x.hypot(v.y) > 1e-3 { DVec2::new(v.x, v.y) } else { DVec2::new(1.0, -2.0) };
    (Direction2D::from(v), vec![dir(vec![v.x, v.y])])
}
fn direction3(g: &mut G) -> (Direction3D, E) {
    let v = dvec3(g);
    (Direction3D::from(v), vec![dir(vec![v.x, v.y, v.z])])
}
fn hid(kw: &str, e: E) -> V {
    V::Typed(format!("NEW:{kw}"), e)
}
fn axis2(g: &mut G) -> (Axis2D, E) {
    let (p, e) = point2(g);
    g.hidden += 1;
    (Axis2D::new(p, &mut g.ifc), vec![hid("IFCCARTESIANPOINT", e), V::Null])
}
fn axis3(g: &mut G) -> (Axis3D, E) {
    let (p, e) = point3(g);
    g.hidden += 1;
    (Axis3D::new(p, &mut g.ifc), vec![hid("IFCCARTESIANPOINT", e), V::Null, V::Null])
}
fn list2(g: &mut G) -> (PointList2D, E) {
    let n = g.len(8);
    let p: Vec<DVec2> = (0..n).map(|_| g.vec2()).collect();
    let e = vec![V::List(p.iter().map(|p| V::List(vec![f(p.x), f(p.y)])).collect()), V::Null];
    (PointList2D::new(p.into_iter()), e)
}
fn list3(g: &mut G) -> (PointList3D, E) {
    let n = g.len(8);
    let p: Vec<DVec3> = (0..n).map(|_| g.vec3()).collect();
    let e = vec![V::List(p.iter().map(|p| V::List(vec![f(p.x), f(p.y), f(p.z)])).collect()), V::Null];
    (PointList3D::new(p.into_iter()), e)
}
fn indexed(g: &mut G) -> (IndexedPolyCurve, E) {
    g.hidden += 1;
    if g.r.coin() {
        let (l, e) = list2(g);
        (IndexedPolyCurve::new(l, &mut g.ifc), vec![hid("IFCCARTESIANPOINTLIST2D", e), V::Null, V::Null])
    } else {
        let (l, e) = list3(g);
        (IndexedPolyCurve::new(l, &mut g.ifc), vec![hid("IFCCARTESIANPOINTLIST3D", e), V::Null, V::Null])
    }
}
fn polyline(g: &mut G) -> (PolyLine, E) {
    let n = g.len(6);
    g.hidden += n as u64;
    if g.r.coin() {
        let (p, e): (Vec<_>, Vec<_>) = (0..n).map(|_| point2(g)).unzip();
        let e = e.into_iter().map(|e| hid("IFCCARTESIANPOINT", e)).collect();
        (PolyLine::from(p.into_iter(), &mut g.ifc), vec![V::List(e)])
    } else {
        let (p, e): (Vec<_>, Vec<_>) = (0..n).map(|_| point3(g)).unzip();
        let e = e.into_iter().map(|e| hid("IFCCARTESIANPOINT", e)).collect();
        (PolyLine::from(p.into_iter(), &mut g.ifc), vec![V::List(e)])
    }
}
fn arbitrary(g: &mut G) -> (ArbitraryClosedProfileDef, E) {
    let (t, tv) = g.en();
    let (x, v) = if g.r.coin() {
        let (c, v) = g.arg::<IndexedPolyCurve>("IndexedPolyCurve", indexed);
        (ArbitraryClosedProfileDef::new(t, c, &mut g.ifc), v)
    } else {
        let (c, v) = g.arg::<PolyLine>("PolyLine", polyline);
        (ArbitraryClosedProfileDef::new(t, c, &mut g.ifc), v)
    };
    let mut e = vec![tv, V::Null, v];
    let x = g.apply(x, &mut e, &[st!(profile_name, 1)]);
    (x, e)
}
fn rectangle(g: &mut G) -> (RectangleProfileDef, E) {
    let (t, tv) = g.en();
    let (a, b) = (g.num(), g.num());
    let mut e = vec![tv, V::Null, V::Null, f(a), f(b)];
    let x = g.apply(
        RectangleProfileDef::new(t, a, b),
        &mut e,
        &[st!(profile_name, 1), sk!(position, 2, Axis2D, axis2), sk!(position, 2, Axis3D, axis3)],
    );
    (x, e)
}
fn solid(g: &mut G) -> (ExtrudedAreaSolid, E) {
    let d = g.num();
    let (dirn, dv) = g.arg::<Direction3D>("Direction3D", direction3);
    let (x, v) = if g.r.coin() {
        let (p, v) = g.arg::<RectangleProfileDef>("RectangleProfileDef", rectangle);
        (ExtrudedAreaSolid::new(p, dirn, d, &mut g.ifc), v)
    } else {
        let (p, v) = g.arg::<ArbitraryClosedProfileDef>("ArbitraryClosedProfileDef", arbitrary);
        (ExtrudedAreaSolid::new(p, dirn, d, &mut g.ifc), v)
    };
    let mut e = vec![v, V::Null, dv, f(d)];
    let x = g.apply(x, &mut e, &[sk!(position, 1, Axis3D, axis3)]);
    (x, e)
}
fn local_placement(g: &mut G) -> (LocalPlacement, E) {
    let with_placement: Vec<(u64, &'static str, u64)> = g
        .made
        .iter()
        .filter(|m| ["Site", "Building", "Storey", "OpeningElement", "Wall", "Slab"].contains(&m.name))
        .filter_map(|m| Some((m.id, m.name, m.exp[5].r()?)))
        .collect();
    if !with_placement.is_empty() && g.r.chance(1, 3) {
        let (id, name, pl) = *g.r.pick(&with_placement);
        let (a, v) = g.arg::<Axis3D>("Axis3D", axis3);
        macro_rules! rel {
            ($($k:ident)*) => {
                match name {
                    $(stringify!($k) => LocalPlacement::new_relative(a, TypedId::<$k>::new(Id(id as usize)), &mut g.ifc),)*
                    _ => unreachable!(),
                }
            };
        }
        let x = rel!(Site Building Storey OpeningElement Wall Slab);
        return (x, vec![V::Ref(pl), v]);
    }
    let (x, v) = if g.r.coin() {
        let (a, v) = g.arg::<Axis2D>("Axis2D", axis2);
        (LocalPlacement::new(a, &mut g.ifc), v)
    } else {
        let (a, v) = g.arg::<Axis3D>("Axis3D", axis3);
        (LocalPlacement::new(a, &mut g.ifc), v)
    };
    let mut e = vec![V::Null, v];
    let x = g.apply(x, &mut e, &[sk!(relative_to, 0, LocalPlacement, local_placement)]);
    (x, e)
}
fn context(g: &mut G) -> (GeometricRepresentationContext, E) {
    let (d, dv) = g.en();
    let (x, v) = if g.r.coin() {
        let (a, v) = g.arg::<Axis2D>("Axis2D", axis2);
        (GeometricRepresentationContext::new(d, a, &mut g.ifc), v)
    } else {
        let (a, v) = g.arg::<Axis3D>("Axis3D", axis3);
        (GeometricRepresentationContext::new(d, a, &mut g.ifc), v)
    };
    let mut e = vec![V::Str("Body".into()), V::Str("Model".into()), dv, V::Null, v, V::Null];
    let x = g.apply(x, &mut e, &[sr!(precision, 3), sk!(true_north, 5, Direction2D, direction2)]);
    (x, e)
}
fn sub_context(g: &mut G) -> (GeometricRepresentationSubContext, E) {
    let (c, v) = g.arg::<GeometricRepresentationContext>("GeometricRepresentationContext", context);
    let (p, pv) = g.en();
    let x = GeometricRepresentationSubContext::derive(c, p, &mut g.ifc);
    let mut e = vec![V::Str("Body".into()), V::Str("Model".into()), V::Star, V::Star, V::Star, V::Star, v, V::Null, pv, V::Null];
    let x = g.apply(x, &mut e, &[sr!(target_scale, 7), st!(user_defined_target_view, 9)]);
    (x, e)
}
fn shape_repr(g: &mut G) -> (ShapeRepresentation, E) {
    let (c, v) = g.arg::<GeometricRepresentationSubContext>("GeometricRepresentationSubContext", sub_context);
    let (i, iv) = g.en();
    let (t, tv) = g.en();
    let mut x = ShapeRepresentation::new(c, i, t, &mut g.ifc);
    let mut items = vec![];
    for _ in 0..if g.depth < 2 { g.len(4) } else { g.r.below(4) } {
        g.hidden += 1;
        g.depth += 1;
        match g.r.below(if g.depth > 3 { 2 } else { 3 }) {
            0 => {
                let (s, e) = solid(g);
                items.push(hid("IFCEXTRUDEDAREASOLID", e));
                x = x.add_item(s, &mut g.ifc);
            }
            1 => {
                let (s, e) = polyline(g);
                items.push(hid("IFCPOLYLINE", e));
                x = x.add_item(s, &mut g.ifc);
            }
            _ => {
                let (s, e) = mapped_item(g);
                items.push(hid("IFCMAPPEDITEM", e));
                x = x.add_item(s, &mut g.ifc);
            }
        }
        g.depth -= 1;
    }
    (x, vec![v, iv, tv, V::List(items)])
}
fn shape(g: &mut G) -> (ProductDefinitionShape, E) {
    let sets: &[Set<ProductDefinitionShape>] =
        &[st!(name, 0), st!(description, 1), skadd!(add_representation, 2, ShapeRepresentation, shape_repr)];
    if g.r.coin() {
        let mut e = vec![V::Null, V::Null, V::List(vec![])];
        let x = g.apply(ProductDefinitionShape::new(), &mut e, sets);
        return (x, e);
    }
    // the ready-made shapes
    let (c, cv) = g.tid::<GeometricRepresentationSubContext>("GeometricRepresentationSubContext", sub_context);
    let th = g.num();
    let (x, profile, dv) = match g.r.below(4) {
        0 => {
            let (l, h) = (g.num(), g.num());
            let (d, dv) = direction3(g);
            let x = ProductDefinitionShape::new_rectangular_shape(l, h, th, d, c, &mut g.ifc);
            let centre = hid("IFCCARTESIANPOINT", vec![V::List(vec![f(l * 0.5), f(th * 0.5)])]);
            let p = vec![V::Enum("AREA".into()), V::Null, hid("IFCAXIS2PLACEMENT2D", vec![centre, V::Null]), f(l), f(th)];
            g.hidden += 6;
            // here the height is the depth of the extrusion
            let items = V::List(vec![hid("IFCEXTRUDEDAREASOLID", vec![hid("IFCRECTANGLEPROFILEDEF", p), V::Null, hid("IFCDIRECTION", dv), f(h)])]);
            let r = hid("IFCSHAPEREPRESENTATION", vec![cv, V::Str("Body".into()), V::Str("SweptSolid".into()), items]);
            let mut e = vec![V::Null, V::Null, V::List(vec![r])];
            let x = g.apply(x, &mut e, sets);
            return (x, e);
        }
        1 => {
            let (_, e) = list2(g);
            let p: Vec<DVec2> = e[0].list().iter().map(|p| DVec2::new(p.list()[0].f().unwrap(), p.list()[1].f().unwrap())).collect();
            let x = ProductDefinitionShape::new_horizontal_arbitrary_shape(p.into_iter(), th, c, &mut g.ifc);
            (x, hid("IFCCARTESIANPOINTLIST2D", e), dir(vec![0.0, 0.0, 1.0]))
        }
        2 => {
            let (_, e) = list2(g);
            let p: Vec<DVec2> = e[0].list().iter().map(|p| DVec2::new(p.list()[0].f().unwrap(), p.list()[1].f().unwrap())).collect();
            let q = V::List(p.iter().map(|p| V::List(vec![f(p.x), f(0.0), f(p.y)])).collect());
            let x = ProductDefinitionShape::new_vertical_arbitrary_shape(p.into_iter(), th, c, &mut g.ifc);
            (x, hid("IFCCARTESIANPOINTLIST3D", vec![q, V::Null]), dir(vec![0.0, 1.0, 0.0]))
        }
        _ => {
            let (_, e) = list3(g);
            let d = dvec3(g);
            let p: Vec<DVec3> = e[0]
                .list()
                .iter()
                .map(|p| DVec3::new(p.list()[0].f().unwrap(), p.list()[1].f().unwrap(), p.list()[2].f().unwrap()))
                .collect();
            let x = ProductDefinitionShape::new_arbitrary_shape(p.into_iter(), th, d, c, &mut g.ifc);
            (x, hid("IFCCARTESIANPOINTLIST3D", e), dir(vec![d.x, d.y, d.z]))
        }
    };
    g.hidden += 6;
    let curve = hid("IFCINDEXEDPOLYCURVE", vec![profile, V::Null, V::Null]);
    let prof = hid("IFCARBITRARYCLOSEDPROFILEDEF", vec![V::Enum("AREA".into()), V::Null, curve]);
    let items = V::List(vec![hid("IFCEXTRUDEDAREASOLID", vec![prof, V::Null, hid("IFCDIRECTION", vec![dv]), f(th)])]);
    let r = hid("IFCSHAPEREPRESENTATION", vec![cv, V::Str("Body".into()), V::Str("SweptSolid".into()), items]);
    let mut e = vec![V::Null, V::Null, V::List(vec![r])];
    let x = g.apply(x, &mut e, sets);
    (x, e)
}
fn transform_args(g: &mut G) -> (IdOr<Point3D>, [IdOr<Direction3D>; 3], E) {
    let (p, pv) = g.arg::<Point3D>("Point3D", point3);
    let (a, av) = g.arg::<Direction3D>("Direction3D", direction3);
    let (b, bv) = g.arg::<Direction3D>("Direction3D", direction3);
    let (c, cv) = g.arg::<Direction3D>("Direction3D", direction3);
    (p, [a, b, c], vec![av, bv, pv, V::Null, cv])
}
fn transform(g: &mut G) -> (CartesianTransformationOperator3D, E) {
    let (p, [a, b, c], mut e) = transform_args(g);
    let s = g.num();
    e[3] = f(s);
    (CartesianTransformationOperator3D::new(p, (a, b, c), s, &mut g.ifc), e)
}
fn transform_non(g: &mut G) -> (CartesianTransformationOperator3DnonUniform, E) {
    let (p, [a, b, c], mut e) = transform_args(g);
    let s = (g.num(), g.num(), g.num());
    e[3] = f(s.0);
    e.extend([f(s.1), f(s.2)]);
    (CartesianTransformationOperator3DnonUniform::new(p, (a, b, c), s, &mut g.ifc), e)
}
fn mapped_item(g: &mut G) -> (MappedItem, E) {
    let (m, mv) = g.arg::<RepresentationMap>("RepresentationMap", repr_map);
    if g.r.coin() {
        let (t, tv) = g.arg("CartesianTransformationOperator3D", transform);
        (MappedItem::new(m, t, &mut g.ifc), vec![mv, tv])
    } else {
        let (t, tv) = g.arg("CartesianTransformationOperator3DnonUniform", transform_non);
        (MappedItem::new(m, t, &mut g.ifc), vec![mv, tv])
    }
}
fn repr_map(g: &mut G) -> (RepresentationMap, E) {
    let (a, av) = g.arg::<Axis3D>("Axis3D", axis3);
    let (s, sv) = g.arg::<ShapeRepresentation>("ShapeRepresentation", shape_repr);
    (RepresentationMap::new(a, s, &mut g.ifc), vec![av, sv])
}

// ---------------------------------------------------------------- units and properties

fn si_unit(g: &mut G) -> (SiUnit, E) {
    let (u, uv) = g.en::<IfcUnitEnum>();
    let (p, pv) = g.en::<IfcPrefix>();
    let (n, nv) = g.en::<IfcUnitName>();
    let (hu, hp) = (g.r.coin(), g.r.coin());
    let e = vec![V::Star, if hu { uv } else { V::Null }, if hp { pv } else { V::Null }, nv];
    (SiUnit::new(hu.then_some(u), hp.then_some(p), n), e)
}
fn units(g: &mut G) -> (UnitAssigment, E) {
    let n = g.len(5);
    let (u, e): (Vec<_>, Vec<_>) = (0..n).map(|_| g.arg::<SiUnit>("SiUnit", si_unit)).unzip();
    (UnitAssigment::new(u, &mut g.ifc), vec![V::List(e)])
}
fn single_value(g: &mut G) -> (PropertySingleValue, E) {
    let n = g.txt();
    let typed = |k: &str, v: V| V::Typed(k.into(), vec![v]);
    let (v, ev) = match g.r.below(5) {
        0 => {
            let b = g.r.coin();
            (IfcValue::Bool(BoolValue(b.into())), typed("IFCBOOLEAN", V::Enum(if b { "T" } else { "F" }.into())))
        }
        1 => {
            let t = g.txt();
            (IfcValue::Label(LabelValue(t.as_str().into())), typed("IFCLABEL", V::Str(t)))
        }
        2 => {
            let t = g.txt();
            (IfcValue::Identifier(IdentifierValue(t.as_str().into())), typed("IFCIDENTIFIER", V::Str(t)))
        }
        3 => {
            let x = g.num();
            (IfcValue::Real(x.into()), typed("IFCREAL", f(x)))
        }
        _ => {
            let x = g.num();
            (IfcValue::ThermalTransmittance(x.into()), typed("IFCTHERMALTRANSMITTANCEMEASURE", f(x)))
        }
    };
    let (u, uv) = if g.r.coin() {
        let (i, v) = g.any_id();
        (Some(i), v)
    } else {
        (None, V::Null)
    };
    let mut e = vec![V::Str(n.clone()), V::Null, ev, uv];
    let x = g.apply(
        PropertySingleValue::new(n, v, u),
        &mut e,
        &[
            |g, x, e| {
                let t = g.txt();
                e[0] = V::Str(t.clone());
                PropertyBuilder::name(x, t)
            },
            |g, x, e| {
                let t = g.txt();
                e[1] = V::Str(t.clone());
                PropertyBuilder::description(x, t)
            },
        ],
    );
    (x, e)
}
fn property_set(g: &mut G) -> (PropertySet, E) {
    let n = g.txt();
    let k = g.len(4);
    let (p, v): (Vec<_>, Vec<_>) = (0..k).map(|_| g.tid("PropertySingleValue", single_value)).unzip();
    let mut e = rooted(&n, 0);
    e.push(V::List(v));
    let x = g.apply(PropertySet::new(n, p), &mut e, &root_sets());
    (x, e)
}

// ---------------------------------------------------------------- products and types

fn project(g: &mut G) -> (Project, E) {
    let n = g.txt();
    let mut e = rooted(&n, 5);
    e[7] = V::List(vec![]);
    let x = g.apply(
        Project::new(n),
        &mut e,
        &with::<Project>(
            root_sets(),
            &[
                |g, x, e| {
                    let t = g.txt();
                    e[4] = V::Str(t.clone());
                    ContextBuilder::object_type(x, t)
                },
                |g, x, e| {
                    let t = g.txt();
                    e[5] = V::Str(t.clone());
                    ContextBuilder::long_name(x, t)
                },
                |g, x, e| {
                    let t = g.txt();
                    e[6] = V::Str(t.clone());
                    ContextBuilder::phase(x, t)
                },
                skadd!(add_context, 7, GeometricRepresentationContext, context),
                sk!(unit_assignment, 8, UnitAssigment, units),
            ],
        ),
    );
    (x, e)
}
fn site(g: &mut G) -> (Site, E) {
    let n = g.txt();
    let mut e = rooted(&n, 10);
    let x = g.apply(
        Site::new(n),
        &mut e,
        &with::<Site>(
            sse_sets(),
            &[
                |g, x: Site, e| {
                    let n = g.len(7);
                    let l: Vec<i64> = (0..n).map(|_| g.int()).collect();
                    e[9] = V::List(l.iter().map(|i| V::Num(i.to_string())).collect());
                    x.ref_latitude(l)
                },
                |g, x: Site, e| {
                    let n = g.len(7);
                    let l: Vec<i64> = (0..n).map(|_| g.int()).collect();
                    e[10] = V::List(l.iter().map(|i| V::Num(i.to_string())).collect());
                    x.ref_longitude(l)
                },
                sr!(ref_elevation, 11),
                st!(land_title_number, 12),
                sl!(site_address, 13, PostalAddress),
            ],
        ),
    );
    (x, e)
}
fn building(g: &mut G) -> (Building, E) {
    let n = g.txt();
    let mut e = rooted(&n, 8);
    let x = g.apply(
        Building::new(n),
        &mut e,
        &with::<Building>(
            sse_sets(),
            &[sr!(elevation_of_ref_height, 9), sr!(elevation_of_terrain, 10), sl!(building_address, 11, PostalAddress)],
        ),
    );
    (x, e)
}
fn storey(g: &mut G) -> (Storey, E) {
    let n = g.txt();
    let mut e = rooted(&n, 6);
    let x = g.apply(Storey::new(n), &mut e, &sse_sets());
    (x, e)
}
fn space(g: &mut G) -> (Space, E) {
    let n = g.txt();
    let mut e = rooted(&n, 7);
    let x = g.apply(Space::new(n), &mut e, &with::<Space>(sse_sets(), &[se!(predefined_type, 9, SpaceTypeEnum), sr!(elevation_with_flooring, 10)]));
    (x, e)
}
fn wall(g: &mut G) -> (Wall, E) {
    let n = g.txt();
    let mut e = rooted(&n, 5);
    let x = g.apply(Wall::new(n), &mut e, &with::<Wall>(element_sets(), &[sk!(predefined_type, 8, WallType, wall_type)]));
    (x, e)
}
macro_rules! simple {
    ($($f:ident $k:ident $e:ident;)*) => { $(
        fn $f(g: &mut G) -> ($k, E) {
            let n = g.txt();
            let mut e = rooted(&n, 5);
            let x = g.apply($k::new(n), &mut e, &with::<$k>(element_sets(), &[se!(predefined_type, 8, $e)]));
            (x, e)
        }
    )* };
}
simple! {
    slab Slab SlabTypeEnum;
    roof Roof RoofTypeEnum;
    opening OpeningElement OpeningElementTypeEnum;
    shading ShadingDevice ShadingDeviceTypeEnum;
}
fn door(g: &mut G) -> (Door, E) {
    let n = g.txt();
    let mut e = rooted(&n, 9);
    let x = g.apply(
        Door::new(n),
        &mut e,
        &with::<Door>(
            element_sets(),
            &[sr!(overall_height, 8), sr!(overall_width, 9), se!(predefined_type, 10, DoorTypeEnum), se!(operation_type, 11, DoorOperationTypeEnum)],
        ),
    );
    (x, e)
}
fn window(g: &mut G) -> (Window, E) {
    let n = g.txt();
    let mut e = rooted(&n, 9);
    let x = g.apply(
        Window::new(n),
        &mut e,
        &with::<Window>(
            element_sets(),
            &[sr!(overall_height, 8), sr!(overall_width, 9), se!(predefined_type, 10, WindowTypeEnum), se!(partitioning_type, 11, WindowPartitioningTypeEnum)],
        ),
    );
    (x, e)
}
macro_rules! types {
    ($($f:ident $k:ident $extra:expr;)*) => { $(
        fn $f(g: &mut G) -> ($k, E) {
            let n = g.txt();
            let (t, v) = g.en();
            let mut e = rooted(&n, 5);
            e.push(v);
            e.extend(nulls($extra));
            let x = g.apply($k::new(n, t), &mut e, &type_sets());
            (x, e)
        }
    )* };
}
types! {
    wall_type WallType 0;
    slab_type SlabType 0;
    roof_type RoofType 0;
    shading_type ShadingDeviceType 0;
    space_type SpaceType 1;
}
macro_rules! types2 {
    ($($f:ident $k:ident;)*) => { $(
        fn $f(g: &mut G) -> ($k, E) {
            let n = g.txt();
            let (t, v) = g.en();
            let (o, w) = g.en();
            let mut e = rooted(&n, 5);
            e.extend([v, w, V::Null, V::Null]);
            let x = g.apply($k::new(n, t, o), &mut e, &type_sets());
            (x, e)
        }
    )* };
}
types2! {
    door_type DoorType;
    window_type WindowType;
}

// ---------------------------------------------------------------- relations

fn aggregates(g: &mut G) -> (RelAggregates, E) {
    let n = g.txt();
    macro_rules! id {
        ($k:ident $f:path) => {{
            let (t, v) = g.tid::<$k>(stringify!($k), $f);
            (t.id(), v)
        }};
    }
    let (p, pv) = match g.r.below(4) {
        0 => id!(Project project),
        1 => id!(Site site),
        2 => id!(Building building),
        _ => id!(Storey storey),
    };
    let (mut c, mut cv) = (vec![], vec![]);
    for _ in 0..g.len(4) {
        let (i, v) = match g.r.below(4) {
            0 => id!(Site site),
            1 => id!(Building building),
            2 => id!(Storey storey),
            _ => id!(Space space),
        };
        c.push(i);
        cv.push(v);
    }
    let mut e = rooted(&n, 0);
    e.extend([pv, V::List(cv)]);
    let x = g.apply(RelAggregates::new(n, p, c), &mut e, &root_sets());
    (x, e)
}
fn associates(g: &mut G) -> (RelAssociatesMaterial, E) {
    let n = g.txt();
    macro_rules! new {
        ($k:ident $f:path) => {{
            let (m, v) = g.arg::<$k>(stringify!($k), $f);
            (RelAssociatesMaterial::new(n.clone(), m, &mut g.ifc), v)
        }};
    }
    let (x, v) = match g.r.below(4) {
        0 => new!(Material material),
        1 => new!(MaterialLayerSet layer_set),
        2 => new!(MaterialLayerSetUsage layer_set_usage),
        _ => new!(MaterialConstituentSet constituent_set),
    };
    let mut e = rooted(&n, 0);
    e.extend([V::List(vec![]), v]);
    let x = g.apply(
        x,
        &mut e,
        &with::<RelAssociatesMaterial>(
            root_sets(),
            &[
                skadd!(relate_obj, 4, Wall, wall),
                skadd!(relate_obj, 4, Slab, slab),
                skadd!(relate_obj, 4, Roof, roof),
                skadd!(relate_obj, 4, Door, door),
                skadd!(relate_obj, 4, Window, window),
                skadd!(relate_obj, 4, ShadingDevice, shading),
                skadd!(relate_obj, 4, WallType, wall_type),
                skadd!(relate_obj, 4, SlabType, slab_type),
                skadd!(relate_obj, 4, RoofType, roof_type),
                skadd!(relate_obj, 4, DoorType, door_type),
                skadd!(relate_obj, 4, WindowType, window_type),
                skadd!(relate_obj, 4, ShadingDeviceType, shading_type),
            ],
        ),
    );
    (x, e)
}
fn contained(g: &mut G) -> (RelContainedInSpatialStructure, E) {
    let n = g.txt();
    macro_rules! new {
        ($k:ident $f:path) => {{
            let (m, v) = g.arg::<$k>(stringify!($k), $f);
            (RelContainedInSpatialStructure::new(n.clone(), m, &mut g.ifc), v)
        }};
    }
    let (x, v) = match g.r.below(9) {
        0 => new!(Site site),
        1 => new!(Building building),
        2 => new!(OpeningElement opening),
        3 => new!(Slab slab),
        4 => new!(Roof roof),
        5 => new!(Wall wall),
        6 => new!(Window window),
        7 => new!(Door door),
        _ => new!(Storey storey),
    };
    let mut e = rooted(&n, 0);
    e.extend([V::List(vec![]), v]);
    let x = g.apply(
        x,
        &mut e,
        &with::<RelContainedInSpatialStructure>(
            root_sets(),
            &[
                skadd!(relate_structure, 4, Site, site),
                skadd!(relate_structure, 4, Building, building),
                skadd!(relate_structure, 4, Storey, storey),
                skadd!(relate_structure, 4, OpeningElement, opening),
                skadd!(relate_structure, 4, Wall, wall),
                skadd!(relate_structure, 4, Slab, slab),
                skadd!(relate_structure, 4, Roof, roof),
                skadd!(relate_structure, 4, Door, door),
                skadd!(relate_structure, 4, Window, window),
                skadd!(relate_structure, 4, ShadingDevice, shading),
            ],
        ),
    );
    (x, e)
}
fn declares(g: &mut G) -> (RelDeclares, E) {
    let n = g.txt();
    let (p, v) = g.arg::<Project>("Project", project);
    let x = RelDeclares::new(n.clone(), p, &mut g.ifc);
    let mut e = rooted(&n, 0);
    e.extend([v, V::List(vec![])]);
    let x = g.apply(
        x,
        &mut e,
        &with::<RelDeclares>(
            root_sets(),
            &[
                skadd!(relate_definition, 5, WallType, wall_type),
                skadd!(relate_definition, 5, WindowType, window_type),
                skadd!(relate_definition, 5, PropertySet, property_set),
            ],
        ),
    );
    (x, e)
}
fn by_properties(g: &mut G) -> (RelDefinesByProperties, E) {
    let n = g.txt();
    let (p, v) = g.arg::<PropertySet>("PropertySet", property_set);
    let x = RelDefinesByProperties::new(n.clone(), p, &mut g.ifc);
    let mut e = rooted(&n, 0);
    e.extend([V::List(vec![]), v]);
    let x = g.apply(
        x,
        &mut e,
        &with::<RelDefinesByProperties>(
            root_sets(),
            &[
                skadd!(relate_obj, 4, Wall, wall),
                skadd!(relate_obj, 4, Storey, storey),
                skadd!(relate_obj, 4, Window, window),
                skadd!(relate_obj, 4, Space, space),
            ],
        ),
    );
    (x, e)
}
fn by_type(g: &mut G) -> (RelDefinesByType, E) {
    let n = g.txt();
    let (p, v) = g.arg::<WallType>("WallType", wall_type);
    let x = RelDefinesByType::new(n.clone(), p, &mut g.ifc);
    let mut e = rooted(&n, 0);
    e.extend([V::List(vec![]), v]);
    let x = g.apply(
        x,
        &mut e,
        &with::<RelDefinesByType>(root_sets(), &[skadd!(relate_obj, 4, Wall, wall), skadd!(relate_obj, 4, Slab, slab), skadd!(relate_obj, 4, Space, space)]),
    );
    (x, e)
}
fn fills(g: &mut G) -> (RelFillsElement, E) {
    let n = g.txt();
    let (o, ov) = g.arg::<OpeningElement>("OpeningElement", opening);
    macro_rules! new {
        ($k:ident $f:path) => {{
            let (m, v) = g.arg::<$k>(stringify!($k), $f);
            (RelFillsElement::new(n.clone(), o, m, &mut g.ifc), v)
        }};
    }
    let (x, v) = match g.r.below(6) {
        0 => new!(Building building),
        1 => new!(OpeningElement opening),
        2 => new!(Slab slab),
        3 => new!(Wall wall),
        4 => new!(Door door),
        _ => new!(Window window),
    };
    let mut e = rooted(&n, 0);
    e.extend([ov, v]);
    let x = g.apply(x, &mut e, &root_sets());
    (x, e)
}
fn voids(g: &mut G) -> (RelVoidsElement, E) {
    let n = g.txt();
    let (o, ov) = g.arg::<OpeningElement>("OpeningElement", opening);
    macro_rules! new {
        ($k:ident $f:path) => {{
            let (m, v) = g.arg::<$k>(stringify!($k), $f);
            (RelVoidsElement::new(n.clone(), m, o, &mut g.ifc), v)
        }};
    }
    let (x, v) = match g.r.below(5) {
        0 => new!(Building building),
        1 => new!(OpeningElement opening),
        2 => new!(Slab slab),
        3 => new!(Window window),
        _ => new!(Wall wall),
    };
    let mut e = rooted(&n, 0);
    e.extend([v, ov]);
    let x = g.apply(x, &mut e, &root_sets());
    (x, e)
}

type Maker = fn(&mut G);

macro_rules! makers {
    ($($k:ident $f:ident;)*) => {
        pub const MAKERS: &[(&str, Maker)] = &[$((stringify!($k), |g| {
            let (t, e) = $f(g);
            g.store(stringify!($k), t, e);
        })),*];
    };
}
makers! {
    Material material;
    MaterialConstituent constituent;
    MaterialConstituentSet constituent_set;
    MaterialLayer layer;
    MaterialLayerSet layer_set;
    MaterialLayerSetUsage layer_set_usage;
    Organization organization;
    Person person;
    PersonAndOrganization person_org;
    Application application;
    OwnerHistory owner_history;
    Point2D point2;
    Point3D point3;
    Direction2D direction2;
    Direction3D direction3;
    Axis2D axis2;
    Axis3D axis3;
    PointList2D list2;
    PointList3D list3;
    IndexedPolyCurve indexed;
    PolyLine polyline;
    ArbitraryClosedProfileDef arbitrary;
    RectangleProfileDef rectangle;
    ExtrudedAreaSolid solid;
    LocalPlacement local_placement;
    GeometricRepresentationContext context;
    GeometricRepresentationSubContext sub_context;
    ShapeRepresentation shape_repr;
    ProductDefinitionShape shape;
    CartesianTransformationOperator3D transform;
    CartesianTransformationOperator3DnonUniform transform_non;
    MappedItem mapped_item;
    RepresentationMap repr_map;
    SiUnit si_unit;
    UnitAssigment units;
    PropertySingleValue single_value;
    PropertySet property_set;
    Project project;
    Site site;
    Building building;
    Storey storey;
    Space space;
    Wall wall;
    Slab slab;
    Roof roof;
    OpeningElement opening;
    ShadingDevice shading;
    Door door;
    Window window;
    WallType wall_type;
    SlabType slab_type;
    RoofType roof_type;
    ShadingDeviceType shading_type;
    SpaceType space_type;
    DoorType door_type;
    WindowType window_type;
    RelAggregates aggregates;
    RelAssociatesMaterial associates;
    RelContainedInSpatialStructure contained;
    RelDeclares declares;
    RelDefinesByProperties by_properties;
    RelDefinesByType by_type;
    RelFillsElement fills;
    RelVoidsElement voids;
}

/// the actors every case starts from, since they have no constructor
const BASE: &str = "#2= IFCACTORROLE(.ARCHITECT.,$,$);
#3= IFCACTORROLE(.OWNER.,$,'d');
#5= IFCTELECOMADDRESS($,$,$,('1','2'),$,$,$,$);
#8= IFCPOSTALADDRESS($,$,$,$,('Street 1'),$,'Town',$,$,'Country');
#9= IFCPOSTALADDRESS($,'x',$,$,$,$,$,$,$,$);
";

/// a model made by the construction API: one instance of the maker's kind and n more
pub fn model<'a>(r: &'a mut Rng, mode: Mode, first: usize, n: usize) -> Result<G<'a>, String> {
    let ifc = load(&gen::wrap(BASE))??;
    let mut pool: HashMap<&'static str, Vec<u64>> = HashMap::new();
    pool.insert("ActorRole", vec![2, 3]);
    pool.insert("TelecomAddress", vec![5]);
    pool.insert("PostalAddress", vec![8, 9]);
    let known = HashSet::from([2, 3, 5, 8, 9]);
    let mut g = G { ifc, r, mode, pool, known, made: vec![], hidden: 0, depth: 0, texts: 0, numbers: 0, setters: 0 };
    for k in 0..=n {
        let i = if k == 0 { first % MAKERS.len() } else { g.r.below(MAKERS.len()) };
        // a panic of the library has to be told from one of the harness
        guard(|| MAKERS[i].1(&mut g))?;
    }
    Ok(g)
}

/// does the saved or loaded value fit what was asked for?
pub fn fits(known: &HashSet<u64>, get: &dyn Fn(u64) -> Option<(String, Vec<V>)>, exp: &V, got: &V) -> Result<(), String> {
    if matches!(got, V::Any) {
        return Ok(()); // not readable through the API
    }
    match exp {
        V::Typed(k, args) if k.starts_with("NEW:") => {
            let V::Ref(i) = got else { return Err(format!("{} instead of a reference to a new {}", step::show(got), &k[4..])) };
            if known.contains(i) {
                return Err(format!("#{i}, which is another instance, instead of a new {}", &k[4..]));
            }
            let (kw, a) = get(*i).ok_or_else(|| format!("#{i} does not exist"))?;
            if kw != k[4..] {
                return Err(format!("#{i} is {kw} instead of {}", &k[4..]));
            }
            fit_all(known, get, args, &a).map_err(|e| format!("in #{i}: {e}"))
        }
        V::Typed(k, args) if k == "DIRECTION" => {
            let want: Vec<f64> = args.iter().filter_map(|x| x.f()).collect();
            let have: Vec<f64> = got.list().iter().filter_map(|x| x.f()).collect();
            let len = |v: &[f64]| v.iter().map(|x| x * x).sum::<f64>().sqrt();
            let (a, b) = (len(&want), len(&have));
            let same = want.len() == have.len() && b > 0.0 && want.iter().zip(&have).all(|(x, y)| (x / a - y / b).abs() <= 1e-9);
            if same {
                Ok(())
            } else {
                Err(format!("{} instead of the direction {want:?}", step::show(got)))
            }
        }
        V::List(l) => {
            let m = match got {
                V::List(m) => m,
                _ => return Err(format!("{} instead of a list", step::show(got))),
            };
            if l.len() != m.len() {
                return Err(format!("a list of {} instead of {}", m.len(), l.len()));
            }
            l.iter().zip(m).try_for_each(|(x, y)| fits(known, get, x, y))
        }
        _ if step::sem_eq(exp, got) => Ok(()),
        _ => Err(format!("{} instead of {}", cut(&step::show(got), 200), cut(&step::show(exp), 200))),
    }
}

fn fit_all(known: &HashSet<u64>, get: &dyn Fn(u64) -> Option<(String, Vec<V>)>, exp: &[V], got: &[V]) -> Result<(), String> {
    if exp.len() != got.len() {
        return Err(format!("{} attributes instead of {}", got.len(), exp.len()));
    }
    exp.iter()
        .zip(got)
        .enumerate()
        .try_for_each(|(i, (x, y))| fits(known, get, x, y).map_err(|e| format!("attribute {}: {e}", i + 1)))
}

pub fn valid_guid(s: &str) -> bool {
    s.len() == 22 && s.bytes().all(|b| gen::GUID_ALPHABET.contains(&b)) && s.as_bytes()[0] <= b'3'
}

/// compare the saved text of a model with what was asked for; Ok: number of instances compared
pub fn check_saved(g: &G, saved: &str) -> Result<u64, String> {
    let file = step::parse(saved).map_err(|e| format!("the saved text is not a valid exchange file: {e}"))?;
    let m = file.map();
    let get = |i: u64| m.get(&i).map(|x| (x.kw.clone(), x.args.clone()));
    for d in &g.made {
        let k = schema::kind(d.name);
        let x = m.get(&d.id).ok_or_else(|| format!("#{} {} is not saved", d.id, d.name))?;
        if x.kw != k.kw {
            return Err(format!("#{} is saved as {} instead of {}", d.id, x.kw, k.kw));
        }
        fit_all(&g.known, &get, &d.exp, &x.args).map_err(|e| format!("#{} {}: {e}; saved as {}", d.id, d.name, cut(&x.raw, 400)))?;
        if matches!(d.exp.first(), Some(V::Any)) && !x.args[0].s().is_some_and(valid_guid) {
            return Err(format!("#{} {}: the fresh id {} is not valid", d.id, d.name, step::show(&x.args[0])));
        }
        spelled(k, &x.args).map_err(|e| format!("#{} {}: {e}; saved as {}", d.id, d.name, cut(&x.raw, 400)))?;
    }
    let n = (g.known.len() as u64) + g.hidden;
    if file.insts.len() as u64 != n {
        return Err(format!("{} instances are saved, {n} were made", file.insts.len()));
    }
    Ok(g.made.len() as u64)
}

/// reals are written with a decimal point, integers without
pub fn spelled(k: &schema::Kind, args: &[V]) -> Result<(), String> {
    fn go(t: &schema::Ty, v: &V) -> Result<(), String> {
        use schema::Ty;
        match (t, v) {
            (Ty::Real, V::Num(n)) if !step::is_real(n) => Err(format!("{n} is not the spelling of a real number")),
            (Ty::Int | Ty::SmallInt | Ty::Time, V::Num(n)) if step::is_real(n) => Err(format!("{n} is not the spelling of an integer")),
            (Ty::Vec2 | Ty::Vec3, V::List(l)) => l.iter().try_for_each(|x| go(&Ty::Real, x)),
            (Ty::List(t), V::List(l)) => l.iter().try_for_each(|x| go(t, x)),
            (Ty::Value, V::Typed(k, a)) if k.ends_with("REAL") || k.ends_with("MEASURE") => go(&Ty::Real, &a[0]),
            _ => Ok(()),
        }
    }
    k.attrs.iter().zip(args).try_for_each(|(a, v)| go(&a.ty, v))
}

/// the same for the reloaded model, read through its typed form
pub fn check_loaded(g: &G, ifc: &IFC) -> Result<u64, String> {
    let get = |i: u64| {
        let t = ifc.data.try_get_untyped(Id(i as usize)).ok()?;
        let (n, v) = typed::typed(t)?;
        Some((schema::kind(n).kw.to_string(), v))
    };
    let mut n = 0;
    for d in &g.made {
        let t = ifc.data.try_get_untyped(Id(d.id as usize)).map_err(|_| format!("#{} is lost", d.id))?;
        let Some((name, v)) = typed::typed(t) else {
            return Err(format!("#{} {} is opaque after loading", d.id, d.name));
        };
        if name != d.name {
            return Err(format!("#{} is {name} instead of {} after loading", d.id, d.name));
        }
        fit_all(&g.known, &get, &d.exp, &v).map_err(|e| format!("#{} {} reads after loading: {e}", d.id, d.name))?;
        n += 1;
    }
    Ok(n)
}

pub fn saved_model(cx: &mut Cx, mode: Mode, n: usize) -> Option<String> {
    let first = cx.r.below(MAKERS.len());
    let mut r = Rng::new(cx.r.u64());
    match model(&mut r, mode, first, n) {
        Ok(g) => match save(&g.ifc) {
            Ok(s) => return Some(s),
            Err(p) => cx.fail(format!("saving a model of the construction API: {p}"), ""),
        },
        Err(p) => {
            assert!(!p.contains("src/ctor.rs"), "{p}");
            cx.fail(format!("making a model by the construction API: {p}"), "")
        }
    }
    None
}

/// P03 for API-made models
pub fn stable_api_model(cx: &mut Cx) {
    let mode = Mode { hostile: cx.r.coin(), quotes: cx.r.coin(), extreme: cx.r.coin() };
    let n = if cx.thorough { 12 } else { 4 };
    if let Some(s) = saved_model(cx, mode, n) {
        if crate::robust::check_stable(cx, &s, "a model made by the construction API") {
            cx.count("models of the construction API saved, reloaded and saved again");
        }
        cx.eval(&s);
    }
}

/// P22 and, with hostile values and reloading, the API part of P09 and P10
pub fn api_values(cx: &mut Cx, mode: Mode, reload: bool, n: usize) {
    let first = cx.case as usize;
    let mut r = Rng::new(cx.r.u64());
    let g = match model(&mut r, mode, first, n) {
        Ok(g) => g,
        Err(p) => {
            assert!(!p.contains("src/ctor.rs"), "{p}");
            return cx.fail(format!("making {}: {p}", MAKERS[first % MAKERS.len()].0), "");
        }
    };
    let s = match save(&g.ifc) {
        Ok(s) => s,
        Err(p) => return cx.fail(format!("saving: {p}"), ""),
    };
    cx.eval(&s);
    cx.sample(|| s.clone());
    match check_saved(&g, &s) {
        Ok(n) => {
            cx.add("instances compared with their constructor and setter arguments", n);
            for d in &g.made {
                cx.count(&format!("made {}", d.name));
            }
            cx.add("setter calls", g.setters);
            cx.add("texts", g.texts);
            cx.add("numbers", g.numbers);
        }
        Err(e) => return cx.fail(e, s),
    }
    if reload && mode.quotes {
        // such instances stay opaque (known finding), but keep their texts
        if crate::robust::check_stable(cx, &s, "a model made by the construction API") {
            cx.add("texts with apostrophes saved and passed on", g.texts);
        }
    } else if reload {
        match load(&s) {
            Err(p) => cx.fail(format!("loading the saved model: {p}"), s),
            Ok(Err(e)) => cx.fail(format!("the saved model is refused: {}", cut(&e, 400)), s),
            Ok(Ok(m)) => match check_loaded(&g, &m) {
                Ok(n) => cx.add("instances read back after loading", n),
                Err(e) => cx.fail(e, s),
            },
        }
    }
}

pub fn run22(cx: &mut Cx) {
    let hostile = cx.r.chance(1, 4);
    let mode = Mode { hostile, quotes: hostile, extreme: cx.r.chance(1, 4) };
    let n = cx.r.below(if cx.thorough { 8 } else { 4 });
    api_values(cx, mode, false, n);
}
