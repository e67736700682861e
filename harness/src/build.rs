//! P13 to P16: random programs over the project builder. A program records what was asked for
//! while it runs; the monitors evaluate the text it built with an independent reader.

use crate::common::*;
use crate::ctor::valid_guid;
use crate::enums::Variants;
use crate::gen::*;
use crate::monitor::*;
use crate::prng::Rng;
use crate::schema::{self, kind_of, Ty};
use crate::step::{self, V};
use crate::typed::{f, ToV};
use bevy_math::{DQuat, DVec2, DVec3};
use ifc_rs::prelude::*;
use std::collections::{BTreeMap, HashMap, HashSet};

// ---------------------------------------------------------------- small geometry

type P3 = [f64; 3];

/// an affine map: three columns and an offset
#[derive(Clone, Copy, Debug)]
struct Map {
    c: [P3; 3],
    o: P3,
}

const ID: Map = Map { c: [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]], o: [0.; 3] };

fn add(a: P3, b: P3) -> P3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn sub(a: P3, b: P3) -> P3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn mul(a: P3, s: f64) -> P3 {
    a.map(|x| x * s)
}
fn dot(a: P3, b: P3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: P3, b: P3) -> P3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn len(a: P3) -> f64 {
    dot(a, a).sqrt()
}
fn unit(a: P3) -> P3 {
    mul(a, 1. / len(a))
}

impl Map {
    fn at(o: P3) -> Map {
        Map { o, ..ID }
    }
    fn dir(&self, p: P3) -> P3 {
        add(add(mul(self.c[0], p[0]), mul(self.c[1], p[1])), mul(self.c[2], p[2]))
    }
    fn pt(&self, p: P3) -> P3 {
        add(self.dir(p), self.o)
    }
    fn then_inner(&self, i: &Map) -> Map {
        Map { c: i.c.map(|c| self.dir(c)), o: self.pt(i.o) }
    }
    /// inverse of a map with orthonormal columns
    fn inv(&self) -> Map {
        let c = [0, 1, 2].map(|j| [self.c[0][j], self.c[1][j], self.c[2][j]]);
        let m = Map { c, o: [0.; 3] };
        Map { o: mul(m.dir(self.o), -1.), ..m }
    }
}

/// a rotation around an axis
fn turn(axis: P3, angle: f64) -> Map {
    let k = unit(axis);
    let (s, co) = (angle.sin(), angle.cos());
    let c = ID.c.map(|v| add(add(mul(v, co), mul(cross(k, v), s)), mul(k, dot(k, v) * (1. - co))));
    Map { c, o: [0.; 3] }
}

/// one solid or curve: points, and the sweep of a solid
#[derive(Clone, Debug)]
struct Piece {
    points: Vec<P3>,
    sweep: Option<P3>,
}

impl Piece {
    fn by(&self, m: &Map) -> Piece {
        Piece { points: self.points.iter().map(|p| m.pt(*p)).collect(), sweep: self.sweep.map(|s| m.dir(s)) }
    }
    fn size(&self) -> f64 {
        self.points.iter().chain(&self.sweep).flatten().fold(1., |a, x| f64::max(a, x.abs()))
    }
    fn near(&self, o: &Piece, tol: f64) -> bool {
        let n = |a: &P3, b: &P3| a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol);
        self.points.len() == o.points.len()
            && self.points.iter().zip(&o.points).all(|(a, b)| n(a, b))
            && match (&self.sweep, &o.sweep) {
                (None, None) => true,
                (Some(a), Some(b)) => n(a, b),
                _ => false,
            }
    }
}

// ---------------------------------------------------------------- what a program asked for

#[derive(Clone, Debug)]
struct Solid {
    outline: Vec<P3>,
    dir: P3,
    depth: f64,
}

#[derive(Clone, Debug)]
struct Node {
    kind: &'static str,
    /// None: the opening of a window, which nobody named
    name: Option<String>,
    parent: Option<usize>,
    off: P3,
    shape: Option<Solid>,
    ty: Option<u64>,
    mat: Option<u64>,
    id: Option<u64>,
}

#[derive(Clone, Debug)]
struct TypeRec {
    kind: &'static str,
    id: u64,
    name: String,
    words: Vec<V>,
    mat: Option<u64>,
}

#[derive(Clone, Debug)]
struct Pset {
    id: Option<u64>,
    name: String,
    props: Vec<(String, V)>,
    /// nodes and further instances it was given to
    nodes: Vec<usize>,
    others: Vec<u64>,
}

#[derive(Clone, Debug)]
struct Move {
    node: usize,
    by: Map,
    attached: bool,
}

#[derive(Clone, Debug, Default)]
struct Model {
    nodes: Vec<Node>,
    types: Vec<TypeRec>,
    psets: Vec<Pset>,
    moves: Vec<Move>,
    /// material layers with thickness, material name, layer name, ventilated
    layers: BTreeMap<u64, (f64, String, Option<String>, bool)>,
    sets: BTreeMap<u64, Vec<u64>>,
    usages: BTreeMap<u64, (u64, V, V, f64)>,
    constituents: BTreeMap<u64, (String, String)>,
    csets: BTreeMap<u64, Vec<u64>>,
    elevations: Vec<(usize, f64)>,
    project: String,
    app: [String; 4],
    owner: [String; 2],
    /// attributes of the developer and of the owner
    developer: Vec<V>,
    person: Vec<V>,
}

#[derive(Clone, Copy)]
pub struct How {
    /// names with quotes and other special letters
    hostile: bool,
    /// shapes without extent
    degenerate: bool,
    /// programs may transform
    moves: bool,
    /// transform calls are made (or only drawn)
    apply: bool,
    big: bool,
}

struct Prog {
    r: Rng,
    how: How,
    m: Model,
    n: usize,
    names: Vec<String>,
    /// names which only one product of a kind may have: it is found by it
    taken: HashSet<(&'static str, String)>,
}

fn idn<T: IfcType>(i: TypedId<T>) -> u64 {
    i.id().0 as u64
}
fn tid<T: IfcType>(i: u64) -> TypedId<T> {
    TypedId::new(Id(i as usize))
}
fn opt(s: &Option<String>) -> V {
    s.as_ref().map_or(V::Null, |s| V::Str(s.clone()))
}
fn d3(p: P3) -> DVec3 {
    DVec3::new(p[0], p[1], p[2])
}

impl Prog {
    /// a name which may have been given before
    fn name(&mut self) -> String {
        if !self.names.is_empty() && self.r.chance(1, 4) {
            return self.r.pick(&self.names).clone();
        }
        self.n += 1;
        let t = text(&mut self.r, self.how.hostile);
        let q = if self.how.hostile && self.r.chance(1, 6) { "'" } else { "" };
        let name = match self.r.below(12) {
            // names an implementation could take for none
            0 => self.r.pick(&["", " ", "$", "*", "0", "#1", "null", "-", "N", "(", ";"]).to_string(),
            1 => t,
            2 => format!(" {t} {} ", self.n),
            _ => format!("N{} {q}{t}{q}", self.n),
        };
        self.names.push(name.clone());
        name
    }
    /// a name no other of its kind has
    fn fresh(&mut self, kind: &'static str) -> String {
        loop {
            let n = self.name();
            if self.taken.insert((kind, n.clone())) {
                return n;
            }
        }
    }
    /// a number of properties
    fn many(&mut self) -> usize {
        match self.r.below(40) {
            0 => 10 + self.r.below(120),
            1 => 4 + self.r.below(12),
            _ => self.r.below(4),
        }
    }
    /// a coordinate
    fn num(&mut self) -> f64 {
        match self.r.below(10) {
            0 => 0.,
            1 => self.r.range(-5, 5) as f64,
            2 => self.r.range(-1_000_000, 1_000_000) as f64 / 7.,
            3 => self.r.range(-1000, 1000) as f64 * 1e-5,
            4 => -0.,
            _ => self.r.range(-400, 400) as f64 / 16.,
        }
    }
    /// a size
    fn size(&mut self) -> f64 {
        match self.r.below(8) {
            0 => 1. + self.r.below(5) as f64,
            1 => self.r.range(1, 1_000_000) as f64 / 7.,
            2 => self.r.range(1, 1000) as f64 * 1e-5,
            3 if self.how.degenerate => 0.,
            4 if self.r.chance(1, 3) => -(self.r.range(1, 400) as f64 / 16.),
            _ => self.r.range(1, 400) as f64 / 16.,
        }
    }
    fn vec(&mut self) -> P3 {
        if self.r.chance(1, 8) {
            return [0.; 3];
        }
        [self.num(), self.num(), self.num()]
    }
    fn dir(&mut self) -> P3 {
        loop {
            let v = match self.r.below(4) {
                0 => *self.r.pick(&[[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [0., 0., -1.], [0., 2., 0.], [0., 0., 5.]]),
                _ => [0; 3].map(|_| self.r.range(-100, 100) as f64 / 16.),
            };
            // a vector without length is no direction
            if len(v) > 0.1 {
                return v;
            }
        }
    }
    fn outline(&mut self) -> Vec<P3> {
        let n = if self.how.degenerate && self.r.chance(1, 6) { self.r.below(3) } else if self.r.chance(1, 80) { 9 + self.r.below(120) } else { 3 + self.r.below(6) };
        (0..n).map(|_| [self.num(), self.num(), 0.]).collect()
    }
    fn outline3(&mut self) -> Vec<P3> {
        let n = if self.how.degenerate && self.r.chance(1, 6) { self.r.below(3) } else if self.r.chance(1, 80) { 9 + self.r.below(120) } else { 3 + self.r.below(6) };
        (0..n).map(|_| [self.num(), self.num(), self.num()]).collect()
    }
    fn node(&mut self, kind: &'static str, name: Option<&str>, parent: Option<usize>, off: P3, shape: Option<Solid>) -> usize {
        self.m.nodes.push(Node { kind, name: name.map(|n| n.to_string()), parent, off, shape, ty: None, mat: None, id: None });
        self.m.nodes.len() - 1
    }
    fn thickness(&self, usage: u64) -> f64 {
        self.m.sets[&self.m.usages[&usage].0].iter().map(|l| self.m.layers[l].0).sum()
    }
    fn value(&mut self) -> (IfcValue, V) {
        let typed = |k: &str, v: V| V::Typed(k.into(), vec![v]);
        match self.r.below(5) {
            0 => {
                let b = self.r.coin();
                (IfcValue::Bool(BoolValue(b.into())), typed("IFCBOOLEAN", V::Enum(if b { "T" } else { "F" }.into())))
            }
            1 => {
                let t = text(&mut self.r, self.how.hostile);
                (IfcValue::Label(LabelValue(t.as_str().into())), typed("IFCLABEL", V::Str(t)))
            }
            2 => {
                let t = text(&mut self.r, self.how.hostile);
                (IfcValue::Identifier(IdentifierValue(t.as_str().into())), typed("IFCIDENTIFIER", V::Str(t)))
            }
            3 => {
                let x = self.num();
                (IfcValue::Real(x.into()), typed("IFCREAL", f(x)))
            }
            _ => {
                let x = self.num();
                (IfcValue::ThermalTransmittance(x.into()), typed("IFCTHERMALTRANSMITTANCEMEASURE", f(x)))
            }
        }
    }
    /// a random transform and its map
    fn transform(&mut self) -> (TransformParameter, Map) {
        let mut t = TransformParameter::default();
        let mut m = ID;
        if self.r.chance(4, 5) {
            let axis = loop {
                let a = [0; 3].map(|_| self.r.range(-8, 8) as f64);
                if len(a) > 0. {
                    break a;
                }
            };
            let axis = if self.r.coin() { axis } else { *self.r.pick(&[[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]) };
            let angle = match self.r.below(3) {
                0 => self.r.range(-4, 4) as f64 * std::f64::consts::FRAC_PI_4,
                _ => (self.r.unit() - 0.5) * 6.28,
            };
            m = turn(axis, angle);
            t = if self.r.coin() {
                t.rotation(DQuat::from_axis_angle(d3(unit(axis)), angle))
            } else {
                // a direction has any length
                let k = [0; 3].map(|_| if self.r.coin() { 1. } else { *self.r.pick(&[2., 0.5, 1e3, 1e9, 1e-2, 1e-4, 1e-6, 1e-9, 1e-12, 1e-30, 0.1]) });
                t.y_rotation(d3(mul(m.c[1], k[1]))).x_rotation(d3(mul(m.c[0], k[0]))).z_rotation(d3(mul(m.c[2], k[2])))
            };
        }
        if self.r.chance(4, 5) {
            m.o = self.vec();
            t = t.translation(d3(m.o));
        }
        (t, m)
    }

    /// an owner with its attributes
    fn person(&mut self, given: &str) -> (Person, Vec<V>) {
        let mut p = Person::empty().given_name(given);
        let mut a = vec![V::Null; 8];
        a[2] = V::Str(given.to_string());
        for i in [0, 1] {
            if self.r.chance(1, 4) {
                let n = self.name();
                p = if i == 0 { p.id(n.as_str()) } else { p.family_name(n.as_str()) };
                a[i] = V::Str(n);
            }
        }
        for i in 3..6 {
            if self.r.chance(1, 4) {
                let most = if self.r.chance(1, 20) { 20 } else { 3 };
                let l: Vec<String> = (0..1 + self.r.below(most)).map(|_| self.name()).collect();
                for n in &l {
                    p = match i {
                        3 => p.add_middle_name(n.as_str()),
                        4 => p.add_prefix_title(n.as_str()),
                        _ => p.add_suffix_title(n.as_str()),
                    };
                }
                a[i] = V::List(l.into_iter().map(V::Str).collect());
            }
        }
        (p, a)
    }

    fn project(&mut self) -> String {
        let app = [0; 4].map(|_| self.name());
        let owner = [0; 2].map(|_| self.name());
        let project = self.name();
        let (id, about) = [0; 2].map(|_| self.r.chance(1, 3).then(|| self.name())).into();
        self.m.developer = vec![opt(&id), V::Str(app[0].clone()), opt(&about), V::Null, V::Null];
        let (person, values) = self.person(&owner[0]);
        self.m.person = values;
        let mut b = IfcProjectBuilder::new(
            ApplicationInfo { developer: Organization::new(id.as_deref(), app[0].as_str(), about.as_deref()), version: &app[1], name: &app[2], short_name: &app[3] },
            OwnerInfo { owner: person, organization_name: &owner[1] },
            &project,
        );
        (self.m.app, self.m.owner, self.m.project) = (app, owner, project);
        let max = if self.how.big { 3 } else { 2 };
        // now and then many places, or many things in a place
        let (wide, busy) = (self.r.chance(1, 200), self.r.chance(1, 200));
        let which = self.r.below(3);
        let limit = |i: usize| if wide && which == i { 30 } else { max };
        for _ in 0..if self.r.chance(1, 12) { 0 } else { 1 + self.r.below(limit(0)) } {
            let (n, p) = (self.fresh("Site"), self.vec());
            let site = self.node("Site", Some(&n), None, p, None);
            let mut s = b.new_site(&n, d3(p));
            for _ in 0..self.r.below(limit(1) + 1) {
                let (n, p) = (self.fresh("Building"), self.vec());
                let building = self.node("Building", Some(&n), Some(site), p, None);
                let mut bb = s.new_building(&n, d3(p));
                for _ in 0..self.r.below(limit(2) + 1) {
                    let n = self.fresh("Storey");
                    let e = self.num();
                    let storey = self.node("Storey", Some(&n), Some(building), [0., 0., e], None);
                    self.m.elevations.push((storey, e));
                    let mut st = bb.new_storey(&n, e);
                    let steps = self.r.below(if busy { 200 } else if wide { 3 } else if self.how.big { 24 } else { 14 });
                    for _ in 0..steps {
                        self.step(&mut st, storey);
                    }
                    if self.r.coin() {
                        drop(st);
                    }
                }
            }
        }
        b.build()
    }

    fn layer(&mut self, st: &mut IfcStoreyBuilder) -> u64 {
        let (mn, ln) = (self.name(), self.name());
        let t = self.size();
        let v = self.r.coin();
        let mut l = MaterialLayer::new(t, v);
        let named = self.r.coin();
        if named {
            l = l.name(ln.as_str());
        }
        let id = idn(st.material_layer(&mn, l));
        self.m.layers.insert(id, (t, mn, named.then_some(ln), v));
        id
    }
    fn layer_set(&mut self, st: &mut IfcStoreyBuilder) -> u64 {
        let pool: Vec<u64> = self.m.sets.keys().copied().collect();
        if !pool.is_empty() && self.r.chance(2, 3) {
            return *self.r.pick(&pool);
        }
        let n = if self.how.degenerate && self.r.chance(1, 8) { 0 } else if self.r.chance(1, 60) { 5 + self.r.below(30) } else { 1 + self.r.below(4) };
        let mut v = vec![];
        for _ in 0..n {
            let pool: Vec<u64> = self.m.layers.keys().copied().collect();
            v.push(if !pool.is_empty() && self.r.coin() { *self.r.pick(&pool) } else { self.layer(st) });
        }
        let id = idn(st.material_layer_set(v.iter().map(|i| tid::<MaterialLayer>(*i))));
        self.m.sets.insert(id, v);
        id
    }
    fn usage(&mut self, st: &mut IfcStoreyBuilder) -> u64 {
        let pool: Vec<u64> = self.m.usages.keys().copied().collect();
        if !pool.is_empty() && self.r.chance(2, 3) {
            return *self.r.pick(&pool);
        }
        let s = self.layer_set(st);
        let d = one::<LayerSetDirectionEnum>(&mut self.r);
        let w = one::<DirectionSenseEnum>(&mut self.r);
        let off = self.num();
        let e = (d.tv(), w.tv());
        let id = idn(st.material_layer_set_usage(tid(s), d, w, off));
        self.m.usages.insert(id, (s, e.0, e.1, off));
        id
    }
    fn cset(&mut self, st: &mut IfcStoreyBuilder) -> u64 {
        let pool: Vec<u64> = self.m.csets.keys().copied().collect();
        if !pool.is_empty() && self.r.chance(2, 3) {
            return *self.r.pick(&pool);
        }
        let mut v = vec![];
        for _ in 0..if self.r.chance(1, 60) { 4 + self.r.below(30) } else { 1 + self.r.below(3) } {
            let pool: Vec<u64> = self.m.constituents.keys().copied().collect();
            if !pool.is_empty() && self.r.coin() {
                v.push(*self.r.pick(&pool));
                continue;
            }
            let (a, b) = (self.name(), self.name());
            let id = idn(st.material_constituent(&a, &b));
            self.m.constituents.insert(id, (a, b));
            v.push(id);
        }
        let id = idn(st.material_constituent_set(v.iter().map(|i| tid::<MaterialConstituent>(*i))));
        self.m.csets.insert(id, v);
        id
    }
    fn ty(&mut self, st: &mut IfcStoreyBuilder, kind: &'static str) -> u64 {
        let pool: Vec<u64> = self.m.types.iter().filter(|t| t.kind == kind).map(|t| t.id).collect();
        if !pool.is_empty() && self.r.chance(2, 3) {
            return *self.r.pick(&pool);
        }
        let name = self.name();
        let mut mat = None;
        let mut words = vec![];
        macro_rules! with_material {
            ($f:ident, $e:ty) => {{
                let s = self.layer_set(st);
                mat = Some(s);
                let e = one::<$e>(&mut self.r);
                words.push(e.tv());
                idn(st.$f(tid(s), &name, e))
            }};
        }
        let id = match kind {
            "WallType" => with_material!(wall_type, WallTypeEnum),
            "SlabType" => with_material!(slab_type, SlabTypeEnum),
            "RoofType" => with_material!(roof_type, RoofTypeEnum),
            "ShadingDeviceType" => with_material!(shading_device_type, ShadingDeviceTypeEnum),
            "WindowType" => {
                let (e, p) = (one::<WindowTypeEnum>(&mut self.r), one::<WindowPartitioningTypeEnum>(&mut self.r));
                words.extend([e.tv(), p.tv()]);
                idn(st.window_type(&name, e, p))
            }
            _ => {
                let e = one::<SpaceTypeEnum>(&mut self.r);
                words.push(e.tv());
                idn(st.space_type(&name, e))
            }
        };
        self.m.types.push(TypeRec { kind, id, name, words, mat });
        id
    }
    fn horizontal(outline: &[P3], depth: f64) -> Solid {
        Solid { outline: outline.to_vec(), dir: [0., 0., 1.], depth }
    }
    fn rect(x: f64, y: f64, depth: f64, dir: P3) -> Solid {
        Solid { outline: vec![[0., 0., 0.], [x, 0., 0.], [x, y, 0.], [0., y, 0.]], dir, depth }
    }
    fn set(&mut self, n: usize, ty: u64, mat: Option<u64>, id: Option<u64>) {
        (self.m.nodes[n].ty, self.m.nodes[n].mat, self.m.nodes[n].id) = (Some(ty), mat, id);
    }

    fn step(&mut self, st: &mut IfcStoreyBuilder, storey: usize) {
        match self.r.below(16) {
            0..=4 => self.wall(st, storey),
            5..=7 => self.slab(st, storey),
            8 => {
                let (u, t, n, p, o) = (self.usage(st), self.ty(st, "RoofType"), self.name(), self.vec(), self.outline());
                let d = self.thickness(u);
                let k = self.node("Roof", Some(&n), Some(storey), p, Some(Self::horizontal(&o, d)));
                let id = st.horizontal_arbitrary_roof(
                    tid(u),
                    tid(t),
                    &n,
                    HorizontalArbitraryRoofParameter { coords: flat(&o), placement: d3(p) },
                );
                self.set(k, t, Some(u), Some(idn(id)));
            }
            9 => {
                let (u, t, n, p) = (self.usage(st), self.ty(st, "ShadingDeviceType"), self.name(), self.vec());
                let (l, h) = (self.size(), self.size());
                let d = self.thickness(u);
                // as given: a plate of the wall thickness in height, standing by its height
                let k = self.node("ShadingDevice", Some(&n), Some(storey), p, Some(Self::rect(l, h, d, [0., 0., 1.])));
                let id = st.vertical_shading_device(
                    tid(u),
                    tid(t),
                    &n,
                    VerticalShadingDeviceParameter { height: h, length: l, placement: d3(p) },
                );
                self.set(k, t, Some(u), Some(idn(id)));
            }
            10 => {
                let (t, n, p, o, h) = (self.ty(st, "SpaceType"), self.name(), self.vec(), self.outline(), self.size());
                let k = self.node("Space", Some(&n), Some(storey), p, Some(Self::horizontal(&o, h)));
                let id = st.space(tid(t), &n, SpaceParameter { coords: flat(&o), height: h, placement: d3(p) });
                self.set(k, t, None, Some(idn(id)));
            }
            11 => {
                // things that may stay unused
                match self.r.below(5) {
                    0 => {
                        let kind = *self.r.pick(&["WallType", "SlabType", "RoofType", "ShadingDeviceType", "WindowType", "SpaceType"]);
                        self.ty(st, kind);
                    }
                    1 => drop(self.cset(st)),
                    2 => drop(self.layer(st)),
                    3 => drop(self.usage(st)),
                    _ => {
                        let n = self.name();
                        let _ = st.material(&n);
                    }
                }
            }
            12 | 13 => {
                // properties
                if self.r.coin() || !self.m.psets.iter().any(|p| p.id.is_some()) {
                    let n = self.name();
                    let mut b = st.add_properties(&n);
                    let mut props = vec![];
                    for _ in 0..self.many() {
                        let pn = self.name();
                        let (v, e) = self.value();
                        let _ = b.single_property(&pn, v, None);
                        props.push((pn, e));
                    }
                    let id = Some(idn(b.finish()));
                    self.m.psets.push(Pset { id, name: n, props, nodes: vec![], others: vec![] });
                }
                let c: Vec<usize> = (0..self.m.psets.len()).filter(|i| self.m.psets[*i].id.is_some()).collect();
                let k = *self.r.pick(&c);
                let p = tid::<PropertySet>(self.m.psets[k].id.unwrap());
                for _ in 0..self.r.below(3) {
                    let known: Vec<usize> = (0..self.m.nodes.len()).filter(|i| self.m.nodes[*i].id.is_some()).collect();
                    if !known.is_empty() && self.r.chance(4, 5) {
                        let n = *self.r.pick(&known);
                        let id = self.m.nodes[n].id.unwrap();
                        match self.m.nodes[n].kind {
                            "Wall" => st.relate_properties_object(p, tid::<Wall>(id)),
                            "Slab" => st.relate_properties_object(p, tid::<Slab>(id)),
                            "Roof" => st.relate_properties_object(p, tid::<Roof>(id)),
                            "Window" => st.relate_properties_object(p, tid::<Window>(id)),
                            "Space" => st.relate_properties_object(p, tid::<Space>(id)),
                            "OpeningElement" => st.relate_properties_object(p, tid::<OpeningElement>(id)),
                            _ => st.relate_properties_object(p, tid::<ShadingDevice>(id)),
                        }
                        self.m.psets[k].nodes.push(n);
                    } else if let Some(t) = self.m.types.last().map(|t| t.id) {
                        st.relate_properties_object(p, tid::<WallType>(t));
                        self.m.psets[k].others.push(t);
                    }
                }
            }
            _ => {
                // a transform of one product
                let known: Vec<usize> =
                    (0..self.m.nodes.len()).filter(|i| self.m.nodes[*i].id.is_some() && self.m.nodes[*i].kind != "Space").collect();
                if !self.how.moves || known.is_empty() {
                    return;
                }
                let n = *self.r.pick(&known);
                let (t, by) = self.transform();
                let id = self.m.nodes[n].id.unwrap();
                self.m.moves.push(Move { node: n, by, attached: false });
                if !self.how.apply {
                    return;
                }
                match self.m.nodes[n].kind {
                    "Wall" => st.transform(tid::<Wall>(id), &t),
                    "Slab" => st.transform(tid::<Slab>(id), &t),
                    "Roof" => st.transform(tid::<Roof>(id), &t),
                    "Window" => st.transform(tid::<Window>(id), &t),
                    "OpeningElement" => st.transform(tid::<OpeningElement>(id), &t),
                    _ => st.transform(tid::<ShadingDevice>(id), &t),
                }
            }
        }
    }

    /// pairs of a material and a type for the windows of an element
    fn windows(&mut self, st: &mut IfcStoreyBuilder) -> Vec<(u64, u64)> {
        (0..if self.r.chance(1, 30) { 8 } else { 1 + self.r.below(2) }).map(|_| (self.cset(st), self.ty(st, "WindowType"))).collect()
    }

    fn wall(&mut self, st: &mut IfcStoreyBuilder, storey: usize) {
        let (u, t, n, p) = (self.usage(st), self.ty(st, "WallType"), self.fresh("Wall"), self.vec());
        let wins = self.windows(st);
        let d = self.thickness(u);
        let which = self.r.below(3);
        let solid;
        let mut w = match which {
            0 => {
                let (l, h) = (self.size(), self.size());
                solid = Self::rect(l, d, h, [0., 0., 1.]);
                st.vertical_wall(tid(u), tid(t), &n, VerticalWallParameter { height: h, length: l, placement: d3(p) })
            }
            1 => {
                let o = self.outline();
                solid = Solid { outline: o.iter().map(|p| [p[0], 0., p[1]]).collect(), dir: [0., 1., 0.], depth: d };
                st.vertical_arbitrary_wall(tid(u), tid(t), &n, VerticalArbitraryWallParameter { coords: flat(&o), placement: d3(p) })
            }
            _ => {
                let (o, dir) = (self.outline3(), self.dir());
                solid = Solid { outline: o.clone(), dir, depth: d };
                st.arbitrary_wall(
                    tid(u),
                    tid(t),
                    &n,
                    ArbitraryWallParameter { coords: o.into_iter().map(d3).collect(), direction: d3(dir), placement: d3(p) },
                )
            }
        };
        let k = self.node("Wall", Some(&n), Some(storey), p, Some(solid));
        let mut last = None;
        for _ in 0..if self.r.chance(1, 60) { 40 } else { self.r.below(5) } {
            match self.r.below(6) {
                0 => {
                    let (n, p, l, h) = (self.name(), self.vec(), self.size(), self.size());
                    let o = self.node("OpeningElement", Some(&n), Some(k), p, Some(Self::rect(l, d, h, [0., 0., 1.])));
                    let id = w.vertical_opening(&n, OpeningParameter { height: h, length: l, placement: d3(p) });
                    self.m.nodes[o].id = Some(idn(id));
                }
                1 => {
                    let (n, p, l, h, dir) = (self.name(), self.vec(), self.size(), self.size(), self.dir());
                    let o = self.node("OpeningElement", Some(&n), Some(k), p, Some(Self::rect(l, d, h, dir)));
                    let id = w.opening(&n, CustomDirectionOpeningParameter { height: h, length: l, placement: d3(p), direction: d3(dir) });
                    self.m.nodes[o].id = Some(idn(id));
                }
                2 | 3 => {
                    let (c, wt) = *self.r.pick(&wins);
                    let (n, p, l, h, dir) = (self.name(), self.vec(), self.size(), self.size(), self.dir());
                    let o = self.node("OpeningElement", None, Some(k), p, Some(Self::rect(l, d, h, [0., 0., 1.])));
                    let x = self.node("Window", Some(&n), Some(o), [0.; 3], Some(Self::rect(l, d, h, dir)));
                    let id = w.window_with_opening(
                        tid(c),
                        tid(wt),
                        &n,
                        WindowParameter { height: h, width: l, placement: d3(p) },
                        Direction3D::from(d3(dir)),
                    );
                    self.set(x, wt, Some(c), Some(idn(id)));
                }
                4 => {
                    let n = self.fresh("PropertySet");
                    let mut props = vec![];
                    {
                        let mut b = w.add_properties(&n);
                        for _ in 0..self.many() {
                            let pn = self.name();
                            let (v, e) = self.value();
                            let _ = b.single_property(&pn, v, None);
                            props.push((pn, e));
                        }
                    }
                    self.m.psets.push(Pset { id: None, name: n, props, nodes: vec![k], others: vec![] });
                }
                _ if self.how.moves => {
                    let (t, by) = self.transform();
                    last = Some(by);
                    if self.how.apply {
                        w.transform(t);
                    }
                }
                _ => {}
            }
        }
        // the last transform counts
        if let Some(by) = last {
            self.m.moves.push(Move { node: k, by, attached: true });
        }
        let id = if self.r.coin() { Some(idn(w.finish())) } else { None };
        self.set(k, t, Some(u), id);
    }

    fn slab(&mut self, st: &mut IfcStoreyBuilder, storey: usize) {
        let (u, t, n, p) = (self.usage(st), self.ty(st, "SlabType"), self.fresh("Slab"), self.vec());
        let wins = self.windows(st);
        let d = self.thickness(u);
        let solid;
        let mut s = match self.r.below(3) {
            0 => {
                let o = self.outline();
                solid = Self::horizontal(&o, d);
                st.horizontal_arbitrary_slab(tid(u), tid(t), &n, HorizontalArbitrarySlabParameter { coords: flat(&o), placement: d3(p) })
            }
            1 => {
                let (a, b) = loop {
                    let (a, b) = ([self.num(), self.num(), 0.], [self.num(), self.num(), 0.]);
                    if a != b {
                        break (a, b);
                    }
                };
                let h = self.size();
                let up = |p: P3| [p[0], p[1], h];
                solid = Solid { outline: vec![up(a), a, b, up(b)], dir: cross(sub(a, b), [0., 0., 1.]), depth: d };
                let v = |p: P3| DVec2::new(p[0], p[1]);
                st.vertical_slab(tid(u), tid(t), &n, VerticalSlabParameter { start: v(a), end: v(b), height: h, placement: d3(p) })
            }
            _ => {
                let (o, dir) = (self.outline3(), self.dir());
                solid = Solid { outline: o.clone(), dir, depth: d };
                st.arbitrary_slab(
                    tid(u),
                    tid(t),
                    &n,
                    ArbitrarySlabParameter { coords: o.into_iter().map(d3).collect(), direction: d3(dir), placement: d3(p) },
                )
            }
        };
        let dir = solid.dir;
        let k = self.node("Slab", Some(&n), Some(storey), p, Some(solid));
        let mut last = None;
        for _ in 0..if self.r.chance(1, 60) { 40 } else { self.r.below(4) } {
            let what = self.r.below(7);
            let made = (3..6).contains(&what).then(|| *self.r.pick(&wins));
            let n = self.name();
            let (o, w) = match what {
                0 | 3 => {
                    let (p, l, h) = (self.vec(), self.size(), self.size());
                    let shape = Self::rect(l, h, d, dir);
                    let o = self.node("OpeningElement", made.is_none().then_some(&n), Some(k), p, Some(shape.clone()));
                    match made {
                        None => (Some((o, s.rect_opening(&n, OpeningParameter { height: h, length: l, placement: d3(p) }))), None),
                        Some((c, wt)) => {
                            let x = self.node("Window", Some(&n), Some(o), [0.; 3], Some(shape));
                            (None, Some((x, s.window_with_opening(tid(c), tid(wt), &n, WindowParameter { height: h, width: l, placement: d3(p) }))))
                        }
                    }
                }
                1 | 4 => {
                    let q = self.outline();
                    let shape = Self::horizontal(&q, d);
                    let o = self.node("OpeningElement", made.is_none().then_some(&n), Some(k), [0.; 3], Some(shape.clone()));
                    match made {
                        None => (Some((o, s.horizontal_arbitrary_opening(&n, HorizontalArbitraryOpeningParameter { coords: flat(&q) }))), None),
                        Some((c, wt)) => {
                            let x = self.node("Window", Some(&n), Some(o), [0.; 3], Some(shape));
                            let p = HorizontalArbitraryWindowParameter { coords: flat(&q) };
                            (None, Some((x, s.horizontal_arbitrary_window_with_opening(tid(c), tid(wt), &n, p))))
                        }
                    }
                }
                2 | 5 => {
                    let q = self.outline3();
                    let shape = Solid { outline: q.clone(), dir, depth: d };
                    let o = self.node("OpeningElement", made.is_none().then_some(&n), Some(k), [0.; 3], Some(shape.clone()));
                    let coords: Vec<DVec3> = q.into_iter().map(d3).collect();
                    match made {
                        None => (Some((o, s.arbitrary_opening(&n, ArbitraryOpeningParameter { coords }))), None),
                        Some((c, wt)) => {
                            let x = self.node("Window", Some(&n), Some(o), [0.; 3], Some(shape));
                            (None, Some((x, s.arbitrary_window_with_opening(tid(c), tid(wt), &n, ArbitraryWindowParameter { coords }))))
                        }
                    }
                }
                _ if self.how.moves => {
                    let (t, by) = self.transform();
                    last = Some(by);
                    if self.how.apply {
                        s.transform(t);
                    }
                    (None, None)
                }
                _ => (None, None),
            };
            if let Some((o, id)) = o {
                self.m.nodes[o].id = Some(idn(id));
            }
            if let (Some((x, id)), Some((c, wt))) = (w, made) {
                self.set(x, wt, Some(c), Some(idn(id)));
            }
        }
        if let Some(by) = last {
            self.m.moves.push(Move { node: k, by, attached: true });
        }
        let id = if self.r.coin() { Some(idn(s.finish())) } else { None };
        self.set(k, t, Some(u), id);
    }
}

fn flat(o: &[P3]) -> Vec<DVec2> {
    o.iter().map(|p| DVec2::new(p[0], p[1])).collect()
}
fn one<E: Variants>(r: &mut Rng) -> E {
    let mut v = E::all();
    let i = r.below(v.len());
    v.swap_remove(i)
}

// ---------------------------------------------------------------- the built text

struct Built {
    text: String,
    model: Model,
    m: BTreeMap<u64, (String, Vec<V>)>,
    /// node to instance
    at: Vec<u64>,
}

type R<T> = Result<T, String>;

fn run(r: Rng, how: How) -> Result<(String, Model), String> {
    let res = guard(move || {
        let mut p = Prog { r, how, m: Model::default(), n: 0, names: vec![], taken: HashSet::new() };
        let t = p.project();
        (t, p.m)
    });
    if let Err(e) = &res {
        assert!(!e.contains("src/build.rs"), "{e}");
    }
    res.map_err(|e| format!("a builder program: {e}"))
}

const PRODUCTS: [(&str, &str); 10] = [
    ("Site", "IFCSITE"),
    ("Building", "IFCBUILDING"),
    ("Storey", "IFCBUILDINGSTOREY"),
    ("Space", "IFCSPACE"),
    ("Wall", "IFCWALL"),
    ("Slab", "IFCSLAB"),
    ("Roof", "IFCROOF"),
    ("Window", "IFCWINDOW"),
    ("OpeningElement", "IFCOPENINGELEMENT"),
    ("ShadingDevice", "IFCSHADINGDEVICE"),
];

fn kw_of(kind: &str) -> &'static str {
    schema::kind(kind).kw
}

impl Built {
    fn new(text: String, model: Model) -> Result<Built, (String, String)> {
        let f = match step::parse(&text) {
            Ok(f) => f,
            Err(e) => return Err((format!("the built text is not a valid exchange file: {e}"), text)),
        };
        let m: BTreeMap<u64, (String, Vec<V>)> = f.insts.iter().map(|i| (i.id, (i.kw.clone(), i.args.clone()))).collect();
        let mut b = Built { text, model, m, at: vec![] };
        match b.locate() {
            Ok(at) => {
                b.at = at;
                Ok(b)
            }
            Err(e) => Err((e, b.text)),
        }
    }
    fn of(&self, kw: &str) -> Vec<(u64, &Vec<V>)> {
        self.m.iter().filter(|(_, i)| i.0 == kw).map(|(n, i)| (*n, &i.1)).collect()
    }
    fn get(&self, id: u64, kw: &str) -> R<&Vec<V>> {
        match self.m.get(&id) {
            Some((k, a)) if k == kw => Ok(a),
            Some((k, _)) => Err(format!("#{id} is {k}, not {kw}")),
            None => Err(format!("there is no #{id} ({kw})")),
        }
    }
    /// finds every product by its name
    fn locate(&self) -> R<Vec<u64>> {
        let mut at = vec![0; self.model.nodes.len()];
        let mut claimed = HashSet::new();
        for (i, n) in self.model.nodes.iter().enumerate() {
            let (Some(id), Some(name)) = (n.id, &n.name) else { continue };
            let a = self.get(id, kw_of(n.kind)).map_err(|e| format!("the {} {name:?}: {e}", n.kind))?;
            if a[2].s() != Some(name) {
                return Err(format!("the builder returned #{id} for the {} {name:?}, which is named {}", n.kind, step::show(&a[2])));
            }
            at[i] = id;
            claimed.insert(id);
        }
        let mut by: HashMap<(&str, &str), Vec<u64>> = HashMap::new();
        for (_, kw) in PRODUCTS {
            for (id, a) in self.of(kw) {
                if !claimed.contains(&id) {
                    by.entry((kw, a[2].s().unwrap_or(""))).or_default().push(id);
                }
            }
        }
        for (i, n) in self.model.nodes.iter().enumerate() {
            let (None, Some(name)) = (n.id, &n.name) else { continue };
            let kw = kw_of(n.kind);
            match by.get(&(kw, name.as_str())).map(|v| v.as_slice()) {
                Some([id]) => at[i] = *id,
                Some(v) => return Err(format!("{} instances for the one {} {name:?}", v.len(), n.kind)),
                None => return Err(format!("no {kw} is named {name:?}")),
            }
        }
        // openings of windows
        let fills = self.of("IFCRELFILLSELEMENT");
        for (i, n) in self.model.nodes.iter().enumerate() {
            if n.kind != "Window" {
                continue;
            }
            let o: Vec<u64> = fills.iter().filter(|f| f.1[5].r() == Some(at[i])).filter_map(|f| f.1[4].r()).collect();
            let p = n.parent.expect("opening");
            match o[..] {
                [o] => at[p] = o,
                _ => return Err(format!("the window #{} fills the openings {o:?}", at[i])),
            }
        }
        for (kind, kw) in PRODUCTS {
            let (a, b) = (self.of(kw).len(), self.model.nodes.iter().filter(|n| n.kind == kind).count());
            if a != b {
                return Err(format!("{a} instances of {kw} for {b} made"));
            }
        }
        let mut s = at.clone();
        s.sort();
        s.dedup();
        if s.len() != at.len() {
            return Err(format!("two products share an instance: {at:?}"));
        }
        Ok(at)
    }

    // ---- geometry

    fn p3(&self, r: &V) -> R<P3> {
        let id = r.r().ok_or("no point")?;
        let (k, a) = self.m.get(&id).ok_or_else(|| format!("there is no #{id}"))?;
        if k != "IFCCARTESIANPOINT" && k != "IFCDIRECTION" {
            return Err(format!("#{id} {k} is no point or direction"));
        }
        coords(&a[0])
    }
    fn axis(&self, r: &V) -> R<Map> {
        let id = r.r().ok_or("no axis placement")?;
        let (k, a) = self.m.get(&id).ok_or_else(|| format!("there is no #{id}"))?;
        let (z, x) = match k.as_str() {
            "IFCAXIS2PLACEMENT2D" => (&V::Null, &a[1]),
            "IFCAXIS2PLACEMENT3D" => (&a[1], &a[2]),
            _ => return Err(format!("#{id} {k} is no axis placement")),
        };
        let z = if step::is_null(z) { ID.c[2] } else { unit(self.p3(z)?) };
        let x = if step::is_null(x) { ID.c[0] } else { self.p3(x)? };
        let x = unit(sub(x, mul(z, dot(x, z))));
        Ok(Map { c: [x, cross(z, x), z], o: self.p3(&a[0])? })
    }
    fn placement(&self, r: &V) -> R<Map> {
        let id = r.r().ok_or("no placement")?;
        let a = self.get(id, "IFCLOCALPLACEMENT")?;
        let own = self.axis(&a[1])?;
        Ok(if step::is_null(&a[0]) { own } else { self.placement(&a[0])?.then_inner(&own) })
    }
    fn operator(&self, r: &V) -> R<Map> {
        let id = r.r().ok_or("no operator")?;
        let (k, a) = self.m.get(&id).ok_or_else(|| format!("there is no #{id}"))?;
        if !k.starts_with("IFCCARTESIANTRANSFORMATIONOPERATOR3D") {
            return Err(format!("#{id} {k} is no transformation"));
        }
        let get = |v: &V, d: P3| if step::is_null(v) { Ok(d) } else { self.p3(v) };
        let z = unit(get(&a[4], ID.c[2])?);
        let x = get(&a[0], ID.c[0])?;
        let x = unit(sub(x, mul(z, dot(x, z))));
        let y0 = get(&a[1], ID.c[1])?;
        let y = sub(sub(y0, mul(z, dot(y0, z))), mul(x, dot(y0, x)));
        // programs ask for perpendicular axes only: reading them as a matrix gives the same
        let x0 = get(&a[0], ID.c[0])?;
        let off = |a: P3, b: P3| len(sub(unit(a), unit(b))) > 1e-9;
        if off(x0, x) || off(y0, y) {
            return Err(format!("the axes of #{id} are not perpendicular: {x0:?}, {y0:?}, {z:?}"));
        }
        let s1 = a[3].f().unwrap_or(1.);
        let s2 = a.get(5).and_then(|v| v.f()).unwrap_or(s1);
        let s3 = a.get(6).and_then(|v| v.f()).unwrap_or(s1);
        Ok(Map { c: [mul(x, s1), mul(unit(y), s2), mul(z, s3)], o: self.p3(&a[2])? })
    }
    fn curve(&self, r: &V) -> R<Vec<P3>> {
        let id = r.r().ok_or("no curve")?;
        let (k, a) = self.m.get(&id).ok_or_else(|| format!("there is no #{id}"))?;
        match k.as_str() {
            "IFCPOLYLINE" => a[0].list().iter().map(|p| self.p3(p)).collect(),
            "IFCINDEXEDPOLYCURVE" => {
                let l = a[0].r().and_then(|l| self.m.get(&l)).ok_or("no point list")?;
                l.1[0].list().iter().map(coords).collect()
            }
            _ => Err(format!("#{id} {k} is no curve")),
        }
    }
    fn item(&self, id: u64, out: &mut Vec<Piece>, m: &Map, depth: u32) -> R<()> {
        let (k, a) = self.m.get(&id).ok_or_else(|| format!("there is no #{id}"))?;
        match k.as_str() {
            "IFCPOLYLINE" => out.push(Piece { points: self.curve(&V::Ref(id))?, sweep: None }.by(m)),
            "IFCEXTRUDEDAREASOLID" => {
                let pid = a[0].r().ok_or("no profile")?;
                let (pk, p) = self.m.get(&pid).ok_or_else(|| format!("there is no #{pid}"))?;
                let points = match pk.as_str() {
                    "IFCRECTANGLEPROFILEDEF" => {
                        let at = if step::is_null(&p[2]) { ID } else { self.axis(&p[2])? };
                        let (x, y) = (p[3].f().ok_or("no width")? / 2., p[4].f().ok_or("no height")? / 2.);
                        [[-x, -y, 0.], [x, -y, 0.], [x, y, 0.], [-x, y, 0.]].iter().map(|p| at.pt(*p)).collect()
                    }
                    "IFCARBITRARYCLOSEDPROFILEDEF" => self.curve(&p[2])?,
                    _ => return Err(format!("#{pid} {pk} is no profile")),
                };
                let at = if step::is_null(&a[1]) { ID } else { self.axis(&a[1])? };
                let sweep = mul(unit(self.p3(&a[2])?), a[3].f().ok_or("no depth")?);
                out.push(Piece { points, sweep: Some(sweep) }.by(&at).by(m));
            }
            "IFCMAPPEDITEM" if depth < 50 => {
                let map = self.get(a[0].r().ok_or("no map")?, "IFCREPRESENTATIONMAP")?;
                let t = self.operator(&a[1])?.then_inner(&self.axis(&map[0])?);
                self.pieces(map[1].r().ok_or("no mapped shape")?, out, &m.then_inner(&t), depth + 1)?;
            }
            _ => return Err(format!("#{id} {k} is an unexpected item")),
        }
        Ok(())
    }
    fn pieces(&self, repr: u64, out: &mut Vec<Piece>, m: &Map, depth: u32) -> R<()> {
        for i in self.get(repr, "IFCSHAPEREPRESENTATION")?[3].refs() {
            self.item(i, out, m, depth)?;
        }
        Ok(())
    }
    fn shapes(&self, product: u64) -> R<Vec<u64>> {
        let a = &self.m[&product].1;
        if step::is_null(&a[6]) {
            return Ok(vec![]);
        }
        Ok(self.get(a[6].r().ok_or("no shape")?, "IFCPRODUCTDEFINITIONSHAPE")?[2].refs())
    }
    /// everything a product shows, in its own coordinates, with what its representation is for
    fn all_pieces(&self, product: u64) -> R<Vec<(String, Piece)>> {
        let mut out = vec![];
        for s in self.shapes(product)? {
            let mut p = vec![];
            self.pieces(s, &mut p, &ID, 0)?;
            let label = step::show(&self.get(s, "IFCSHAPEREPRESENTATION")?[1]);
            out.extend(p.into_iter().map(|p| (label.clone(), p)));
        }
        Ok(out)
    }
    fn world(&self, product: u64) -> R<Map> {
        self.placement(&self.m[&product].1[5])
    }
    fn who(&self, i: usize) -> String {
        let n = &self.model.nodes[i];
        format!("{} #{} {}", n.kind, self.at[i], n.name.as_deref().map_or("(opening of a window)".to_string(), |n| format!("{n:?}")))
    }
}

fn coords(v: &V) -> R<P3> {
    let c: Option<Vec<f64>> = v.list().iter().map(|x| x.f()).collect();
    match c.as_deref() {
        Some([x, y]) => Ok([*x, *y, 0.]),
        Some([x, y, z]) => Ok([*x, *y, *z]),
        _ => Err(format!("{} are no coordinates", step::show(v))),
    }
}

/// builds a program's model; a failure is reported and gives None
fn built(cx: &mut Cx, r: Rng, how: How) -> Option<Built> {
    match run(r, how) {
        Ok((t, m)) => match Built::new(t, m) {
            Ok(b) => Some(b),
            Err((e, t)) => {
                cx.fail(e, t);
                None
            }
        },
        Err(e) => {
            cx.fail(e, "");
            None
        }
    }
}

fn any(cx: &mut Cx) -> How {
    How { hostile: cx.r.coin(), degenerate: cx.r.coin(), moves: true, apply: true, big: cx.thorough || cx.case % 16 < 2 }
}

/// for P03
pub fn stable_built_model(cx: &mut Cx) {
    let how = any(cx);
    match run(Rng::new(cx.r.u64()), how) {
        Ok((t, m)) => {
            if crate::robust::check_stable(cx, &t, "a model of the builder") {
                cx.count("builder-made models reloaded and saved again");
            }
            cx.eval(&format!("{m:?}"));
        }
        Err(e) => cx.fail(e, ""),
    }
}

/// for P11
pub fn any_built_text(cx: &mut Cx) -> Option<String> {
    let how = any(cx);
    match run(Rng::new(cx.r.u64()), how) {
        Ok((t, _)) => Some(t),
        Err(e) => {
            cx.fail(e, "");
            None
        }
    }
}

// ---------------------------------------------------------------- P13

fn consistent(b: &Built, counts: &mut BTreeMap<&'static str, u64>) -> R<()> {
    let mut n = |k: &'static str, c: usize| *counts.entry(k).or_default() += c as u64;
    // references
    fn refs(b: &Built, ty: &Ty, v: &V, me: &str) -> R<usize> {
        match (ty, v) {
            (Ty::List(t), V::List(l)) => l.iter().map(|x| refs(b, t, x, me)).sum(),
            (Ty::Ref(ks), V::Ref(id)) => {
                let (k, a) = b.m.get(id).ok_or_else(|| format!("{me} refers to #{id}, which does not exist"))?;
                match kind_of(k, a) {
                    Some(k) if ks.contains(&k.name) => Ok(1),
                    _ => Err(format!("{me} refers to #{id} {k}, which is not one of {ks:?}")),
                }
            }
            (_, V::Ref(id)) if !b.m.contains_key(id) => Err(format!("{me} refers to #{id}, which does not exist")),
            (_, V::Ref(_)) => Ok(1),
            _ => Ok(0),
        }
    }
    let mut guids = HashMap::new();
    for (id, (kw, a)) in &b.m {
        let me = format!("#{id} {kw}");
        let k = kind_of(kw, a).ok_or_else(|| format!("{me} is of no supported kind"))?;
        crate::ctor::spelled(k, a).map_err(|e| format!("{me}: {e}"))?;
        for (t, v) in k.attrs.iter().zip(a) {
            let c = refs(b, &t.ty, v, &me)?;
            n("references in place", c);
            if t.ty == Ty::Guid {
                let g = v.s().unwrap_or("");
                if !valid_guid(g) {
                    return Err(format!("{me} has the id {g:?}"));
                }
                if let Some(o) = guids.insert(g.to_string(), *id) {
                    return Err(format!("{me} and #{o} share the id {g}"));
                }
            }
        }
    }
    n("distinct ids", guids.len());
    // set-up
    let [(project, pa)] = b.of("IFCPROJECT")[..] else { return Err("there is not exactly one project".into()) };
    let (owner, oa) = match b.of("IFCOWNERHISTORY")[..] {
        [o] => o,
        _ => return Err("there is not exactly one owner history".into()),
    };
    let m = &b.model;
    if pa[2].s() != Some(&m.project) || pa[1].r() != Some(owner) {
        return Err(format!("the project #{project} lacks its name or owner history"));
    }
    let named = |id: Option<u64>, kw: &str, at: usize, s: &str| -> R<()> {
        let a = b.get(id.ok_or_else(|| format!("no {kw}"))?, kw)?;
        if a[at].s() == Some(s) {
            Ok(())
        } else {
            Err(format!("{kw} is named {} instead of {s:?}", step::show(&a[at])))
        }
    };
    let po = b.get(oa[0].r().ok_or("no owner")?, "IFCPERSONANDORGANIZATION")?;
    let exactly = |id: Option<u64>, kw: &str, want: &[V]| -> R<()> {
        let a = b.get(id.ok_or_else(|| format!("no {kw}"))?, kw)?;
        let show = |v: &[V]| v.iter().map(step::show).collect::<Vec<_>>().join(",");
        if a == want {
            Ok(())
        } else {
            Err(format!("{kw} has the values ({}) instead of ({})", show(a), show(want)))
        }
    };
    exactly(po[0].r(), "IFCPERSON", &m.person)?;
    exactly(po[1].r(), "IFCORGANIZATION", &[V::Null, V::Str(m.owner[1].clone()), V::Null, V::Null, V::Null])?;
    let app = b.get(oa[1].r().ok_or("no application")?, "IFCAPPLICATION")?;
    exactly(app[0].r(), "IFCORGANIZATION", &m.developer)?;
    for i in 0..3 {
        named(oa[1].r(), "IFCAPPLICATION", i + 1, &m.app[i + 1])?;
    }
    let contexts = b.of("IFCGEOMETRICREPRESENTATIONCONTEXT");
    let subs = b.of("IFCGEOMETRICREPRESENTATIONSUBCONTEXT");
    let ([(context, _)], [(sub, sa)]) = (&contexts[..], &subs[..]) else { return Err("there is not exactly one context and one sub context".into()) };
    if !pa[7].refs().contains(context) || sa[6].r() != Some(*context) || sa[0] != V::Str("Body".into()) {
        return Err("the project has no body context".into());
    }
    let units = b.get(pa[8].r().ok_or("the project has no units")?, "IFCUNITASSIGNMENT")?[0].refs();
    for want in ["LENGTHUNIT", "PLANEANGLEUNIT", "TIMEUNIT"] {
        let c = units.iter().filter(|u| b.get(**u, "IFCSIUNIT").is_ok_and(|a| a[1] == V::Enum(want.into()))).count();
        if c != 1 {
            return Err(format!("{c} units of the project are a {want}"));
        }
    }
    // products
    for (i, node) in m.nodes.iter().enumerate() {
        let who = b.who(i);
        let a = &b.m[&b.at[i]].1;
        if a[1].r() != Some(owner) {
            return Err(format!("{who} has not the owner history of the project but {}", step::show(&a[1])));
        }
        if step::is_null(&a[5]) {
            return Err(format!("{who} has no placement"));
        }
        if node.shape.is_some() {
            let ok = b.shapes(b.at[i])?.iter().any(|s| {
                b.get(*s, "IFCSHAPEREPRESENTATION").is_ok_and(|r| r[0].r() == Some(*sub) && r[1] == V::Str("Body".into()) && !r[3].refs().is_empty())
            });
            if !ok {
                return Err(format!("{who} has no shape in the body context"));
            }
        }
        n("products in order", 1);
    }
    // types, materials, properties
    let eq = |what: String, kw: &str, id: u64, want: &[(usize, V)]| -> R<()> {
        let a = b.get(id, kw).map_err(|e| format!("{what}: {e}"))?;
        for (at, v) in want {
            if !step::sem_eq(&a[*at], v) {
                return Err(format!("{what} #{id}: attribute {} is {} instead of {}", at + 1, step::show(&a[*at]), step::show(v)));
            }
        }
        Ok(())
    };
    let s = |t: &str| V::Str(t.into());
    let l = |v: &[u64]| V::List(v.iter().map(|i| V::Ref(*i)).collect());
    for t in &m.types {
        let mut w = vec![(1, V::Ref(owner)), (2, s(&t.name))];
        w.extend(t.words.iter().enumerate().map(|(i, v)| (9 + i, v.clone())));
        eq(t.kind.to_string(), kw_of(t.kind), t.id, &w)?;
        n("types in order", 1);
    }
    for (id, (t, mn, ln, v)) in &m.layers {
        let mut w = vec![(1, f(*t)), (2, V::Enum(if *v { "T" } else { "F" }.into()))];
        w.push((3, ln.as_deref().map_or(V::Null, s)));
        eq("a layer".into(), "IFCMATERIALLAYER", *id, &w)?;
        named(b.m[id].1[0].r(), "IFCMATERIAL", 0, mn)?;
    }
    for (id, v) in &m.sets {
        eq("a layer set".into(), "IFCMATERIALLAYERSET", *id, &[(0, l(v))])?;
    }
    for (id, u) in &m.usages {
        eq("a usage of a layer set".into(), "IFCMATERIALLAYERSETUSAGE", *id, &[(0, V::Ref(u.0)), (1, u.1.clone()), (2, u.2.clone()), (3, f(u.3))])?;
    }
    for (id, (mn, cn)) in &m.constituents {
        eq("a constituent".into(), "IFCMATERIALCONSTITUENT", *id, &[(0, s(cn))])?;
        named(b.m[id].1[2].r(), "IFCMATERIAL", 0, mn)?;
    }
    for (id, v) in &m.csets {
        eq("a constituent set".into(), "IFCMATERIALCONSTITUENTSET", *id, &[(2, l(v))])?;
    }
    n("materials in order", m.layers.len() + m.sets.len() + m.usages.len() + m.constituents.len() + m.csets.len());
    Ok(())
}

fn failed(cx: &mut Cx, e: String, t: &str) {
    cx.fail(e, t)
}

pub fn run13(cx: &mut Cx) {
    let how = any(cx);
    let r = Rng::new(cx.r.u64());
    let Some(b) = built(cx, r, how) else { return };
    let mut counts = BTreeMap::new();
    if let Err(e) = consistent(&b, &mut counts) {
        return failed(cx, e, &b.text);
    }
    counts.into_iter().for_each(|(k, c)| cx.add(k, c));
    match load(&b.text) {
        Ok(Ok(_)) => cx.count("built models loaded"),
        Ok(Err(e)) => return cx.fail(format!("the built text is refused: {}", cut(&e, 300)), b.text),
        Err(p) => return cx.fail(p, b.text),
    }
    cx.eval(&format!("{:?}", b.model));
    cx.sample(|| b.text.clone());
}

// ---------------------------------------------------------------- P14

type Pairs = Vec<(u64, u64)>;

fn same(what: &str, mut got: Pairs, mut want: Pairs) -> R<usize> {
    got.sort();
    want.sort();
    if got == want {
        return Ok(got.len());
    }
    let mut w = want.clone();
    let extra: Vec<String> = got
        .iter()
        .filter(|g| match w.iter().position(|x| x == *g) {
            Some(i) => {
                w.remove(i);
                false
            }
            None => true,
        })
        .map(|g| format!("#{} - #{}", g.0, g.1))
        .collect();
    let missing: Vec<String> = w.iter().map(|g| format!("#{} - #{}", g.0, g.1)).collect();
    Err(format!("{what}: missing {missing:?}, too much {extra:?}"))
}

fn structure(b: &Built, counts: &mut BTreeMap<&'static str, u64>) -> R<()> {
    let mut n = |k: &'static str, c: usize| *counts.entry(k).or_default() += c as u64;
    let m = &b.model;
    let project = b.of("IFCPROJECT").first().ok_or("there is no project")?.0;
    let up = |i: usize| m.nodes[i].parent.map_or(project, |p| b.at[p]);
    let pairs = |ks: &[&str], g: &dyn Fn(usize) -> u64| -> Pairs {
        (0..m.nodes.len()).filter(|i| ks.contains(&m.nodes[*i].kind)).map(|i| (g(i), b.at[i])).collect()
    };
    // relations with one relating (at place x) and several related objects (at place y)
    let lists = |kw: &str, one: usize, many: usize| -> Pairs {
        b.of(kw).iter().flat_map(|(_, a)| a[many].refs().into_iter().map(|o| (a[one].r().unwrap_or(0), o)).collect::<Vec<_>>()).collect()
    };
    n("parts aggregated", same("aggregation", lists("IFCRELAGGREGATES", 4, 5), pairs(&["Site", "Building", "Storey", "Space"], &up))?);
    let elements = ["Wall", "Slab", "Roof", "Window", "ShadingDevice"];
    let storey = |mut i: usize| {
        while m.nodes[i].kind != "Storey" {
            i = m.nodes[i].parent.expect("storey");
        }
        b.at[i]
    };
    n("elements contained", same("containment", lists("IFCRELCONTAINEDINSPATIALSTRUCTURE", 5, 4), pairs(&elements, &storey))?);
    let two = |kw: &str| -> Pairs { b.of(kw).iter().map(|(_, a)| (a[4].r().unwrap_or(0), a[5].r().unwrap_or(0))).collect() };
    n("openings voiding", same("voiding", two("IFCRELVOIDSELEMENT"), pairs(&["OpeningElement"], &up))?);
    n("windows filling", same("filling", two("IFCRELFILLSELEMENT"), pairs(&["Window"], &up))?);
    let ty = |i: usize| m.nodes[i].ty.unwrap_or(0);
    let typed: Vec<&str> = elements.iter().copied().chain(["Space"]).collect();
    n("elements typed", same("types of elements", lists("IFCRELDEFINESBYTYPE", 5, 4), pairs(&typed, &ty))?);
    let mat = |i: usize| m.nodes[i].mat.unwrap_or(0);
    let mut want = pairs(&elements, &mat);
    want.extend(m.types.iter().filter_map(|t| Some((t.mat?, t.id))));
    n("materials given", same("materials", lists("IFCRELASSOCIATESMATERIAL", 5, 4), want)?);
    // properties
    let mut want: Pairs = vec![];
    let mut sets: BTreeMap<u64, &Vec<V>> = b.of("IFCPROPERTYSET").into_iter().collect();
    let check = |id: u64, a: &Vec<V>, props: &[(String, V)]| -> R<()> {
        let got = a[4].refs();
        if got.len() != props.len() {
            return Err(format!("the property set #{id} has {} properties instead of {}", got.len(), props.len()));
        }
        for (g, (n, v)) in got.iter().zip(props) {
            let p = b.get(*g, "IFCPROPERTYSINGLEVALUE")?;
            if p[0].s() != Some(n) || !step::sem_eq(&p[2], v) {
                return Err(format!("the property {} of #{id} is {} = {}", n, step::show(&p[0]), step::show(&p[2])));
            }
        }
        Ok(())
    };
    let claimed: Vec<u64> = m.psets.iter().filter_map(|p| p.id).collect();
    for p in &m.psets {
        let found = |s: &(&u64, &&Vec<V>)| s.1[2].s() == Some(&p.name) && p.id.map_or(!claimed.contains(s.0), |id| id == *s.0);
        let found: Vec<u64> = sets.iter().filter(found).map(|s| *s.0).collect();
        let [id] = found[..] else { return Err(format!("{} property sets are the one named {:?}", found.len(), p.name)) };
        check(id, sets[&id], &p.props)?;
        sets.remove(&id);
        want.extend(p.nodes.iter().map(|o| (id, b.at[*o])).chain(p.others.iter().map(|o| (id, *o))));
    }
    // the builder gives every storey a set with its elevation
    let got = lists("IFCRELDEFINESBYPROPERTIES", 5, 4);
    let mut elevations: Vec<f64> = m.elevations.iter().map(|e| e.1).collect();
    let mut heights: Vec<u64> = vec![];
    for (id, a) in &sets {
        let v = a[4].refs().first().and_then(|p| b.m.get(p)).map(|p| p.1[2].clone());
        let x = match &v {
            Some(V::Typed(_, l)) => l.first().and_then(|x| x.f()),
            _ => None,
        };
        let Some(at) = elevations.iter().position(|e| Some(*e) == x) else {
            return Err(format!("nobody made the property set #{id} {}", step::show(&V::List((*a).clone()))));
        };
        elevations.swap_remove(at);
        let mine = |g: &&(u64, u64)| g.0 == *id && m.elevations.iter().any(|e| b.at[e.0] == g.1 && Some(e.1) == x && !heights.contains(&g.1));
        match got.iter().find(mine) {
            Some(g) => heights.push(g.1),
            None => return Err(format!("the property set #{id} with an elevation belongs to no storey at that elevation")),
        }
        want.push((*id, heights[heights.len() - 1]));
    }
    if heights.len() != m.elevations.len() {
        return Err(format!("{} of {} storeys have a property set with their elevation", heights.len(), m.elevations.len()));
    }
    n("property sets given", same("property sets", got, want)?);
    Ok(())
}

pub fn run14(cx: &mut Cx) {
    let how = How { hostile: false, ..any(cx) };
    let r = Rng::new(cx.r.u64());
    let Some(b) = built(cx, r, how) else { return };
    let mut counts = BTreeMap::new();
    if let Err(e) = structure(&b, &mut counts) {
        return failed(cx, e, &b.text);
    }
    counts.into_iter().for_each(|(k, c)| cx.add(k, c));
    cx.eval(&format!("{:?}", b.model));
    cx.sample(|| b.text.clone());
}

// ---------------------------------------------------------------- P15

fn geometry(b: &Built, counts: &mut BTreeMap<&'static str, u64>) -> R<()> {
    let mut n = |k: &'static str, c: usize| *counts.entry(k).or_default() += c as u64;
    for (i, node) in b.model.nodes.iter().enumerate() {
        let who = b.who(i);
        let at = |e: String| format!("{who}: {e}");
        let a = &b.m[&b.at[i]].1;
        let own = b.get(a[5].r().ok_or_else(|| at("no placement".into()))?, "IFCLOCALPLACEMENT").map_err(at)?;
        match node.parent {
            None if !step::is_null(&own[0]) => return Err(at("its placement is relative to something".into())),
            Some(p) if own[0] != b.m[&b.at[p]].1[5] => return Err(at(format!("its placement is not relative to {}", b.who(p)))),
            _ => {}
        }
        let got = b.axis(&own[1]).map_err(at)?;
        if got.o != node.off || got.c != ID.c {
            return Err(at(format!("its place is {got:?} instead of {:?}", node.off)));
        }
        n("places checked", 1);
        let Some(s) = &node.shape else { continue };
        let mut body = vec![];
        for r in b.shapes(b.at[i]).map_err(at)? {
            if b.get(r, "IFCSHAPEREPRESENTATION").map_err(at)?[1] == V::Str("Body".into()) {
                b.pieces(r, &mut body, &ID, 0).map_err(at)?;
            }
        }
        let [got] = &body[..] else { return Err(at(format!("it has {} bodies", body.len()))) };
        let want = Piece { points: s.outline.clone(), sweep: Some(mul(unit(s.dir), s.depth)) };
        if !got.near(&want, 1e-12 * want.size()) {
            return Err(at(format!("its shape is {got:?} instead of {want:?}")));
        }
        n("shapes checked", 1);
        n(kind_count(node.kind), 1);
    }
    Ok(())
}

fn kind_count(k: &str) -> &'static str {
    match k {
        "Wall" => "shapes of walls",
        "Slab" => "shapes of slabs",
        "Roof" => "shapes of roofs",
        "Window" => "shapes of windows",
        "OpeningElement" => "shapes of openings",
        "ShadingDevice" => "shapes of shading devices",
        _ => "shapes of spaces",
    }
}

pub fn run15(cx: &mut Cx) {
    let how = How { hostile: false, degenerate: false, moves: false, ..any(cx) };
    let r = Rng::new(cx.r.u64());
    let Some(b) = built(cx, r, how) else { return };
    let mut counts = BTreeMap::new();
    if let Err(e) = geometry(&b, &mut counts) {
        return failed(cx, e, &b.text);
    }
    counts.into_iter().for_each(|(k, c)| cx.add(k, c));
    cx.eval(&format!("{:?}", b.model));
    cx.sample(|| b.text.clone());
}

// ---------------------------------------------------------------- P16

/// the same program without its transforms (a) and with them (b)
fn moved(a: &Built, b: &Built, counts: &mut BTreeMap<&'static str, u64>) -> R<()> {
    let mut n = |k: &'static str, c: usize| *counts.entry(k).or_default() += c as u64;
    let m = &b.model;
    let mut t: Vec<Map> = vec![ID; m.nodes.len()];
    let mut times = vec![0; m.nodes.len()];
    for mv in &m.moves {
        let w = a.world(a.at[mv.node])?;
        // the transform in the coordinates of the world
        let by = w.then_inner(&mv.by).then_inner(&w.inv());
        for i in 0..m.nodes.len() {
            let up = |i: usize| m.nodes[i].parent;
            let hit = i == mv.node
                || mv.attached && (up(i) == Some(mv.node) || m.nodes[i].kind == "Window" && up(i).and_then(up) == Some(mv.node));
            if hit {
                t[i] = by.then_inner(&t[i]);
                times[i] += 1;
            }
        }
    }
    for i in 0..m.nodes.len() {
        let who = b.who(i);
        let at = |e: String| format!("{who}: {e}");
        let (wa, wb) = (a.world(a.at[i]).map_err(at)?, b.world(b.at[i]).map_err(at)?);
        let pa: Vec<_> = a.all_pieces(a.at[i]).map_err(at)?.into_iter().map(|(l, p)| (l, p.by(&wa))).collect();
        let pb: Vec<_> = b.all_pieces(b.at[i]).map_err(at)?.into_iter().map(|(l, p)| (l, p.by(&wb))).collect();
        if pa.len() != pb.len() {
            return Err(at(format!("{} pieces became {}", pa.len(), pb.len())));
        }
        let mut left = pb.clone();
        for (l, p) in &pa {
            let want = p.by(&t[i]);
            let size = want.size().max(p.size()).max(t[i].o.iter().chain(&wa.o).fold(1., |a, x| f64::max(a, x.abs())));
            let Some(k) = left.iter().position(|(k, g)| k == l && g.near(&want, 1e-9 * size)) else {
                let how = match times[i] {
                    0 => "nothing moves it, but".to_string(),
                    k => format!("after {k} transforms of it or its host"),
                };
                return Err(at(format!("{how} {l} {p:?} became {left:?} instead of {want:?} (world coordinates)")));
            };
            left.swap_remove(k);
            n(if times[i] > 0 { "pieces moved" } else { "pieces at rest" }, 1);
            if times[i] > 1 {
                n("pieces moved several times", 1);
            }
        }
        if pa.is_empty() && (0..3).any(|k| wa.c[k] != wb.c[k]) || pa.is_empty() && wa.o != wb.o {
            return Err(at("its place moved".into()));
        }
        if times[i] > 0 && (m.nodes[i].kind == "Window" || m.nodes[i].kind == "OpeningElement") {
            n("openings and windows moved", 1);
        }
    }
    Ok(())
}

pub fn run16(cx: &mut Cx) {
    let seed = cx.r.u64();
    let how = How { hostile: false, degenerate: false, moves: true, apply: true, big: cx.thorough || cx.case % 16 < 2 };
    let Some(a) = built(cx, Rng::new(seed), How { apply: false, ..how }) else { return };
    let Some(b) = built(cx, Rng::new(seed), how) else { return };
    let mut counts = BTreeMap::new();
    if let Err(e) = moved(&a, &b, &mut counts) {
        return failed(cx, e, &b.text);
    }
    counts.into_iter().for_each(|(k, c)| cx.add(k, c));
    if !b.model.moves.is_empty() {
        cx.count("programs with transforms");
    }
    cx.eval(&format!("{:?}", b.model));
    cx.sample(|| b.text.clone());
}
