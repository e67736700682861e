//! Workload generation: random well-formed files over the supported kinds (by the schema) mixed
//! with entities the library does not know, in any order and numbering, with hostile contents.

use crate::prng::Rng;
use crate::schema::*;
use crate::step::{write_v, V};
use std::collections::HashSet;

#[derive(Clone)]
pub struct GInst {
    pub id: u64,
    /// None: not supported (opaque)
    pub kind: Option<&'static Kind>,
    pub kw: String,
    pub args: Vec<V>,
    /// body text of an opaque instance
    pub raw: String,
}

#[derive(Clone)]
pub struct GFile {
    pub header: GHeader,
    pub insts: Vec<GInst>,
}

#[derive(Clone, Debug)]
pub struct GHeader {
    /// name, items (as meant; items trimmed and non-empty)
    pub views: Vec<(String, Vec<String>)>,
    pub views_text: Vec<String>,
    /// None: `$`
    pub name: Option<String>,
    /// unix seconds
    pub time: i64,
    pub time_text: String,
    pub authors: Vec<String>,
    pub orgs: Vec<String>,
    pub prep: String,
    pub sys: String,
    pub auth: String,
    /// official names
    pub schemas: Vec<&'static str>,
    pub schemas_text: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lay {
    /// one instance per line, nothing else
    Plain,
    /// random blanks and line breaks at the claimed places
    Blank,
    /// random blanks and comments at the claimed places
    Comment,
}

#[derive(Clone)]
pub struct Opts {
    pub kinds: usize,
    pub opaque: bool,
    pub opaque_targets: bool,
    pub big_ids: bool,
    pub hostile_text: bool,
    pub extreme_num: bool,
    pub standard_case: bool,
    pub star: bool,
    pub encode_umlauts: bool,
    pub shuffle: bool,
    /// now and then a very long list
    pub long: bool,
    /// now and then thousands of instances
    pub pad: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            kinds: 12,
            opaque: true,
            opaque_targets: true,
            big_ids: true,
            hostile_text: true,
            extreme_num: true,
            standard_case: true,
            star: true,
            encode_umlauts: true,
            shuffle: true,
            long: false,
            pad: false,
        }
    }
}

pub const GUID_ALPHABET: &[u8; 64] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_$";

pub fn guid(r: &mut Rng) -> String {
    let mut s = String::new();
    s.push((b'0' + r.below(4) as u8) as char);
    let mode = r.below(12);
    for _ in 0..21 {
        let c = match mode {
            0 => b'0',
            1 => b'$',
            2 => *r.pick(b"0$"),
            _ => *r.pick(GUID_ALPHABET),
        };
        s.push(c as char);
    }
    s
}

const WORDS: &[&str] = &[
    "Wall", "beam", "A", "Level 1", "north", "x", "Pset_WallCommon", "0", "42", "-1.5", "concrete C30/37",
];
const HOSTILE: &[&str] = &[
    ";", ",", "(", ")", "#1", "#99999", "$", "*", "/*", "*/", "/* ; */", "\n", "\r\n", "\t", " ", "  ", "\"",
    "ENDSEC;", "DATA;", "END-ISO-10303-21;", "#1= IFCWALL($);", ");", "ä", "Ö", "ß", "ÄÖÜäöüß", "é", "ñ", "漢字",
    "\u{1F600}", "\u{0}", "\u{7f}", "\u{200b}", "\u{feff}", "a\u{308}", "=", ".T.", ".5", "[", "]", "%", "&", "=#2",
    "\u{85}", "\u{a0}", "//", "--", "<", "{}", "{0}", "\u{2028}", "ẞ", "X2", "00E4", "I", "ı", "ﬁ",
];

/// text without apostrophes and backslashes
pub fn text(r: &mut Rng, hostile: bool) -> String {
    if !hostile {
        return r.pick(WORDS).to_string();
    }
    match r.below(10) {
        0 if r.chance(1, 20) => r.pick(&["ä", "Ä", "ß", "ÄÖÜäöüß", " ", "ab", "é", "漢"]).repeat(9 + r.below(60)),
        0 => String::new(),
        1..=3 => r.pick(WORDS).to_string(),
        4 => r.pick(HOSTILE).to_string(),
        5..=7 => {
            let n = 1 + r.below(6);
            (0..n).map(|_| if r.coin() { *r.pick(WORDS) } else { *r.pick(HOSTILE) }).collect()
        }
        8 => {
            let n = r.below(24);
            (0..n).map(|_| any_char(r)).collect()
        }
        _ => {
            let n = match r.below(160) {
                0 => 70_000,
                1..=20 => 2000,
                _ => r.below(80),
            };
            (0..n).map(|_| (b' ' + r.below(95) as u8) as char).map(|c| if c == '\'' || c == '\\' { '_' } else { c }).collect()
        }
    }
}

pub fn any_char(r: &mut Rng) -> char {
    loop {
        let hi = *r.pick(&[0x80u32, 0x100, 0x300, 0x3000, 0x10000, 0x110000]);
        if let Some(c) = char::from_u32(r.below(hi as usize) as u32) {
            if c != '\'' && c != '\\' {
                return c;
            }
        }
    }
}

/// a finite double of any magnitude
pub fn real(r: &mut Rng, extreme: bool) -> f64 {
    let m = if extreme { r.below(14) } else { r.below(6) };
    let x = match m {
        0 => r.range(-5, 5) as f64,
        1 => r.range(-100000, 100000) as f64 / 8.0,
        2 => r.range(-1_000_000, 1_000_000) as f64 / 1000.0,
        3 => 0.0,
        4 => (r.unit() - 0.5) * 20.0,
        5 => r.range(-20, 20) as f64 * 0.1,
        6 => (r.unit() - 0.5) * 10f64.powi(r.range(-30, 30) as i32),
        7 => f64::from_bits(r.u64()),
        8 => *r.pick(&[
            f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, -0.0, f64::EPSILON, 1.0 / 3.0, 0.1 + 0.2, 1e15, 1e16, 1e17,
            1e21, 1e22, 1e23, 9007199254740993.0, 123456789012345680.0, 0.000001, 1e-7, 1.7976931348623155e308,
            2.2250738585072011e-308, 0.30000000000000004, 2.5e-5, 100.00000000000001,
        ]),
        9 => f64::from_bits(r.u64() >> (12 + r.below(50))),
        10 => r.range(i64::MIN / 2, i64::MAX / 2) as f64,
        11 => 10f64.powi(r.range(-320, 308) as i32),
        12 => 1.0 + f64::EPSILON * r.range(-8, 8) as f64,
        _ => (r.range(-999, 999) as f64) * 10f64.powi(r.range(-12, 12) as i32),
    };
    if x.is_finite() {
        x
    } else {
        1.5
    }
}

/// one of the valid spellings of a finite double
pub fn spell_real(r: &mut Rng, x: f64) -> String {
    let s = spell_unsigned(r, x);
    if !s.starts_with('-') && r.chance(1, 12) {
        return format!("+{s}");
    }
    s
}
fn spell_unsigned(r: &mut Rng, x: f64) -> String {
    let short = format!("{x}");
    let pointed = |s: &str| if s.contains('.') { s.to_string() } else { format!("{s}.") };
    match r.below(6) {
        0..=2 => pointed(&short),
        3 => {
            // d.dddE-7
            let s = format!("{x:E}");
            let (m, e) = s.split_once('E').unwrap();
            format!("{}E{e}", pointed(m))
        }
        4 => {
            let s = format!("{x:.17E}");
            let (m, e) = s.split_once('E').unwrap();
            let sign = if !e.starts_with('-') && r.coin() { "+" } else { "" };
            format!("{m}E{sign}{e}")
        }
        _ => {
            let s = pointed(&short);
            if s.len() < 40 {
                format!("{s}{}", &"000000"[..r.below(6)])
            } else {
                s
            }
        }
    }
}

pub fn real_v(r: &mut Rng, extreme: bool) -> V {
    let x = real(r, extreme);
    if x.fract() == 0.0 && x.abs() < 1e9 && r.chance(1, 10) {
        return V::Num(if x == 0.0 { "0".into() } else { format!("{x}") });
    }
    V::Num(spell_real(r, x))
}

pub fn int(r: &mut Rng, extreme: bool) -> i64 {
    match if extreme { r.below(5) } else { 1 } {
        0 => *r.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, 0, -1, i32::MAX as i64 + 1, i32::MIN as i64 - 1, (1 << 53) + 1]),
        1 | 2 => r.range(-300, 300),
        3 => r.u64() as i64 >> r.below(60),
        _ => r.u64() as i64,
    }
}

pub const TIME_MAX: i64 = 8_210_266_876_799;
pub const TIME_MIN: i64 = -8_334_601_228_800;

pub fn time(r: &mut Rng, extreme: bool) -> i64 {
    match if extreme { r.below(5) } else { 0 } {
        0 | 1 => r.range(0, 2_000_000_000),
        2 => r.range(-100_000_000_000, 300_000_000_000),
        3 => *r.pick(&[0, -1, 1, i32::MAX as i64, i32::MAX as i64 + 1, TIME_MAX, TIME_MIN, 253_402_300_799, 253_402_300_800]),
        _ => r.range(TIME_MIN, TIME_MAX),
    }
}

struct B<'a> {
    r: &'a mut Rng,
    o: &'a Opts,
    insts: Vec<GInst>,
    ids: HashSet<u64>,
    next: u64,
    idmode: usize,
    todo: Vec<usize>,
}

impl B<'_> {
    fn fresh(&mut self) -> u64 {
        loop {
            let id = match self.idmode {
                0 => {
                    self.next += 1;
                    self.next
                }
                1 => {
                    self.next += 1 + self.r.below(40) as u64;
                    self.next
                }
                2 => self.r.below(100_000) as u64,
                3 if self.r.chance(1, 40) => *self.r.pick(&[0, u64::MAX, u64::MAX - 1, i64::MAX as u64, u32::MAX as u64]),
                3 => self.r.u64() >> self.r.below(50),
                _ => self.r.below(400 + 4 * self.insts.len()) as u64,
            };
            if self.ids.insert(id) {
                return id;
            }
        }
    }
    fn new_inst(&mut self, k: &'static Kind) -> u64 {
        let id = self.fresh();
        let mut kw = k.kw.to_string();
        if self.o.standard_case && matches!(k.name, "Wall" | "Slab" | "Door" | "Window") && self.r.chance(1, 4) {
            kw.push_str("STANDARDCASE");
        }
        self.insts.push(GInst { id, kind: Some(k), kw, args: vec![], raw: String::new() });
        self.todo.push(self.insts.len() - 1);
        id
    }
    fn new_opaque(&mut self) -> u64 {
        let id = self.fresh();
        let some: Vec<u64> = self.insts.iter().map(|i| i.id).collect();
        let raw = opaque_body(self.r, &some);
        self.insts.push(GInst { id, kind: None, kw: String::new(), args: vec![], raw });
        id
    }
    fn target(&mut self, kinds: &[&'static str], must: bool) -> Option<u64> {
        let opaque_ok = self.o.opaque_targets && self.o.opaque;
        if opaque_ok && self.r.chance(1, 12) {
            let c: Vec<u64> = self.insts.iter().filter(|i| i.kind.is_none()).map(|i| i.id).collect();
            return Some(if c.is_empty() || self.insts.len() < 200 && self.r.chance(1, 4) { self.new_opaque() } else { *self.r.pick(&c) });
        }
        let c: Vec<u64> =
            self.insts.iter().filter(|i| i.kind.is_some_and(|k| kinds.contains(&k.name))).map(|i| i.id).collect();
        if !c.is_empty() && (!must || self.insts.len() > 120 || !self.r.chance(1, 5)) {
            return Some(*self.r.pick(&c));
        }
        if must || self.r.chance(1, 3) && self.insts.len() < 120 {
            let k = kind(self.r.pick(kinds));
            return Some(self.new_inst(k));
        }
        None
    }
    fn any_target(&mut self) -> u64 {
        if self.insts.is_empty() || self.r.chance(1, 20) {
            // unchecked references may even dangle
            return 900_000_000 + self.r.below(1000) as u64;
        }
        self.insts[self.r.below(self.insts.len())].id
    }
    fn val(&mut self, t: &Ty, must: bool) -> Option<V> {
        let h = self.o.hostile_text;
        let x = self.o.extreme_num;
        Some(match t {
            Ty::Guid => V::Str(guid(self.r)),
            Ty::Str => V::Str(text(self.r, h)),
            Ty::Real => real_v(self.r, x),
            Ty::Int | Ty::SmallInt => {
                let i = int(self.r, x);
                let i = if *t == Ty::SmallInt { i as i32 as i64 } else { i };
                // a sign and leading zeros change nothing
                let zeros = if self.r.chance(1, 20) { *self.r.pick(&["0", "00", "00000000000000000000"]) } else { "" };
                let sign = match i {
                    i if i < 0 => "-",
                    0 if self.r.chance(1, 20) => "-",
                    _ if self.r.chance(1, 20) => "+",
                    _ => "",
                };
                V::Num(format!("{sign}{zeros}{}", i.unsigned_abs()))
            }
            Ty::Bool => V::Enum(self.r.pick(&["T", "F", "U", "TRUE", "FALSE", "UNKNOWN"]).to_string()),
            Ty::Time => V::Num(time(self.r, x).to_string()),
            Ty::Enum(e) => self.r.pick(&crate::enums::words(e)).clone(),
            Ty::Vec2 => V::List((0..2).map(|_| real_v(self.r, x)).collect()),
            Ty::Vec3 => V::List((0..3).map(|_| real_v(self.r, x)).collect()),
            Ty::Value => prop_value(self.r, h, x),
            Ty::Measure => V::Typed("IFCPLANEANGLEMEASURE".into(), vec![real_v(self.r, x)]),
            Ty::Ref(ks) => V::Ref(self.target(ks, must)?),
            Ty::Unchecked => V::Ref(self.any_target()),
            Ty::List(t) => {
                let n = match self.r.below(8) {
                    0 => 0,
                    1..=3 => 1,
                    4 | 5 => 2,
                    6 => 3,
                    _ if self.o.long && self.r.chance(1, 500) => *self.r.pick(&[1030, 4100, 33_000, 70_000]),
                    _ if self.r.chance(1, 12) => 9 + self.r.below(300),
                    _ => 4 + self.r.below(5),
                };
                let mut v = Vec::new();
                for _ in 0..n {
                    if let Some(x) = self.val(t, self.insts.len() < 60) {
                        v.push(x);
                    }
                }
                V::List(v)
            }
        })
    }
    fn fill(&mut self) {
        while let Some(i) = self.todo.pop() {
            let k = self.insts[i].kind.unwrap();
            let mut args = Vec::new();
            for a in &k.attrs {
                let v = if a.opt && self.r.chance(2, 5) {
                    V::Null
                } else if a.opt && self.o.star && self.r.chance(1, 20) {
                    V::Star
                } else {
                    self.val(&a.ty, !a.opt).unwrap_or(V::Null)
                };
                args.push(v);
            }
            self.insts[i].args = args;
        }
    }
}

pub fn prop_value(r: &mut Rng, h: bool, x: bool) -> V {
    match r.below(5) {
        0 => V::Typed(
            r.pick(&["IFCBOOLEAN", "IfcBoolean"]).to_string(),
            vec![V::Enum(r.pick(&["T", "F", "U", "TRUE", "FALSE", "UNKNOWN"]).to_string())],
        ),
        1 => V::Typed(r.pick(&["IFCLABEL", "IfcLabel"]).to_string(), vec![V::Str(text(r, h))]),
        2 => V::Typed(r.pick(&["IFCREAL", "IfcReal"]).to_string(), vec![real_v(r, x)]),
        3 => V::Typed(r.pick(&["IFCIDENTIFIER", "IfcIdentifier"]).to_string(), vec![V::Str(text(r, h))]),
        _ => V::Typed(
            r.pick(&["IFCTHERMALTRANSMITTANCEMEASURE", "IfcThermaltransmittancemeasure"]).to_string(),
            vec![real_v(r, x)],
        ),
    }
}

pub fn gen(r: &mut Rng, o: &Opts) -> GFile {
    gen_with(r, o, &[])
}

/// random file that contains at least one instance of each of `want`
pub fn gen_with(r: &mut Rng, o: &Opts, want: &[&'static str]) -> GFile {
    let s = schema();
    let header = header(r);
    let idmode = if o.big_ids { r.below(5) } else { r.below(2) };
    let mut b = B { r, o, insts: vec![], ids: HashSet::new(), next: 0, idmode, todo: vec![] };
    for w in want {
        b.new_inst(kind(w));
    }
    let n = b.r.below(o.kinds + 1);
    for _ in 0..n {
        if o.opaque && b.r.chance(1, 6) {
            b.new_opaque();
        } else {
            let k = &s.kinds[b.r.below(s.kinds.len())];
            b.new_inst(k);
        }
    }
    b.fill();
    if o.pad && b.r.chance(1, 150) {
        for _ in 0..*b.r.pick(&[300, 1100, 4200]) {
            let k = b.r.pick(&["Point3D", "Direction3D", "DimensionalExponents", "Material"]);
            b.new_inst(kind(k));
        }
        b.fill();
    }
    let mut insts = b.insts;
    if o.shuffle && r.chance(3, 4) {
        r.shuffle(&mut insts);
    } else {
        insts.sort_by_key(|i| i.id);
    }
    GFile { header, insts }
}

// ---------------------------------------------------------------- opaque entities

fn opaque_string(r: &mut Rng) -> String {
    let n = r.below(4);
    let mut s = String::from("'");
    for _ in 0..n {
        match r.below(6) {
            0 => s.push_str("''"),
            1 => s.push_str(";"),
            2 => s.push_str(r.pick(&["\\X2\\00E4\\X0\\", "\\S\\D", "\\\\", "\\X\\E4", "\\P"])),
            3 => s.push_str(&text(r, false)),
            _ => s.push_str(&text(r, true)),
        }
    }
    s.push('\'');
    s
}

fn opaque_comment(r: &mut Rng) -> String {
    let inner: String = (0..r.below(4))
        .map(|_| *r.pick(&[";", "'", "it's", "#5=", ")", "(", "''", "ENDSEC;", "x", "*", " ", "\n", "/*"]))
        .collect();
    format!("/*{}*/", inner.replace("*/", "* /").trim_end_matches('/'))
}

fn opaque_value(r: &mut Rng, ids: &[u64], depth: usize) -> String {
    let max = if depth == 0 { 9 } else { 12 };
    match r.below(max) {
        0 => "$".into(),
        1 => "*".into(),
        2 => spell_real_simple(r),
        3 => int(r, true).to_string(),
        4 | 5 => opaque_string(r),
        6 => format!(".{}.", r.pick(&["T", "USERDEFINED", "X", "NOTDEFINED"])),
        7 => format!("#{}", if ids.is_empty() || r.chance(1, 5) { r.below(1_000_000) as u64 } else { *r.pick(ids) }),
        8 => "\"1A2F\"".into(),
        9 | 10 => opaque_list(r, ids, depth - 1),
        _ => format!("{}{}", r.pick(&["IFCBOOLEAN", "IFCLABEL", "IFCLENGTHMEASURE", "IFCFOO"]), opaque_list(r, ids, depth - 1)),
    }
}

fn spell_real_simple(r: &mut Rng) -> String {
    let x = real(r, true);
    spell_real(r, x)
}

fn opaque_list(r: &mut Rng, ids: &[u64], depth: usize) -> String {
    let n = r.below(5);
    let mut s = String::from("(");
    for i in 0..n {
        if i > 0 {
            s.push(',');
        }
        opaque_layout(r, &mut s);
        s.push_str(&opaque_value(r, ids, depth));
        opaque_layout(r, &mut s);
    }
    s.push(')');
    s
}

fn opaque_layout(r: &mut Rng, s: &mut String) {
    match r.below(16) {
        0 => s.push(' '),
        1 => s.push_str("\n  "),
        2 => s.push_str(&opaque_comment(r)),
        _ => {}
    }
}

const UNKNOWN_KW: &[&str] = &[
    "IFCBEAM", "IFCCOLUMN", "IFCWALLELEMENTEDCASE", "IFCBOOLEANRESULT", "IFCFURNITURE", "IFCSTAIR", "IFCQUANTITYAREA",
    "IFCELEMENTQUANTITY", "IFCX", "IFC", "FOO", "A", "IFCWALLS", "IFCWALL2", "IFCSLABX", "IFCDIRECTIONS", "IFCCARTESIANPOINTX",
    "IFCFACETEDBREP", "IFCPOLYLOOP", "IFCRELSPACEBOUNDARY", "IFCPRESENTATIONLAYERASSIGNMENT", "IFCSTYLEDITEM", "ENDSEC",
    "DATA", "IFCCOLOURRGB", "IFC_WALL", "IFCMATERIALLIST", "IFCDOORLININGPROPERTIES", "IFCPERSONX", "IFCCLASSIFICATION",
];

/// body of an instance the library cannot interpret
pub fn opaque_body(r: &mut Rng, ids: &[u64]) -> String {
    let depth = r.below(4);
    match r.below(8) {
        // a supported kind with attributes it cannot interpret: one too many
        0 => {
            let s = schema();
            let k = &s.kinds[r.below(s.kinds.len())];
            let mut t = String::from(k.kw);
            t.push('(');
            for _ in 0..k.attrs.len() + 1 {
                t.push_str(&opaque_value(r, ids, depth));
                t.push(',');
            }
            t.push_str("$)");
            t
        }
        // a supported keyword in lower case
        1 => {
            let s = schema();
            let k = &s.kinds[r.below(s.kinds.len())];
            format!("{}{}", k.kw.to_lowercase(), opaque_list(r, ids, depth))
        }
        // complex instance
        2 => format!("(A{}B_C{})", opaque_list(r, ids, depth), opaque_list(r, ids, depth)),
        // a supported keyword whose first attribute has a wrong type
        3 => {
            let s = schema();
            let k = &s.kinds[r.below(s.kinds.len())];
            let mut t = String::from(k.kw);
            t.push_str("(.NO_SUCH_WORD.");
            for _ in 1..k.attrs.len() {
                t.push(',');
                t.push_str(&opaque_value(r, ids, depth));
            }
            t.push(')');
            t
        }
        4 => {
            // blank between keyword and bracket
            format!("{} {}", r.pick(UNKNOWN_KW), opaque_list(r, ids, depth))
        }
        _ => format!("{}{}", r.pick(UNKNOWN_KW), opaque_list(r, ids, depth)),
    }
}

// ---------------------------------------------------------------- header

pub fn header_text(r: &mut Rng) -> String {
    let mut t = text(r, true);
    if r.chance(1, 6) {
        let n = t.chars().count();
        let k = if r.chance(1, 4) { n } else { r.below(n + 1) };
        let at = t.char_indices().nth(k).map_or(t.len(), |x| x.0);
        t.insert_str(at, &"'".repeat(*r.pick(&[1, 1, 1, 2, 3])));
    }
    t
}

pub fn civil(secs: i64) -> (i64, i64, i64, i64, i64, i64) {
    let days = secs.div_euclid(86400);
    let s = secs.rem_euclid(86400);
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    (y, m, d, s / 3600, s / 60 % 60, s % 60)
}

pub fn unix(y: i64, m: i64, d: i64, h: i64, mi: i64, s: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    (era * 146097 + doe - 719468) * 86400 + h * 3600 + mi * 60 + s
}

const IDENT: &str = "abcXYZ0189_-.:äß";

pub fn header(r: &mut Rng) -> GHeader {
    let few = |r: &mut Rng| match r.below(6) {
        0 => 0,
        1..=3 => 1,
        4 => 2,
        _ if r.chance(1, 12) => 7 + r.below(40),
        _ => 3 + r.below(4),
    };
    let nv = few(r);
    let mut views = Vec::new();
    let mut vt = Vec::new();
    for _ in 0..nv {
        let name = if r.coin() {
            r.pick(&["ViewDefinition", "Option", "Comment", "ExchangeRequirement"]).to_string()
        } else {
            let c: Vec<char> = IDENT.chars().collect();
            (0..1 + r.below(8)).map(|_| *r.pick(&c)).collect()
        };
        let mut items = Vec::new();
        let mut it = Vec::new();
        for _ in 0..few(r) {
            let t: String = header_text(r).chars().filter(|c| !matches!(c, '[' | ']' | ',')).collect();
            let m = t.trim().to_string();
            let pad = |r: &mut Rng| r.pick(&["", "", " ", "  "]).to_string();
            let (a, b) = (pad(r), pad(r));
            it.push(format!("{a}{t}{b}"));
            if !m.is_empty() {
                items.push(m);
            }
        }
        vt.push(crate::step::quote(&format!("{name} [{}]", it.join(","))));
        views.push((name, items));
    }
    let views_text = if nv == 0 && r.coin() { vec!["''".to_string()] } else { vt };
    let lo = unix(1, 1, 2, 0, 0, 0);
    let hi = unix(9998, 12, 30, 0, 0, 0);
    let time = match r.below(4) {
        0 => r.range(lo, hi),
        1 => *r.pick(&[0, -1, lo, hi, 951_782_400, 1_709_164_799, -62_135_510_400 + 86_400]),
        _ => r.range(0, 4_000_000_000),
    };
    let off = match r.below(5) {
        0 | 1 => None,
        2 => Some(("Z".to_string(), 0)),
        3 => Some((r.pick(&["+00:00", "-00:00", "+02:00", "-05:00", "+05:30", "-09:45"]).to_string(), 1)),
        _ => None,
    };
    let (suffix, shift) = match &off {
        None => (String::new(), 0),
        Some((s, 0)) => (s.clone(), 0),
        Some((s, _)) => {
            let sign = if s.starts_with('-') { -1 } else { 1 };
            let h: i64 = s[1..3].parse().unwrap();
            let m: i64 = s[4..6].parse().unwrap();
            (s.clone(), sign * (h * 3600 + m * 60))
        }
    };
    let (y, mo, d, h, mi, s) = civil(time + shift);
    let frac = if r.chance(1, 6) { *r.pick(&[".5", ".25", ".000", ".999999999", ".123"]) } else { "" };
    let time_text = format!("{y:04}-{mo:02}-{d:02}T{h:02}:{mi:02}:{s:02}{frac}{suffix}");
    let list = |r: &mut Rng| -> Vec<String> {
        let n = few(r);
        (0..n).map(|_| header_text(r)).collect()
    };
    let mut schemas = Vec::new();
    let mut st = Vec::new();
    let n = if r.chance(1, 40) { 4 + r.below(20) } else { 1 + r.below(3) };
    for _ in 0..n * usize::from(!r.chance(1, 20)) {
        let (official, spell): (&str, &[&str]) = *r.pick(&[
            ("IFC4X3_ADD2", &["4X3_ADD2", "4x3_ADD2", "4x3", "4X3"][..]),
            ("IFC2X3", &["2x3", "2X3"][..]),
            ("IFC4", &["4", "4x2", "4X2"][..]),
        ]);
        schemas.push(official);
        st.push(format!("{}{}", r.pick(&["IFC", "IFC", "Ifc", "ifc"]), r.pick(spell)));
    }
    GHeader {
        views,
        views_text,
        name: if r.chance(1, 8) { None } else { Some(header_text(r)) },
        time,
        time_text,
        authors: list(r),
        orgs: list(r),
        prep: header_text(r),
        sys: header_text(r),
        auth: header_text(r),
        schemas,
        schemas_text: st,
    }
}

// ---------------------------------------------------------------- rendering

pub fn comment(r: &mut Rng) -> String {
    let n = if r.chance(1, 1500) { *r.pick(&[600, 3000, 20_000]) } else { r.below(6) };
    let inner: String = (0..n)
        .map(|_| {
            *r.pick(&[
                ";", "'", "it's", "#5= IFCWALL($);", ")", "(", "ENDSEC;", "DATA;", "x", "*", " ", "\n", "/*", "''", "ä", "END-ISO-10303-21;",
                ",", "$", "\t", "**", "HEADER;", "漢", "\\X2\\", "=", "/",
            ])
        })
        .collect();
    let mut inner = inner;
    while inner.contains("*/") {
        inner = inner.replace("*/", "*.");
    }
    // `/*` followed by `/` would read as a complete comment in no dialect, but keep clear of it
    if inner.starts_with('/') {
        inner.insert(0, ' ');
    }
    format!("/*{inner}*/")
}

/// a random piece of layout
pub fn layout(r: &mut Rng, l: Lay, s: &mut String, p: u32) {
    if l == Lay::Plain || !r.chance(p, 10) {
        return;
    }
    for _ in 0..1 + r.below(3) {
        match if l == Lay::Comment { r.below(8) } else { r.below(5) } {
            0 | 1 => s.push(' '),
            2 => s.push('\n'),
            3 => s.push('\t'),
            4 => s.push_str("\r\n"),
            _ => s.push_str(&comment(r)),
        }
    }
}

fn write_list(r: &mut Rng, l: Lay, s: &mut String, v: &[V], enc: bool) {
    s.push('(');
    layout(r, l, s, 1);
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            layout(r, l, s, 2);
            s.push(',');
            layout(r, l, s, 2);
        }
        match x {
            V::List(n) => write_list(r, l, s, n, enc),
            V::Typed(k, n) => {
                s.push_str(k);
                write_list(r, l, s, n, enc);
            }
            V::Str(t) if enc => {
                let mut t = t.clone();
                for (c, e) in UMLAUTS {
                    if t.contains(c) {
                        t = t.replace(c, &format!("\\X2\\{e}\\X0\\"));
                    }
                }
                write_v(s, &V::Str(t));
            }
            V::Ref(id) if l != Lay::Plain && r.chance(1, 40) => s.push_str(&format!("#00{id}")),
            x => write_v(s, x),
        }
    }
    if !v.is_empty() {
        layout(r, l, s, 1);
    }
    s.push(')');
}

pub const UMLAUTS: [(char, &str); 7] =
    [('Ä', "00C4"), ('ä', "00E4"), ('Ö', "00D6"), ('ö', "00F6"), ('Ü', "00DC"), ('ü', "00FC"), ('ß', "00DF")];

pub fn body(r: &mut Rng, l: Lay, i: &GInst, enc: bool) -> String {
    match i.kind {
        None => i.raw.clone(),
        Some(_) => {
            let mut s = i.kw.clone();
            write_list(r, l, &mut s, &i.args, enc);
            s
        }
    }
}

pub fn header_render(r: &mut Rng, l: Lay, h: &GHeader) -> String {
    let mut s = String::from("ISO-10303-21");
    semi(r, l, &mut s);
    s.push_str("HEADER");
    semi(r, l, &mut s);
    let q = crate::step::quote;
    let list = |v: &[String]| v.iter().map(|x| q(x)).collect::<Vec<_>>();
    let one = |x: String| (false, vec![x]);
    let records: [(&str, Vec<(bool, Vec<String>)>); 3] = [
        ("FILE_DESCRIPTION", vec![(true, h.views_text.clone()), one("'2;1'".into())]),
        (
            "FILE_NAME",
            vec![
                one(h.name.as_deref().map_or("$".to_string(), q)),
                one(format!("'{}'", h.time_text)),
                (true, list(&h.authors)),
                (true, list(&h.orgs)),
                one(q(&h.prep)),
                one(q(&h.sys)),
                one(q(&h.auth)),
            ],
        ),
        ("FILE_SCHEMA", vec![(true, list(&h.schemas_text))]),
    ];
    for (k, args) in records {
        s.push_str(k);
        layout(r, l, &mut s, 1);
        s.push('(');
        layout(r, l, &mut s, 1);
        for (i, (is_list, v)) in args.iter().enumerate() {
            if i > 0 {
                layout(r, l, &mut s, 2);
                s.push(',');
                layout(r, l, &mut s, 2);
            }
            if *is_list {
                s.push('(');
            }
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    layout(r, l, &mut s, 2);
                    s.push(',');
                }
                if *is_list {
                    layout(r, l, &mut s, 2);
                }
                s.push_str(x);
            }
            if *is_list {
                if !v.is_empty() {
                    layout(r, l, &mut s, 1);
                }
                s.push(')');
            }
        }
        layout(r, l, &mut s, 1);
        s.push(')');
        layout(r, l, &mut s, 1);
        s.push(';');
        sep(r, l, &mut s);
    }
    s.push_str("ENDSEC");
    layout(r, l, &mut s, 1);
    s.push(';');
    s
}

/// the semicolon behind a keyword
fn semi(r: &mut Rng, l: Lay, s: &mut String) {
    layout(r, l, s, 1);
    s.push(';');
    sep(r, l, s);
}

fn sep(r: &mut Rng, l: Lay, s: &mut String) {
    if l == Lay::Plain {
        s.push('\n');
    } else {
        layout(r, l, s, 7);
    }
}

/// text of the file; with `Lay::Plain` the random stream is not touched
pub fn render(r: &mut Rng, l: Lay, f: &GFile, enc: bool) -> String {
    let mut s = String::new();
    layout(r, l, &mut s, 3);
    s.push_str(&header_render(r, l, &f.header));
    sep(r, l, &mut s);
    s.push_str("DATA");
    semi(r, l, &mut s);
    for i in &f.insts {
        let zeros = if l != Lay::Plain && r.chance(1, 40) { "00" } else { "" };
        s.push_str(&format!("#{zeros}{}", i.id));
        layout(r, l, &mut s, 3);
        s.push('=');
        if l == Lay::Plain {
            s.push(' ');
        }
        layout(r, l, &mut s, 3);
        s.push_str(&body(r, l, i, enc));
        s.push(';');
        sep(r, l, &mut s);
    }
    s.push_str("ENDSEC");
    semi(r, l, &mut s);
    s.push_str("END-ISO-10303-21");
    semi(r, l, &mut s);
    s
}

pub fn lay(r: &mut Rng) -> Lay {
    *r.pick(&[Lay::Plain, Lay::Blank, Lay::Comment])
}

/// smallest header
pub const MIN_HEADER: &str = "ISO-10303-21;\nHEADER;\nFILE_DESCRIPTION((''),'2;1');\nFILE_NAME('','2020-01-01T00:00:00',(''),(''),'','','');\nFILE_SCHEMA(('IFC4'));\nENDSEC;\n";

pub fn wrap(data: &str) -> String {
    format!("{MIN_HEADER}DATA;\n{data}\nENDSEC;\nEND-ISO-10303-21;\n")
}

pub fn simple_render(f: &GFile) -> String {
    render(&mut Rng::new(0), Lay::Plain, f, false)
}
