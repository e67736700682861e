//! Independent, strict reader of the STEP physical file format (ISO 10303-21).
//! Shares no code with the library under test: it is the observer of saved text.

use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    /// `$`
    Null,
    /// `*`
    Star,
    /// number as written
    Num(String),
    /// decoded text
    Str(String),
    /// enumeration without its dots
    Enum(String),
    Ref(u64),
    List(Vec<V>),
    Typed(String, Vec<V>),
    Bin(String),
    /// not observable (matches everything)
    Any,
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub id: u64,
    /// text between the equals sign and the semicolon without surrounding layout
    pub raw: String,
    /// keyword as written; empty for a complex instance
    pub kw: String,
    pub args: Vec<V>,
    /// the body has the shape `KEYWORD(args)`
    pub simple: bool,
}

#[derive(Clone, Debug, Default)]
pub struct File {
    pub header: Vec<(String, Vec<V>)>,
    pub insts: Vec<Inst>,
}

impl File {
    pub fn map(&self) -> BTreeMap<u64, &Inst> {
        self.insts.iter().map(|i| (i.id, i)).collect()
    }
    pub fn of_kw<'a>(&'a self, kw: &'a str) -> impl Iterator<Item = &'a Inst> + 'a {
        self.insts.iter().filter(move |i| i.kw == kw)
    }
    pub fn get(&self, id: u64) -> Option<&Inst> {
        self.insts.iter().find(|i| i.id == id)
    }
}

pub type R<T> = Result<T, String>;

pub struct P<'a> {
    s: &'a [u8],
    src: &'a str,
    pub i: usize,
    /// just behind the end mark
    pub end: usize,
}

/// position just behind the end mark
pub fn end_of(s: &str) -> Option<usize> {
    let mut p = P::new(s);
    p.file().ok().map(|_| p.end)
}

impl<'a> P<'a> {
    pub fn new(src: &'a str) -> Self {
        P { s: src.as_bytes(), src, i: 0, end: 0 }
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let tail: String = self.src.get(self.i..).unwrap_or("").chars().take(60).collect();
        Err(format!("{m} at byte {} near {tail:?}", self.i))
    }
    pub fn peek(&self) -> u8 {
        *self.s.get(self.i).unwrap_or(&0)
    }
    pub fn eof(&self) -> bool {
        self.i >= self.s.len()
    }
    fn starts(&self, t: &str) -> bool {
        self.s[self.i..].starts_with(t.as_bytes())
    }
    pub fn layout(&mut self) -> R<()> {
        loop {
            match self.peek() {
                b' ' | b'\t' | b'\r' | b'\n' if !self.eof() => self.i += 1,
                b'/' if self.starts("/*") => match self.src[self.i + 2..].find("*/") {
                    Some(n) => self.i += 2 + n + 2,
                    None => return self.err("unterminated comment"),
                },
                _ => return Ok(()),
            }
        }
    }
    pub fn expect(&mut self, t: &str) -> R<()> {
        if self.starts(t) {
            self.i += t.len();
            Ok(())
        } else {
            self.err(&format!("expected {t:?}"))
        }
    }
    fn keyword(&mut self) -> R<String> {
        let st = self.i;
        while self.peek().is_ascii_alphanumeric() || matches!(self.peek(), b'_' | b'-' | b'!') {
            self.i += 1;
        }
        if st == self.i || self.s[st].is_ascii_digit() {
            return self.err("keyword expected");
        }
        Ok(self.src[st..self.i].to_string())
    }
    fn digits(&mut self) -> usize {
        let st = self.i;
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        self.i - st
    }
    fn number(&mut self) -> R<String> {
        let st = self.i;
        if matches!(self.peek(), b'+' | b'-') {
            self.i += 1;
        }
        if self.digits() == 0 {
            return self.err("digit expected");
        }
        if self.peek() == b'.' {
            self.i += 1;
            self.digits();
            if matches!(self.peek(), b'E' | b'e') {
                self.exp()?;
            }
        } else if matches!(self.peek(), b'E' | b'e') {
            // tolerated: exponent without decimal point
            self.exp()?;
        }
        Ok(self.src[st..self.i].to_string())
    }
    fn exp(&mut self) -> R<()> {
        self.i += 1;
        if matches!(self.peek(), b'+' | b'-') {
            self.i += 1;
        }
        if self.digits() == 0 {
            return self.err("exponent digit expected");
        }
        Ok(())
    }
    fn string(&mut self) -> R<String> {
        self.expect("'")?;
        let mut out = String::new();
        loop {
            match self.src[self.i..].find('\'') {
                None => return self.err("unterminated string"),
                Some(n) => {
                    out.push_str(&self.src[self.i..self.i + n]);
                    self.i += n + 1;
                    if self.peek() == b'\'' {
                        out.push('\'');
                        self.i += 1;
                    } else {
                        return decode(&out);
                    }
                }
            }
        }
    }
    pub fn list(&mut self) -> R<Vec<V>> {
        self.expect("(")?;
        self.layout()?;
        let mut v = Vec::new();
        if self.peek() == b')' {
            self.i += 1;
            return Ok(v);
        }
        loop {
            v.push(self.value()?);
            self.layout()?;
            match self.peek() {
                b',' => {
                    self.i += 1;
                    self.layout()?;
                }
                b')' => {
                    self.i += 1;
                    return Ok(v);
                }
                _ => return self.err("`,` or `)` expected"),
            }
        }
    }
    pub fn value(&mut self) -> R<V> {
        self.layout()?;
        match self.peek() {
            b'$' => {
                self.i += 1;
                Ok(V::Null)
            }
            b'*' => {
                self.i += 1;
                Ok(V::Star)
            }
            b'\'' => Ok(V::Str(self.string()?)),
            b'"' => {
                let st = self.i;
                self.i += 1;
                while !self.eof() && self.peek() != b'"' {
                    self.i += 1;
                }
                self.expect("\"")?;
                Ok(V::Bin(self.src[st..self.i].to_string()))
            }
            b'.' => {
                self.i += 1;
                let k = self.keyword()?;
                self.expect(".")?;
                Ok(V::Enum(k))
            }
            b'#' => Ok(V::Ref(self.id()?)),
            b'(' => Ok(V::List(self.list()?)),
            b'+' | b'-' | b'0'..=b'9' => Ok(V::Num(self.number()?)),
            c if c.is_ascii_alphabetic() || c == b'!' || c == b'_' => {
                let k = self.keyword()?;
                self.layout()?;
                Ok(V::Typed(k, self.list()?))
            }
            _ => self.err("value expected"),
        }
    }
    fn id(&mut self) -> R<u64> {
        self.expect("#")?;
        let st = self.i;
        if self.digits() == 0 {
            return self.err("instance number expected");
        }
        self.src[st..self.i].parse().map_err(|e| format!("bad instance number: {e}"))
    }
    /// one `#n = BODY;`
    fn inst(&mut self) -> R<Inst> {
        let id = self.id()?;
        self.layout()?;
        self.expect("=")?;
        self.layout()?;
        let st = self.i;
        let mut simple = true;
        let (kw, args);
        if self.peek() == b'(' {
            // complex instance: (A(..)B(..))
            simple = false;
            self.i += 1;
            self.layout()?;
            while self.peek() != b')' {
                self.keyword()?;
                self.layout()?;
                self.list()?;
                self.layout()?;
            }
            self.i += 1;
            kw = String::new();
            args = Vec::new();
        } else {
            kw = self.keyword()?;
            self.layout()?;
            args = self.list()?;
        }
        let en = self.i;
        self.layout()?;
        self.expect(";")?;
        Ok(Inst { id, raw: self.src[st..en].to_string(), kw, args, simple })
    }
    /// a keyword of the file structure with its semicolon
    fn section(&mut self, k: &str) -> R<()> {
        self.expect(k)?;
        self.layout()?;
        self.expect(";")
    }
    pub fn file(&mut self) -> R<File> {
        let mut f = File::default();
        self.layout()?;
        self.section("ISO-10303-21")?;
        self.layout()?;
        self.section("HEADER")?;
        loop {
            self.layout()?;
            if self.starts("ENDSEC") {
                self.section("ENDSEC")?;
                break;
            }
            let k = self.keyword()?;
            self.layout()?;
            let a = self.list()?;
            self.layout()?;
            self.expect(";")?;
            f.header.push((k, a));
        }
        self.layout()?;
        self.section("DATA")?;
        loop {
            self.layout()?;
            if self.starts("ENDSEC") {
                self.section("ENDSEC")?;
                break;
            }
            f.insts.push(self.inst()?);
        }
        self.layout()?;
        self.section("END-ISO-10303-21")?;
        self.end = self.i;
        self.layout()?;
        if !self.eof() {
            return self.err("text after the end mark");
        }
        Ok(f)
    }
}

/// `\X2\hhhh..\X0\` decoding; anything else is kept
fn decode(s: &str) -> R<String> {
    if !s.contains('\\') {
        return Ok(s.to_string());
    }
    let mut out = String::new();
    let mut rest = s;
    while let Some(n) = rest.find('\\') {
        out.push_str(&rest[..n]);
        rest = &rest[n..];
        if let Some(body) = rest.strip_prefix("\\X2\\") {
            let end = body.find("\\X0\\").ok_or("\\X2\\ without \\X0\\")?;
            let hex = &body[..end];
            if hex.len() % 4 != 0 || !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
                return Err(format!("bad \\X2\\ run {hex:?}"));
            }
            let units: Vec<u16> =
                (0..hex.len() / 4).map(|i| u16::from_str_radix(&hex[4 * i..4 * i + 4], 16).unwrap()).collect();
            out.push_str(&String::from_utf16(&units).map_err(|e| e.to_string())?);
            rest = &body[end + 4..];
        } else {
            // an escaped backslash is one unit; it does not start a run
            let n = 1 + usize::from(rest[1..].starts_with('\\'));
            out.push_str(&rest[..n]);
            rest = &rest[n..];
        }
    }
    out.push_str(rest);
    Ok(out)
}

pub fn parse(s: &str) -> R<File> {
    P::new(s).file()
}

/// a single `KW(args)` body (with or without the semicolon)
pub fn parse_body(s: &str) -> R<(String, Vec<V>)> {
    let mut p = P::new(s);
    p.layout()?;
    let k = p.keyword()?;
    p.layout()?;
    let a = p.list()?;
    p.layout()?;
    if p.peek() == b';' {
        p.i += 1;
        p.layout()?;
    }
    if !p.eof() {
        return p.err("text after the body");
    }
    Ok((k, a))
}

pub fn is_real(n: &str) -> bool {
    n.contains(['.', 'E', 'e'])
}

/// the number a decimal text denotes (nearest double)
pub fn num_f64(n: &str) -> Option<f64> {
    let t = n.strip_suffix('.').unwrap_or(n);
    let t = t.replace(".E", ".0E").replace(".e", ".0e");
    t.parse().ok()
}

fn num_eq(a: &str, b: &str) -> bool {
    if is_real(a) || is_real(b) {
        match (num_f64(a), num_f64(b)) {
            (Some(x), Some(y)) => x.to_bits() == y.to_bits(),
            _ => false,
        }
    } else {
        match (a.parse::<i128>(), b.parse::<i128>()) {
            (Ok(x), Ok(y)) => x == y,
            _ => false,
        }
    }
}

fn long_bool(e: &str) -> &str {
    match e {
        "T" => "TRUE",
        "F" => "FALSE",
        "U" => "UNKNOWN",
        o => o,
    }
}

/// equal up to spelling
pub fn sem_eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Any, _) | (_, V::Any) => true,
        (V::Num(x), V::Num(y)) => num_eq(x, y),
        (V::Enum(x), V::Enum(y)) => long_bool(x) == long_bool(y),
        (V::List(x), V::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| sem_eq(p, q)),
        (V::Typed(k, x), V::Typed(l, y)) => {
            k.eq_ignore_ascii_case(l) && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| sem_eq(p, q))
        }
        _ => a == b,
    }
}

pub fn norm_kw(kw: &str) -> &str {
    match kw {
        "IFCWALLSTANDARDCASE" => "IFCWALL",
        "IFCSLABSTANDARDCASE" => "IFCSLAB",
        "IFCDOORSTANDARDCASE" => "IFCDOOR",
        "IFCWINDOWSTANDARDCASE" => "IFCWINDOW",
        k => k,
    }
}

/// first differing attribute (index, a, b)
pub fn args_diff(kw: &str, a: &[V], b: &[V]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} attributes instead of {}", b.len(), a.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if kw == "IFCGEOMETRICREPRESENTATIONSUBCONTEXT" && i == 2 {
            let dim = |v: &V| matches!(v, V::Num(_) | V::Star);
            if dim(x) && dim(y) {
                continue;
            }
        }
        if !sem_eq(x, y) {
            return Some(format!("attribute {} is {} instead of {}", i + 1, show(y), show(x)));
        }
    }
    None
}

/// plain canonical writing of a value (used to render generated files)
pub fn show(v: &V) -> String {
    let mut s = String::new();
    write_v(&mut s, v);
    s
}

pub fn quote(t: &str) -> String {
    format!("'{}'", t.replace('\'', "''"))
}

pub fn write_v(s: &mut String, v: &V) {
    match v {
        V::Null => s.push('$'),
        V::Star => s.push('*'),
        V::Num(n) => s.push_str(n),
        V::Str(t) => s.push_str(&quote(t)),
        V::Enum(e) => {
            let _ = write!(s, ".{e}.");
        }
        V::Ref(r) => {
            let _ = write!(s, "#{r}");
        }
        V::List(l) => {
            s.push('(');
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                write_v(s, x);
            }
            s.push(')');
        }
        V::Typed(k, l) => {
            s.push_str(k);
            write_v(s, &V::List(l.clone()));
        }
        V::Bin(b) => s.push_str(b),
        V::Any => s.push('?'),
    }
}

pub fn is_null(v: &V) -> bool {
    matches!(v, V::Null | V::Star)
}

impl V {
    pub fn r(&self) -> Option<u64> {
        match self {
            V::Ref(r) => Some(*r),
            _ => None,
        }
    }
    pub fn f(&self) -> Option<f64> {
        match self {
            V::Num(n) => num_f64(n),
            _ => None,
        }
    }
    pub fn s(&self) -> Option<&str> {
        match self {
            V::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn list(&self) -> &[V] {
        match self {
            V::List(l) => l,
            _ => &[],
        }
    }
    pub fn refs(&self) -> Vec<u64> {
        self.list().iter().filter_map(|v| v.r()).collect()
    }
}
