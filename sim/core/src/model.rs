//! The reference model: what the documentation says a call means. It works on a data description
//! of each call site (the same one the Rust source of the site is generated from) and shares no
//! code with sscanf: it has its own pattern per type, its own number parsing and its own walk over
//! the capture groups. Only the regex engine itself is trusted.
use crate::rng::Rng;
use crate::types::{cause_text, man_caps, man_regex, probe_regex, Kind};
use crate::work::{Fault, Mode, Op, Slot};

#[derive(Clone, Copy, Debug)]
pub enum Ty {
    Int(&'static str),
    NonZero(&'static str),
    F32,
    F64,
    Str,
    Cow,
    Strng,
    Char,
    Bool,
    Path,
    Hex,
    Full32,
    Full64,
    P(u32, u32),
    M(u32, u32),
    /// the same, owning its text
    Mo(u32, u32),
    Struct(&'static StructD),
    Enum(&'static EnumD),
}
#[derive(Clone, Copy, Debug)]
pub enum Opt {
    No,
    /// radix; prefix: 0 none, 1 optional, 2 required
    Radix(u32, u8),
    /// pattern and example texts (all of them match it)
    Regex(&'static str, &'static [&'static str]),
}
#[derive(Clone, Copy, Debug)]
pub struct Ph {
    pub ty: Ty,
    pub opt: Opt,
}
#[derive(Clone, Copy, Debug)]
pub enum Elem {
    Lit(&'static str),
    /// pattern text of an unescaped format, with example texts
    Raw(&'static str, &'static [&'static str]),
    Ph(Ph),
}
#[derive(Clone, Copy, Debug)]
pub enum Conv {
    No,
    Map(u32),
    FMap(u32),
    From(u32),
    TryFrom(u32),
}
#[derive(Clone, Copy, Debug)]
pub enum Src {
    /// n-th placeholder of the format
    Ph(usize, Conv),
    Default(u32),
}
#[derive(Debug)]
pub struct FieldD {
    pub name: &'static str,
    pub src: Src,
}
#[derive(Debug)]
pub struct StructD {
    pub name: &'static str,
    pub fmt: &'static [Elem],
    pub fields: &'static [FieldD],
}
#[derive(Debug)]
pub struct EnumD {
    pub name: &'static str,
    pub variants: &'static [StructD],
}
/// number of captures of a format, about
pub fn size(fmt: &[Elem]) -> usize {
    fmt.iter()
        .map(|e| match e {
            Elem::Ph(Ph { ty: Ty::Struct(d), .. }) => 1 + size(d.fmt),
            Elem::Ph(Ph { ty: Ty::Enum(d), .. }) => 1 + d.variants.iter().map(|v| 1 + size(v.fmt)).sum::<usize>(),
            Elem::Ph(_) => 1,
            _ => 0,
        })
        .sum()
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SrcKind {
    In,
    Str,
    String,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fs {
    No,
    /// derived or hand-written FromScanf
    Derived,
    /// through FromStr
    FromStr,
}
#[derive(Debug)]
pub struct SiteDef {
    pub name: &'static str,
    pub source: &'static str,
    pub fmt: &'static [Elem],
    pub src: SrcKind,
    pub bad: bool,
    pub get: bool,
    pub from_str: Fs,
}

pub fn phs(fmt: &'static [Elem]) -> Vec<Ph> {
    fmt.iter().filter_map(|e| if let Elem::Ph(p) = e { Some(*p) } else { None }).collect()
}

// ---- documented patterns ----------------------------------------------------------------------
fn bits(name: &str) -> u32 {
    match &name[1..] {
        "size" => 64,
        n => n.parse().unwrap(),
    }
}
fn signed(name: &str) -> bool {
    name.starts_with('i')
}
/// the greatest magnitude: of a positive or of a negative number
fn max_mag(name: &str, neg: bool) -> u128 {
    let b = bits(name);
    match (signed(name), neg) {
        (true, true) => 1u128 << (b - 1),
        (true, false) => (1u128 << (b - 1)) - 1,
        (false, true) => 0,
        (false, false) => u128::MAX >> (128 - b),
    }
}
/// how many digits the type can need in that radix
fn digits(name: &str, radix: u32) -> u32 {
    let mut v = u128::MAX >> (128 - bits(name));
    let mut n = 0;
    while v > 0 {
        v /= radix as u128;
        n += 1;
    }
    n
}
const DEC: [(&str, u32); 6] = [("8", 3), ("16", 5), ("32", 10), ("64", 20), ("128", 39), ("size", 20)];
fn dec_digits(name: &str) -> u32 {
    DEC.iter().find(|d| d.0 == &name[1..]).unwrap().1
}

pub fn pattern(ph: &Ph) -> String {
    match (ph.opt, ph.ty) {
        (Opt::Regex(r, _), _) => r.to_string(),
        (Opt::Radix(radix, prefix), Ty::Int(name)) => {
            let mut cls = String::new();
            for d in 0..radix {
                let c = std::char::from_digit(d, radix).unwrap();
                cls.push(c);
                if c.is_ascii_lowercase() {
                    cls.push(c.to_ascii_uppercase());
                }
            }
            let letter = match radix {
                2 => "bB",
                8 => "oO",
                _ => "xX",
            };
            let pre = match prefix {
                0 => String::new(),
                1 => format!("(?:0[{letter}])?"),
                _ => format!("0[{letter}]"),
            };
            let sign = if signed(name) { "[-+]?" } else { r"\+?" };
            format!("{sign}{pre}[{cls}]{{1,{}}}", digits(name, radix))
        }
        (Opt::Radix(..), _) => unreachable!("radix on a type that is no integer"),
        (Opt::No, ty) => match ty {
            Ty::Int(n) => format!(r"{}\d{{1,{}}}", if signed(n) { "[-+]?" } else { r"\+?" }, dec_digits(n)),
            Ty::NonZero(n) => {
                format!(r"{}[1-9]\d{{0,{}}}", if signed(n) { "[-+]?" } else { r"\+?" }, dec_digits(n) - 1)
            }
            Ty::F32 | Ty::F64 | Ty::Full32 | Ty::Full64 => {
                r"[+-]?(?i:inf|infinity|nan|(?:\d+|\d+\.\d*|\d*\.\d+)(?:e[+-]?\d+)?)".to_string()
            }
            Ty::Str | Ty::Cow | Ty::Strng => ".+?".to_string(),
            Ty::Char => ".".to_string(),
            Ty::Bool => "true|false".to_string(),
            Ty::Path => ".+".to_string(),
            Ty::Hex => "0[xX][0-9a-fA-F]+|[0-9a-fA-F]+".to_string(),
            Ty::P(r, _) => probe_regex(r).to_string(),
            Ty::M(r, _) | Ty::Mo(r, _) => man_regex(r).to_string(),
            Ty::Struct(d) => fmt_pattern(d.fmt),
            Ty::Enum(e) => {
                let v: Vec<String> = e.variants.iter().map(|v| format!("({})", fmt_pattern(v.fmt))).collect();
                format!("(?:{})", v.join("|"))
            }
        },
    }
}
pub fn fmt_pattern(fmt: &[Elem]) -> String {
    let mut s = String::new();
    for e in fmt {
        match e {
            Elem::Lit(l) => s.push_str(&regex::escape(l)),
            Elem::Raw(p, _) => s.push_str(p),
            Elem::Ph(p) => s.push_str(&format!("({})", pattern(p))),
        }
    }
    s
}
/// capture groups a placeholder stands for, its own included
pub fn caps(ph: &Ph) -> usize {
    match ph.ty {
        Ty::M(r, _) | Ty::Mo(r, _) => man_caps(r),
        Ty::Struct(d) => 1 + fmt_caps(d.fmt),
        Ty::Enum(e) => 1 + e.variants.iter().map(|v| 1 + fmt_caps(v.fmt)).sum::<usize>(),
        _ => 1,
    }
}
pub fn fmt_caps(fmt: &[Elem]) -> usize {
    fmt.iter().map(|e| if let Elem::Ph(p) = e { caps(p) } else { 0 }).sum()
}

// ---- the call sites, with compiled patterns ---------------------------------------------------
pub struct Catalogue {
    pub sites: &'static [SiteDef],
    regexes: Vec<std::cell::OnceCell<regex::Regex>>,
}
impl Catalogue {
    pub fn new(sites: &'static [SiteDef]) -> Catalogue {
        let regexes = sites.iter().map(|_| Default::default()).collect();
        Catalogue { sites, regexes }
    }
    pub fn regex(&self, i: usize) -> &regex::Regex {
        self.regexes[i].get_or_init(|| {
            let p = format!("^{}$", fmt_pattern(self.sites[i].fmt));
            regex::Regex::new(&p).unwrap_or_else(|e| panic!("model pattern {p}: {e}"))
        })
    }
}

// ---- predicting a call ------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub struct Cb {
    pub kind: Kind,
    pub tag: u32,
    pub text: String,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok(String),
    Err(String),
    Panic(u64),
    /// the call panics, whatever the message
    AnyPanic,
    /// anything but a value: a miscount without debug assertions
    NoValue,
    /// captures of a get-regex call
    Caps(String),
}
#[derive(Clone, Debug)]
pub struct Pred {
    /// callbacks, defaults excluded
    pub cbs: Vec<Cb>,
    /// tags of the default expressions evaluated when the call succeeds
    pub dflts: Vec<u32>,
    pub outcome: Outcome,
    /// a default expression is told to panic: its panic may come before this outcome
    pub or_panic: Option<u64>,
    /// text matched
    pub matched: bool,
    /// further callbacks after `cbs` are not predicted
    pub open_end: bool,
    /// nothing is known about the callbacks (unusable patterns)
    pub any_cbs: bool,
}

struct Val {
    repr: String,
}
enum Stop {
    Err(String),
    Panic(u64),
    Drift,
}
struct Walk<'a> {
    op: &'a Op,
    id: u64,
    text: &'a str,
    groups: Vec<Option<(usize, usize)>>,
    g: usize,
    cbs: Vec<Cb>,
    dflts: Vec<u32>,
    seq: u32,
}
impl Walk<'_> {
    /// a callback happens; what is it told to do?
    fn call(&mut self, kind: Kind, tag: u32, text: String) -> Result<Option<Fault>, Stop> {
        let idx = self.cbs.len() as u32;
        self.cbs.push(Cb { kind, tag, text });
        let mut act = None;
        for (s, f) in &self.op.faults {
            if *s != Slot::Cb(idx) {
                continue;
            }
            match (f, kind) {
                (Fault::Panic(_), _) => return Err(Stop::Panic((self.id + 1) * 10_000 + idx as u64)),
                (Fault::Err, Kind::Conv | Kind::Man | Kind::TryFrom) => act = Some(*f),
                (Fault::None, Kind::FMap) => act = Some(*f),
                (Fault::Drift(_), Kind::Man) => act = Some(*f),
                _ => {}
            }
        }
        Ok(act)
    }
    fn tok(&mut self) -> u32 {
        self.seq += 1;
        self.seq - 1
    }
    fn group(&mut self) -> Option<(usize, usize)> {
        self.g += 1;
        self.groups[self.g - 1]
    }
    fn str_of(&self, m: (usize, usize)) -> String {
        self.text[m.0..m.1].to_string()
    }
    fn view(&self, m: (usize, usize)) -> String {
        format!("@{}+{}:{:?}", m.0, m.1 - m.0, &self.text[m.0..m.1])
    }
    fn fail<T>(s: impl Into<String>) -> Result<T, Stop> {
        Err(Stop::Err(s.into()))
    }
    /// FromStr types: the conversion error is wrapped in one that names the type
    fn from_str(&mut self, ty: Ty, t: &str) -> Result<Val, Stop> {
        let ok = |s: String| Ok(Val { repr: s });
        match ty {
            Ty::Int(n) => match parse_int(n, t, 10) {
                Some((neg, v)) => ok(int_repr(neg, v)),
                None => Self::fail(format!("F({n})>{}", int_error(n, t, 10))),
            },
            Ty::NonZero(n) => match parse_int(n, t, 10) {
                Some((neg, v)) if v != 0 => ok(int_repr(neg, v)),
                _ => Self::fail(format!("F(NonZero<{n}>)>{}", nonzero_error(n, t))),
            },
            Ty::F32 => match t.parse::<f32>() {
                Ok(v) => ok(format!("f{:08x}", v.to_bits())),
                Err(e) => Self::fail(format!("F(f32)>Fl({e:?})")),
            },
            Ty::F64 => match t.parse::<f64>() {
                Ok(v) => ok(format!("f{:016x}", v.to_bits())),
                Err(e) => Self::fail(format!("F(f64)>Fl({e:?})")),
            },
            Ty::Full32 | Ty::Full64 => {
                let plain = if matches!(ty, Ty::Full32) { Ty::F32 } else { Ty::F64 };
                let name = if matches!(ty, Ty::Full32) { "FullF32" } else { "FullF64" };
                let r = match plain {
                    Ty::F32 => t.parse::<f32>().map(|_| ()),
                    _ => t.parse::<f64>().map(|_| ()),
                };
                if let Err(e) = r {
                    return Self::fail(format!("F({name})>Fl({e:?})"));
                }
                self.from_str(plain, t)
            }
            Ty::Strng => ok(format!("s{:?}", t)),
            Ty::Char => {
                let mut c = t.chars();
                match (c.next(), c.next()) {
                    (Some(c), None) => ok(format!("{:?}", c)),
                    _ => Self::fail(format!("F(char)>C({:?})", t.parse::<char>().unwrap_err())),
                }
            }
            Ty::Bool => match t {
                "true" | "false" => ok(t.to_string()),
                _ => Self::fail("F(bool)>B"),
            },
            Ty::Path => ok(format!("p{:?}", t)),
            Ty::Hex => {
                let d = t.strip_prefix("0x").or_else(|| t.strip_prefix("0X")).unwrap_or(t);
                match parse_int("usize", d, 16) {
                    Some((_, v)) => ok(format!("x{v}")),
                    None => Self::fail(format!("F(HexNumber)>{}", int_error("usize", d, 16))),
                }
            }
            Ty::P(r, k) => match self.call(Kind::Conv, k, t.to_string())? {
                Some(Fault::Err) => {
                    let s = self.tok();
                    Self::fail(format!("F(P<{r}, {k}>)>E(#{s}){}", cause_text(k)))
                }
                _ => {
                    let s = self.tok();
                    ok(format!("P{k}(#{s} {t:?})"))
                }
            },
            _ => unreachable!("no FromStr type"),
        }
    }
    fn ph(&mut self, ph: &Ph) -> Result<Val, Stop> {
        let m = self.group().expect("model: placeholder did not take part in the match");
        let t = self.str_of(m);
        match (ph.ty, ph.opt) {
            (Ty::Int(n), Opt::Radix(radix, prefix)) => {
                let (sign, rest) = match t.as_bytes().first() {
                    Some(b'+') => ("", &t[1..]),
                    Some(b'-') => ("-", &t[1..]),
                    _ => ("", &t[..]),
                };
                let lower = rest.to_ascii_lowercase();
                let pre = match radix {
                    2 => "0b",
                    8 => "0o",
                    _ => "0x",
                };
                let rest = if prefix > 0 { lower.strip_prefix(pre).unwrap_or(&lower) } else { &lower };
                match parse_int(n, &format!("{sign}{rest}"), radix) {
                    Some((neg, v)) => Ok(Val { repr: int_repr(neg, v) }),
                    None => Self::fail(int_error(n, &format!("{sign}{rest}"), radix)),
                }
            }
            (Ty::Str | Ty::Cow, _) => Ok(Val { repr: self.view(m) }),
            (Ty::M(r, k) | Ty::Mo(r, k), _) => {
                let owned = matches!(ph.ty, Ty::Mo(..));
                let n = man_caps(r);
                let act = self.call(Kind::Man, k, t)?;
                let first = self.g;
                let left = self.groups.len() - first;
                match act {
                    Some(Fault::Err) => {
                        let s = self.tok();
                        return Self::fail(format!("E(#{s}){}", cause_text(k)));
                    }
                    Some(Fault::Drift(d)) => {
                        let want = (n as i64 - 1 + d as i64).max(0) as usize;
                        if want.min(left) != n - 1 {
                            return Err(Stop::Drift);
                        }
                    }
                    _ => {}
                }
                let s = self.tok();
                let show = |w: &Self, m| if owned { format!("{:?}", w.str_of(m)) } else { w.view(m) };
                let mut o = format!("{}{k}(#{s} {}", if owned { "O" } else { "M" }, show(self, m));
                for _ in 1..n {
                    match self.group() {
                        Some(m) => o.push_str(&format!(" {}", show(self, m))),
                        None => o.push_str(" -"),
                    }
                }
                o.push(')');
                Ok(Val { repr: o })
            }
            (Ty::Struct(d), _) => self
                .fields(d.fmt, d.fields)
                .map(|f| Val { repr: format!("{}{{{}}}", d.name, f) })
                .map_err(|e| wrap(d.name, e)),
            (Ty::Enum(e), _) => {
                let mut found = None;
                for v in e.variants {
                    let inner = fmt_caps(v.fmt);
                    let hit = self.group().is_some();
                    if hit && found.is_none() {
                        let start = self.g;
                        let r = self.fields(v.fmt, v.fields).map_err(|x| wrap(e.name, x))?;
                        debug_assert_eq!(self.g, start + inner);
                        found = Some(format!("{}::{}{{{}}}", e.name, v.name, r));
                    } else {
                        self.g += inner;
                    }
                }
                Ok(Val { repr: found.expect("model: no variant matched") })
            }
            (ty, _) => self.from_str(ty, &t),
        }
    }
    /// the fields of a struct or variant: conversions in the order of the placeholders, values by field
    fn fields(&mut self, fmt: &'static [Elem], fields: &'static [FieldD]) -> Result<String, Stop> {
        let mut vals: Vec<String> = vec![String::new(); fields.len()];
        for (i, ph) in phs(fmt).iter().enumerate() {
            let at = fields
                .iter()
                .position(|f| matches!(f.src, Src::Ph(p, _) if p == i))
                .expect("model: placeholder without field");
            let v = self.ph(ph)?;
            let Src::Ph(_, conv) = fields[at].src else { unreachable!() };
            vals[at] = match conv {
                Conv::No => v.repr,
                Conv::Map(k) => {
                    self.call(Kind::Map, k, v.repr.clone())?;
                    format!("W{k}(#{} {})", self.tok(), v.repr)
                }
                Conv::From(k) => {
                    self.call(Kind::From, k, v.repr.clone())?;
                    format!("W{k}(#{} {})", self.tok(), v.repr)
                }
                Conv::FMap(k) => match self.call(Kind::FMap, k, v.repr.clone())? {
                    Some(Fault::None) => return Self::fail(format!("N({})", fields[at].name)),
                    _ => format!("W{k}(#{} {})", self.tok(), v.repr),
                },
                Conv::TryFrom(k) => match self.call(Kind::TryFrom, k, v.repr.clone())? {
                    Some(Fault::Err) => return Self::fail(format!("E(#{}){}", self.tok(), cause_text(k))),
                    _ => format!("V{k}(#{} {})", self.tok(), v.repr),
                },
            };
        }
        for (i, f) in fields.iter().enumerate() {
            if let Src::Default(k) = f.src {
                self.dflts.push(k);
                vals[i] = format!("D{k}");
            }
        }
        Ok(fields.iter().zip(&vals).map(|(f, v)| format!("{}={};", f.name, v)).collect())
    }
}
fn wrap(name: &str, e: Stop) -> Stop {
    match e {
        Stop::Err(c) => Stop::Err(format!("S({name})>{c}")),
        e => e,
    }
}
fn int_repr(neg: bool, v: u128) -> String {
    if neg && v != 0 {
        format!("-{v}")
    } else {
        format!("{v}")
    }
}
/// sign and magnitude of a number of that type
pub fn parse_int(name: &str, t: &str, radix: u32) -> Option<(bool, u128)> {
    let (neg, d) = if let Some(r) = t.strip_prefix('+') {
        (false, r)
    } else if signed(name) && t.starts_with('-') {
        (true, &t[1..])
    } else {
        (false, t)
    };
    if d.is_empty() {
        return None;
    }
    let mut v: u128 = 0;
    for c in d.chars() {
        if !c.is_ascii_alphanumeric() {
            return None;
        }
        v = v.checked_mul(radix as u128)?.checked_add(c.to_digit(radix)? as u128)?;
    }
    (v <= max_mag(name, neg)).then_some((neg, v))
}

/// the error std has for that text, with its kind
fn int_error(name: &str, t: &str, radix: u32) -> String {
    macro_rules! of {
        ($($t:ident)*) => { match name {
            $(stringify!($t) => $t::from_str_radix(t, radix).err(),)*
            _ => unreachable!("no integer type: {name}"),
        } };
    }
    let e = of!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    format!("I({:?})", e.expect("model: std accepts the text").kind())
}
fn nonzero_error(name: &str, t: &str) -> String {
    macro_rules! of {
        ($($t:ident)*) => { match name {
            $(stringify!($t) => t.parse::<std::num::NonZero<$t>>().err(),)*
            _ => unreachable!("no integer type: {name}"),
        } };
    }
    let e = of!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    format!("I({:?})", e.expect("model: std accepts the text").kind())
}

/// What the call means, told the same faults.
pub fn predict(cat: &Catalogue, op: &Op, id: usize) -> Pred {
    let site = &cat.sites[op.site];
    let text = op.texts[0].as_str();
    let mut p = Pred {
        cbs: vec![],
        dflts: vec![],
        outcome: Outcome::AnyPanic,
        or_panic: None,
        matched: false,
        open_end: false,
        any_cbs: false,
    };
    if site.bad {
        p.any_cbs = true;
        return p;
    }
    let re = cat.regex(op.site);
    if op.mode == Mode::GetRegex {
        let s = match re.captures(text) {
            Some(c) => c
                .iter()
                .map(|g| g.map_or("-;".to_string(), |m| format!("{}+{};", m.start(), m.len())))
                .collect(),
            None => "no match".to_string(),
        };
        p.outcome = Outcome::Caps(s);
        return p;
    }
    let mut w = Walk { op, id: id as u64, text, groups: vec![], g: 1, cbs: vec![], dflts: vec![], seq: 0 };
    let phl = phs(site.fmt);
    let r = (|| -> Result<Option<String>, Stop> {
        if op.mode == Mode::Scan && site.src == SrcKind::In {
            w.call(Kind::Eval, 0, String::new())?;
            w.call(Kind::Deref, 0, String::new())?;
        }
        if op.mode == Mode::FromStr && site.from_str == Fs::FromStr {
            p.matched = true;
            return w.from_str(phl[0].ty, text).map(|v| Some(v.repr));
        }
        let Some(c) = re.captures(text) else { return Ok(None) };
        w.groups = c.iter().map(|g| g.map(|m| (m.start(), m.end()))).collect();
        p.matched = true;
        let mut v = vec![];
        for ph in &phl {
            v.push(w.ph(ph)?.repr);
        }
        Ok(Some(match v.len() {
            0 => "()".to_string(),
            1 => v.pop().unwrap(),
            _ => format!("({},)", v.join(",")),
        }))
    })();
    // a panicking default expression; where among the conversions it is evaluated is not specified
    for (s, f) in &op.faults {
        if let (Slot::Dflt(n), Fault::Panic(_)) = (s, f) {
            if (*n as usize) < w.dflts.len() || (p.matched && !matches!(r, Ok(Some(_)))) {
                p.or_panic = Some((id as u64 + 1) * 10_000 + 5000 + *n as u64);
            }
        }
    }
    p.outcome = match r {
        Ok(Some(s)) => {
            // while the result is held
            if op.faults.iter().any(|f| matches!(f, (Slot::Hold, Fault::Panic(_)))) {
                Outcome::Panic((id as u64 + 1) * 10_000 + 9000)
            } else {
                Outcome::Ok(s)
            }
        }
        Ok(None) => Outcome::Err("MF".to_string()),
        Err(Stop::Err(c)) => Outcome::Err(format!("PF>{c}")),
        Err(Stop::Panic(id)) => Outcome::Panic(id),
        Err(Stop::Drift) => {
            if op.rel && op.mode != Mode::FromStr {
                p.open_end = true;
                Outcome::NoValue
            } else if op.rel {
                p.open_end = true;
                Outcome::NoValue
            } else {
                Outcome::AnyPanic
            }
        }
    };
    if let (Some(id), Outcome::Ok(_)) = (p.or_panic, &p.outcome) {
        p.outcome = Outcome::Panic(id);
        p.or_panic = None;
        p.open_end = true;
    }
    p.cbs = w.cbs;
    p.dflts = w.dflts;
    p
}

// ---- texts ------------------------------------------------------------------------------------
fn gen_int(name: &str, radix: u32, rng: &mut Rng) -> String {
    let neg = signed(name) && rng.chance(1, 3);
    let max = max_mag(name, neg);
    let v = match rng.below(8) {
        0 => max,
        1 => max.saturating_sub(rng.below(3) as u128),
        2 => 0,
        3 => 1,
        4 => max.saturating_add(rng.below(3) as u128), // may be out of range
        5 => rng.below(300) as u128 % (max.saturating_add(1).max(1)),
        _ => ((rng.next() as u128) << 64 | rng.next() as u128) >> rng.below(127),
    };
    let v = if rng.chance(7, 8) && v > max { v % max.max(1) } else { v };
    let mut s = String::new();
    let mut x = v;
    loop {
        let c = std::char::from_digit((x % radix as u128) as u32, radix).unwrap();
        s.insert(0, if rng.chance(1, 4) { c.to_ascii_uppercase() } else { c });
        x /= radix as u128;
        if x == 0 {
            break;
        }
    }
    if rng.chance(1, 10) {
        s.insert(0, '0');
    }
    let sign = if neg {
        "-"
    } else if rng.chance(1, 8) {
        "+"
    } else {
        ""
    };
    format!("{sign}{s}")
}
fn word(rng: &mut Rng, alphabet: &str, lo: usize, hi: usize) -> String {
    let a: Vec<char> = alphabet.chars().collect();
    (0..rng.range(lo, hi)).map(|_| *rng.pick(&a)).collect()
}
fn rng_alphabet(n: usize) -> &'static str {
    if n % 2 == 0 {
        "abc xyz019,.é"
    } else {
        "abcdef"
    }
}
/// text for .+? : anything but a line feed
fn free_text(rng: &mut Rng) -> String {
    let hi = *rng.pick(&[40, 100, 300]);
    if rng.chance(1, 400) {
        let n = *rng.pick(&[255, 256, 1024, 4095, 4096, 4097, 20_000, 65_535, 65_536, 70_000]);
        return word(rng, rng_alphabet(n), n, n);
    }
    match rng.below(16) {
        // what trimming, stripping or normalising would change
        0 => word(rng, " \t\r\0\u{b}\u{c}\u{85}\u{a0}\u{feff}\u{200b}\u{2028}\u{2029}\u{3000}", 1, 3),
        1 => format!("{}{}", word(rng, " ab", 1, 3), word(rng, " \r\t\u{a0}\u{feff}\0", 1, 2)),
        2 => format!("{}{}", word(rng, " \r\t\u{a0}\u{feff}\0", 1, 2), word(rng, "ab ", 1, 3)),
        3 => word(rng, "e\u{301}\u{1f1}ßſK\u{130}İı\u{ac00}\u{1100}\u{1161}\u{10ffff}\u{e000}", 1, 4),
        4 => word(rng, "abc xyz,.;:-_é漢😀", 30, hi),
        5 => word(rng, "\"'\\{}<>&%$#@!?*+()[]|^~`/\x7f\x1b", 1, 5),
        6 => rng.pick(&["null", "None", "true", "0", "-", "NaN", "0x1f", "inf", "\\n", "%d", "{}", "..", "end"]).to_string(),
        _ => word(rng, "abcxyz019 ,;-:é漢😀", 1, 6),
    }
}
pub fn gen_ph(ph: &Ph, rng: &mut Rng) -> String {
    match (ph.opt, ph.ty) {
        (Opt::Regex(_, samples), _) => rng.pick(samples).to_string(),
        (Opt::Radix(radix, prefix), Ty::Int(n)) => {
            let t = gen_int(n, radix, rng);
            let letter = match radix {
                2 => "b",
                8 => "o",
                _ => "x",
            };
            let with = prefix == 2 || (prefix == 1 && rng.chance(1, 2));
            if !with {
                return t;
            }
            let letter = if rng.chance(1, 3) { letter.to_uppercase() } else { letter.to_string() };
            match t.strip_prefix(['+', '-']) {
                Some(d) => format!("{}0{letter}{d}", &t[..1]),
                None => format!("0{letter}{t}"),
            }
        }
        (_, ty) => match ty {
            Ty::Int(n) | Ty::NonZero(n) => {
                if rng.chance(1, 40) {
                    "٣".to_string() // a digit, but not one FromStr knows
                } else {
                    gen_int(n, 10, rng)
                }
            }
            Ty::F32 | Ty::F64 | Ty::Full32 | Ty::Full64 => match rng.below(6) {
                0 => rng.pick(&["inf", "-Infinity", "NaN", "+nan", "1e999", "0", "-0.0", ".5", "5.", "1E-7"]).to_string(),
                1 => format!("{}", rng.next() as i32),
                _ => format!("{}.{}", rng.below(1000), rng.below(1000)),
            },
            Ty::Str | Ty::Cow | Ty::Strng => free_text(rng),
            Ty::Path => word(rng, "abc/. \\\r\t~", 1, 6),
            Ty::Char => word(rng, "aZ09é漢😀:. \t\r\0\u{301}\u{2028}\u{feff}\u{10ffff}\u{80}\u{7ff}\u{ffff}", 1, 1),
            Ty::Bool => rng.pick(&["true", "false"]).to_string(),
            Ty::Hex => {
                let h = gen_int("usize", 16, rng).replace(['+', '-'], "");
                if rng.chance(1, 2) {
                    format!("0x{h}")
                } else {
                    h
                }
            }
            Ty::P(r, _) => match r {
                0 => word(rng, "abcdefz", 1, 5),
                1 => word(rng, "0123456789", 1, 4),
                2 => word(rng, "abc 019-é\n\r\t", 0, 5),
                3 => free_text(rng),
                4 => (0..rng.range(1, 3)).map(|_| *rng.pick(&["ab", "c"])).collect(),
                5 => format!("{}{}", word(rng, "ABQZ", 1, 1), word(rng, "aqz", 0, 3)),
                6 => word(rng, "aZ0é漢😀 \r\t", 1, 1),
                7 => rng.pick(&["ab", "cd"]).to_string(),
                8 => rng.pick(&["x", ""]).to_string(),
                21 => format!("{}x", rng.below(10)),
                23 => "ab".to_string(),
                _ => "abc".to_string(),
            },
            Ty::M(r, _) | Ty::Mo(r, _) => match r {
                0 | 21 => format!("{}-{}", word(rng, "abcz", 1, 4), rng.below(1000)),
                1 => match rng.below(2) {
                    0 => "y".to_string(),
                    _ => format!("x{}", rng.below(100)),
                },
                2 => word(rng, "ABCZ", 1, 4),
                3 => {
                    let head = word(rng, "0123456789", 2, 2);
                    match rng.below(2) {
                        0 => head,
                        _ => format!("{head},{}", rng.below(100)),
                    }
                }
                4 => {
                    let (a, b) = (word(rng, "abz", 0, 3), word(rng, "abz", 0, 3));
                    format!("{a}{}{b}", rng.pick(&["|", ""]))
                }
                5 => format!("{}{}", rng.pick(&["a", "b"]), rng.below(10)),
                _ => word(rng, "abcz", 1, 4),
            },
            Ty::Struct(d) => gen_fmt(d.fmt, rng),
            Ty::Enum(e) => gen_fmt(rng.pick(e.variants).fmt, rng),
        },
    }
}
pub fn gen_fmt(fmt: &'static [Elem], rng: &mut Rng) -> String {
    let mut s = String::new();
    for e in fmt {
        match e {
            Elem::Lit(l) => s.push_str(l),
            Elem::Raw(_, samples) => s.push_str(*rng.pick::<&str>(samples)),
            Elem::Ph(p) => s.push_str(&gen_ph(p, rng)),
        }
    }
    s
}
/// a small change that may or may not keep the text matching
pub fn mutate(t: &str, rng: &mut Rng) -> String {
    let mut c: Vec<char> = t.chars().collect();
    let at = rng.below(c.len() + 1);
    let ch = *rng.pick(&['a', 'Z', '0', '9', ' ', '-', '+', ',', '.', ':', 'x', 'é', '\n', '{', '\\', 'g', '_', '\r', '\0', '\t', '\u{feff}', '\u{a0}', '\u{ff11}', 'ſ', '\u{212a}', 'k', 'E', 'F', 'B', 'X']);
    match rng.below(5) {
        0 if !c.is_empty() => {
            c.remove(at.min(c.len() - 1));
        }
        1 if !c.is_empty() => {
            let i = at.min(c.len() - 1);
            c[i] = ch;
        }
        2 if c.len() > 1 => {
            let i = rng.below(c.len() - 1);
            c.swap(i, i + 1);
        }
        3 => c.truncate(at),
        _ => c.insert(at, ch),
    }
    c.into_iter().collect()
}
