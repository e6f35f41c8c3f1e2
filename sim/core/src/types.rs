//! Instrumented user code: everything the caller of sscanf can supply. Each entry into it is a
//! callback: it is recorded, it is a scheduling point, and it can be told to fail, panic, stall,
//! parse again or miscount.
use crate::hist::{self, tag};
use crate::sched::quiet;
use crate::work::{self, cb, Act};
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Kind {
    Eval = 0,
    Deref = 1,
    Conv = 2,
    Man = 3,
    Map = 4,
    FMap = 5,
    From = 6,
    TryFrom = 7,
    Default = 8,
    Hold = 9,
    /// the text of an error is asked for
    Render = 10,
}
impl Kind {
    pub fn from_u8(v: u8) -> Kind {
        use Kind::*;
        [Eval, Deref, Conv, Man, Map, FMap, From, TryFrom, Default, Hold, Render][v as usize]
    }
}

/// payload of an injected panic
#[derive(Debug)]
pub struct ProbePanic(pub u64);
impl fmt::Display for ProbePanic {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "probe panic {}", self.0)
    }
}
impl std::error::Error for ProbePanic {}

// ---- tokens -----------------------------------------------------------------------------------
/// Carried by every value and error made by instrumented user code. Created once, dropped once.
pub struct Tok {
    pub op: u32,
    pub seq: u32,
    drop_op: u32,
}
impl Tok {
    pub fn new(seq: u32, drop_op: u32) -> Tok {
        let op = work::current_op();
        if op != u32::MAX {
            hist::push(tag::TOK_NEW, &[op as u64, seq as u64], &[]);
        }
        Tok { op, seq, drop_op }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        if self.op == u32::MAX {
            return;
        }
        hist::push(tag::TOK_DROP, &[self.op as u64, self.seq as u64], &[]);
        if self.drop_op != u32::MAX {
            let d = std::mem::replace(&mut self.drop_op, u32::MAX);
            work::run_op(d as usize);
        }
    }
}

// ---- observing values -------------------------------------------------------------------------
pub struct Out {
    pub s: String,
    pub base: usize,
    pub len: usize,
    pub op: u32,
    pub toks: Vec<u64>,
}
impl Out {
    pub fn tok(&mut self, t: &Tok) {
        self.toks.push(t.seq as u64);
        if t.op == self.op {
            self.s.push_str(&format!("#{} ", t.seq));
        } else {
            self.s.push_str(&format!("#FOREIGN({}.{}) ", t.op, t.seq));
        }
    }
    pub fn view(&mut self, t: &str) {
        let p = t.as_ptr() as usize;
        if p >= self.base && p + t.len() <= self.base + self.len {
            self.s.push_str(&format!("@{}+{}:{:?}", p - self.base, t.len(), t));
        } else {
            self.s.push_str(&format!("@COPY:{:?}", t));
        }
    }
}
pub trait Repr {
    fn repr(&self, o: &mut Out);
}
macro_rules! repr_display {
    ($($t:ty),*) => { $(impl Repr for $t {
        fn repr(&self, o: &mut Out) { o.s.push_str(&format!("{}", self)); }
    })* };
}
repr_display!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, bool);
use std::num::*;
repr_display!(NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroUsize);
repr_display!(NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128, NonZeroIsize);
impl Repr for f32 {
    fn repr(&self, o: &mut Out) {
        o.s.push_str(&format!("f{:08x}", self.to_bits()));
    }
}
impl Repr for f64 {
    fn repr(&self, o: &mut Out) {
        o.s.push_str(&format!("f{:016x}", self.to_bits()));
    }
}
impl Repr for char {
    fn repr(&self, o: &mut Out) {
        o.s.push_str(&format!("{:?}", self));
    }
}
impl Repr for String {
    fn repr(&self, o: &mut Out) {
        o.s.push_str(&format!("s{:?}", self));
    }
}
impl Repr for std::path::PathBuf {
    fn repr(&self, o: &mut Out) {
        o.s.push_str(&format!("p{:?}", self.to_str().unwrap_or("<not utf-8>")));
    }
}
impl Repr for &str {
    fn repr(&self, o: &mut Out) {
        o.view(self);
    }
}
impl Repr for std::borrow::Cow<'_, str> {
    fn repr(&self, o: &mut Out) {
        match self {
            std::borrow::Cow::Borrowed(b) => o.view(b),
            std::borrow::Cow::Owned(s) => o.s.push_str(&format!("@OWNED:{:?}", s)),
        }
    }
}
#[allow(deprecated)]
impl Repr for sscanf::HexNumber {
    fn repr(&self, o: &mut Out) {
        o.s.push_str(&format!("x{}", self.0));
    }
}
#[allow(deprecated)]
impl Repr for sscanf::FullF32 {
    fn repr(&self, o: &mut Out) {
        self.0.repr(o)
    }
}
#[allow(deprecated)]
impl Repr for sscanf::FullF64 {
    fn repr(&self, o: &mut Out) {
        self.0.repr(o)
    }
}
impl Repr for () {
    fn repr(&self, o: &mut Out) {
        o.s.push_str("()");
    }
}
impl<T: Repr> Repr for Option<T> {
    fn repr(&self, o: &mut Out) {
        match self {
            Some(v) => {
                o.s.push_str("Some(");
                v.repr(o);
                o.s.push(')');
            }
            None => o.s.push_str("None"),
        }
    }
}
macro_rules! repr_tuple {
    ($($n:ident)*) => { impl<$($n: Repr),*> Repr for ($($n,)*) {
        #[allow(non_snake_case)]
        fn repr(&self, o: &mut Out) {
            let ($($n,)*) = self;
            o.s.push('(');
            $( $n.repr(o); o.s.push(','); )*
            o.s.push(')');
        }
    } };
}
repr_tuple!(A B);
repr_tuple!(A B C);
repr_tuple!(A B C D);
repr_tuple!(A B C D E);
repr_tuple!(A B C D E F);
repr_tuple!(A B C D E F G);
repr_tuple!(A B C D E F G H I J K L M N Q);

/// the value as seen by the harness, without any effect on the simulation
pub fn show<T: Repr>(v: &T) -> String {
    let mut o = work::new_out();
    v.repr(&mut o);
    o.s
}

// ---- errors -----------------------------------------------------------------------------------
pub struct ProbeErr {
    pub tok: Tok,
    cause: Cause,
}
/// an error may have a source of its own, of any type
enum Cause {
    Nothing,
    Other(Other),
    Int(std::num::ParseIntError),
    Sscanf(sscanf::Error),
    /// a whole chain that looks like one of the library
    Chain(Box<sscanf::Error>),
}
#[derive(Debug)]
struct Other(Inner);
#[derive(Debug)]
struct Inner;
impl fmt::Display for Other {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("other")
    }
}
impl fmt::Display for Inner {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("inner")
    }
}
impl std::error::Error for Inner {}
impl std::error::Error for Other {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.0)
    }
}
pub const CAUSES: u32 = 7;
/// what the source() chain of the error of conversion K goes on with
pub fn cause_text(k: u32) -> &'static str {
    match k % CAUSES {
        2 => ">O>In",
        3 => ">I(InvalidDigit)",
        4 => ">Y(MF)",
        5 => ">Y(PF)>F(u8)>I(InvalidDigit)",
        _ => "",
    }
}
impl ProbeErr {
    fn new(k: u32) -> ProbeErr {
        let cause = match k % CAUSES {
            2 => Cause::Other(Other(Inner)),
            3 => Cause::Int("x".parse::<u8>().unwrap_err()),
            4 => Cause::Sscanf(sscanf::Error::MatchFailed),
            5 => Cause::Chain(Box::new(<u8 as sscanf::FromScanf>::from_str("x").unwrap_err())),
            _ => Cause::Nothing,
        };
        ProbeErr { tok: work::token(), cause }
    }
}
impl fmt::Debug for ProbeErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        work::shown()?;
        write!(f, "ProbeErr({}.{})", self.tok.op, self.tok.seq)
    }
}
impl fmt::Display for ProbeErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        work::shown()?;
        write!(f, "probe error {}.{}", self.tok.op, self.tok.seq)
    }
}
impl std::error::Error for ProbeErr {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        match &self.cause {
            Cause::Nothing => None,
            Cause::Other(e) => Some(e),
            Cause::Int(e) => Some(e),
            Cause::Sscanf(e) => Some(e),
            Cause::Chain(e) => Some(&**e),
        }
    }
}

/// The outcome of an error value: kind and source() chain.
pub fn describe(e: &sscanf::Error, o: &mut Out) {
    use std::error::Error;
    match e {
        sscanf::Error::MatchFailed => {
            o.s.push_str("MF");
            if e.source().is_some() {
                o.s.push_str("!source");
            }
        }
        sscanf::Error::ParsingFailed(_) => {
            o.s.push_str("PF");
            let mut cur = e.source();
            let mut n = 0;
            while let Some(c) = cur {
                o.s.push('>');
                describe_one(c, o);
                cur = c.source();
                n += 1;
                if n > 40 {
                    o.s.push_str(">...");
                    break;
                }
            }
        }
    }
}
/// Is the text of each error part of the text of the one that wraps it? `false`: Display
pub fn complete(e: &sscanf::Error, debug: bool) -> Result<(), String> {
    use std::error::Error;
    let text = |e: &dyn Error| if debug { format!("{e:?}") } else { format!("{e}") };
    let mut cur: &(dyn Error + 'static) = e;
    for _ in 0..60 {
        let Some(next) = cur.source() else { break };
        if cur.downcast_ref::<ProbeErr>().is_none() && cur.downcast_ref::<Other>().is_none() {
            let (a, b) = (text(cur), text(next));
            if !a.contains(&b) {
                return Err(format!("{a:?} does not contain {b:?}"));
            }
        }
        cur = next;
    }
    Ok(())
}
fn describe_one(c: &(dyn std::error::Error + 'static), o: &mut Out) {
    use sscanf::errors::*;
    if let Some(e) = c.downcast_ref::<FromScanfFailedError>() {
        o.s.push_str(&format!("S({})", e.type_name));
        if !e.to_string().contains(e.type_name) {
            o.s.push_str("!display");
        }
    } else if let Some(e) = c.downcast_ref::<ProbeErr>() {
        o.s.push_str("E(");
        let t = &e.tok;
        o.toks.push(t.seq as u64);
        if t.op == o.op {
            o.s.push_str(&format!("#{}", t.seq));
        } else {
            o.s.push_str(&format!("FOREIGN {}.{}", t.op, t.seq));
        }
        o.s.push(')');
    } else if c.downcast_ref::<Other>().is_some() {
        o.s.push('O');
    } else if c.downcast_ref::<Inner>().is_some() {
        o.s.push_str("In");
    } else if let Some(e) = c.downcast_ref::<sscanf::Error>() {
        o.s.push_str(match e {
            sscanf::Error::MatchFailed => "Y(MF)",
            sscanf::Error::ParsingFailed(_) => "Y(PF)",
        });
    } else if let Some(e) = c.downcast_ref::<FilterMapNoneError>() {
        o.s.push_str(&format!("N({})", e.field_name));
        if !e.to_string().contains(e.field_name) {
            o.s.push_str("!display");
        }
    } else if let Some(e) = c.downcast_ref::<MissingPrefixError>() {
        o.s.push_str(&format!("X({:?})", e));
    } else if let Some(e) = c.downcast_ref::<std::num::ParseIntError>() {
        o.s.push_str(&format!("I({:?})", e.kind()));
    } else if let Some(e) = c.downcast_ref::<std::num::ParseFloatError>() {
        o.s.push_str(&format!("Fl({e:?})"));
    } else if c.downcast_ref::<std::str::ParseBoolError>().is_some() {
        o.s.push('B');
    } else if let Some(e) = c.downcast_ref::<std::char::ParseCharError>() {
        o.s.push_str(&format!("C({e:?})"));
    } else if let Some(e) = c.downcast_ref::<std::num::TryFromIntError>() {
        let _ = e;
        o.s.push('T');
    } else {
        // FromStrFailedError<T>: its public type_name is part of its message
        let text = c.to_string();
        match text.strip_prefix("type ").and_then(|t| t.split_once(" failed to parse from a string")) {
            Some((name, _)) => o.s.push_str(&format!("F({})", short(name))),
            None => o.s.push_str(&format!("?({:?})", c)),
        }
    }
}
/// type name without module paths (outside of generic arguments)
pub fn short(name: &str) -> &str {
    let head = name.find('<').unwrap_or(name.len());
    match name[..head].rfind("::") {
        Some(i) => &name[i + 2..],
        None => name,
    }
}

// ---- FromStr probes ---------------------------------------------------------------------------
/// FromStr type with regex number R; K tells the placeholders of one site apart.
pub struct P<const R: u32, const K: u32> {
    pub tok: Tok,
    pub text: String,
}
pub const fn probe_regex(r: u32) -> &'static str {
    match r {
        0 => r"[a-z]+",
        1 => r"\d+",
        2 => r"[^,;]*",
        3 => r".+?",
        4 => r"(?:ab|c)+",
        5 => r"[A-Z][a-z]{0,3}",
        6 => r".",
        7 => r"ab|cd",
        8 => r"x?",
        // not usable: the patterns below make every site they are part of panic
        20 => r"[a-",
        21 => r"(\d)x",
        22 => r"a{1000}{1000}",
        23 => r"a(?P<n>b)",
        _ => panic!("no such probe regex"),
    }
}
impl<const R: u32, const K: u32> sscanf::RegexRepresentation for P<R, K> {
    const REGEX: &'static str = probe_regex(R);
}
impl<const R: u32, const K: u32> std::str::FromStr for P<R, K> {
    type Err = ProbeErr;
    fn from_str(s: &str) -> Result<Self, ProbeErr> {
        match cb(Kind::Conv, K, s) {
            Act::Err => Err(ProbeErr::new(K)),
            _ => {
                let text = String::from(s);
                Ok(P { text, tok: work::token() })
            }
        }
    }
}
impl<const R: u32, const K: u32> Repr for P<R, K> {
    fn repr(&self, o: &mut Out) {
        o.s.push_str(&format!("P{}(", K));
        o.tok(&self.tok);
        o.s.push_str(&format!("{:?})", self.text));
    }
}

// ---- hand-written FromScanf types -------------------------------------------------------------
/// Borrowing FromScanf implementation with capture groups of its own.
pub struct M<'t, const R: u32, const K: u32> {
    pub tok: Tok,
    pub whole: &'t str,
    pub caps: [Option<&'t str>; 4],
}
pub const fn man_regex(r: u32) -> &'static str {
    match r {
        0 => r"([a-z]+)-(\d+)",
        1 => r"(?:x(\d+)|y)",
        2 => r"[A-Z]+",
        3 => r"((\d)\d)(?:,(\d\d?))?",
        4 => r"([a-z]*)\|?([a-z]*)",
        5 => r"a(\d)|b(\d)",
        // NUM_CAPTURES of these disagrees with the pattern
        20 => r"([a-z]+)",
        21 => r"([a-z]+)-(\d+)",
        22 => r"[a-z]+",
        _ => panic!("no such probe regex"),
    }
}
pub const fn man_caps(r: u32) -> usize {
    match r {
        0 => 3,
        1 => 2,
        2 => 1,
        3 => 4,
        4 => 3,
        5 => 3,
        20 => 3,
        21 => 2,
        22 => 2,
        _ => panic!("no such probe regex"),
    }
}
impl<const R: u32, const K: u32> sscanf::RegexRepresentation for M<'_, R, K> {
    const REGEX: &'static str = man_regex(R);
}
impl<'t, const R: u32, const K: u32> sscanf::FromScanf<'t> for M<'t, R, K> {
    type Err = ProbeErr;
    const NUM_CAPTURES: usize = man_caps(R);
    fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, ProbeErr> {
        let whole = src.next().expect("captures of M").expect("the match of M").as_str();
        let act = cb(Kind::Man, K, whole);
        let drift = match act {
            Act::Err => return Err(ProbeErr::new(K)),
            Act::Drift(d) => d,
            _ => 0,
        };
        let want = (man_caps(R) as i64 - 1 + drift as i64).max(0) as usize;
        let mut caps = [None; 4];
        for i in 0..want {
            let c = src.next();
            if i + 1 < man_caps(R) {
                caps[i] = c.expect("captures of M").map(|m| m.as_str());
            }
        }
        Ok(M { tok: work::token(), whole, caps })
    }
}
impl<const R: u32, const K: u32> Repr for M<'_, R, K> {
    fn repr(&self, o: &mut Out) {
        o.s.push_str(&format!("M{}(", K));
        o.tok(&self.tok);
        o.view(self.whole);
        for i in 0..man_caps(R) - 1 {
            match self.caps[i] {
                Some(c) => {
                    o.s.push(' ');
                    o.view(c)
                }
                None => o.s.push_str(" -"),
            }
        }
        o.s.push(')');
    }
}

/// The same without borrowing from the input: derived types cannot contain borrowing types other
/// than `&str` and `Cow<str>`.
pub struct Mo<const R: u32, const K: u32> {
    pub tok: Tok,
    pub whole: String,
    pub caps: [Option<String>; 4],
}
impl<const R: u32, const K: u32> sscanf::RegexRepresentation for Mo<R, K> {
    const REGEX: &'static str = man_regex(R);
}
impl<'t, const R: u32, const K: u32> sscanf::FromScanf<'t> for Mo<R, K> {
    type Err = ProbeErr;
    const NUM_CAPTURES: usize = man_caps(R);
    fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, ProbeErr> {
        let m = <M<'t, R, K> as sscanf::FromScanf<'t>>::from_matches(src)?;
        let caps = m.caps.map(|c| c.map(String::from));
        Ok(Mo { whole: String::from(m.whole), caps, tok: m.tok })
    }
}
impl<const R: u32, const K: u32> Repr for Mo<R, K> {
    fn repr(&self, o: &mut Out) {
        o.s.push_str(&format!("O{}(", K));
        o.tok(&self.tok);
        o.s.push_str(&format!("{:?}", self.whole));
        for i in 0..man_caps(R) - 1 {
            match &self.caps[i] {
                Some(c) => o.s.push_str(&format!(" {:?}", c)),
                None => o.s.push_str(" -"),
            }
        }
        o.s.push(')');
    }
}

// ---- field conversions ------------------------------------------------------------------------
/// what a field conversion makes of its argument
pub struct W<T, const K: u32> {
    pub inner: T,
    pub tok: Tok,
}
impl<T: Repr, const K: u32> Repr for W<T, K> {
    fn repr(&self, o: &mut Out) {
        o.s.push_str(&format!("W{}(", K));
        o.tok(&self.tok);
        self.inner.repr(o);
        o.s.push(')');
    }
}
fn field_cb<T: Repr>(kind: Kind, tag: u32, v: &T) -> Act {
    let text = quiet(|| show(v));
    let act = cb(kind, tag, &text);
    quiet(|| drop(text));
    act
}
pub fn do_map<T: Repr, const K: u32>(inner: T) -> W<T, K> {
    field_cb(Kind::Map, K, &inner);
    W { inner, tok: work::token() }
}
pub fn do_fmap<T: Repr, const K: u32>(inner: T) -> Option<W<T, K>> {
    match field_cb(Kind::FMap, K, &inner) {
        Act::None => None,
        _ => Some(W { inner, tok: work::token() }),
    }
}
impl<T: Repr, const K: u32> From<T> for W<T, K> {
    fn from(inner: T) -> Self {
        field_cb(Kind::From, K, &inner);
        W { inner, tok: work::token() }
    }
}
/// result of a try_from conversion
pub struct V<T, const K: u32> {
    pub inner: T,
    pub tok: Tok,
}
impl<T: Repr, const K: u32> Repr for V<T, K> {
    fn repr(&self, o: &mut Out) {
        o.s.push_str(&format!("V{}(", K));
        o.tok(&self.tok);
        self.inner.repr(o);
        o.s.push(')');
    }
}
fn do_try<T: Repr, const K: u32>(inner: T) -> Result<V<T, K>, ProbeErr> {
    match field_cb(Kind::TryFrom, K, &inner) {
        Act::Err => Err(ProbeErr::new(K)),
        _ => Ok(V { inner, tok: work::token() }),
    }
}
macro_rules! try_from {
    ($($t:ty),*) => { $(impl<const K: u32> TryFrom<$t> for V<$t, K> {
        type Error = ProbeErr;
        fn try_from(inner: $t) -> Result<Self, ProbeErr> { do_try(inner) }
    })* };
}
try_from!(u8, i16, u32, u64, String, char);
impl<const R: u32, const J: u32, const K: u32> TryFrom<P<R, J>> for V<P<R, J>, K> {
    type Error = ProbeErr;
    fn try_from(inner: P<R, J>) -> Result<Self, ProbeErr> {
        do_try(inner)
    }
}
impl<'a, const K: u32> TryFrom<&'a str> for V<&'a str, K> {
    type Error = ProbeErr;
    fn try_from(inner: &'a str) -> Result<Self, ProbeErr> {
        do_try(inner)
    }
}

/// default expressions and Default::default
pub struct D<const K: u32> {
    #[allow(dead_code)]
    tok: Tok,
}
impl<const K: u32> Repr for D<K> {
    fn repr(&self, o: &mut Out) {
        o.toks.push(self.tok.seq as u64);
        if self.tok.op == o.op {
            o.s.push_str(&format!("D{}", K));
        } else {
            o.s.push_str(&format!("D{}FOREIGN({}.{})", K, self.tok.op, self.tok.seq));
        }
    }
}
pub fn dflt<const K: u32>() -> D<K> {
    cb(Kind::Default, K, "");
    D { tok: work::default_token() }
}
impl<const K: u32> Default for D<K> {
    fn default() -> Self {
        dflt::<K>()
    }
}

// ---- input expressions ------------------------------------------------------------------------
/// An input whose Deref yields another text on every use.
pub struct In {
    texts: &'static [String],
    n: std::cell::Cell<usize>,
}
impl In {
    pub fn new(texts: &'static [String]) -> In {
        In { texts, n: std::cell::Cell::new(0) }
    }
}
impl std::ops::Deref for In {
    type Target = str;
    fn deref(&self) -> &str {
        let i = self.n.get();
        self.n.set(i + 1);
        let t = &self.texts[i.min(self.texts.len() - 1)];
        cb(Kind::Deref, i as u32, "");
        t
    }
}
pub fn eval(i: &In) -> &In {
    cb(Kind::Eval, 0, "");
    i
}
