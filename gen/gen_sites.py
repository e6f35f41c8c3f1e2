#!/usr/bin/env python3
"""Generates the simulated call sites: Rust source and, from the same description, the data the
reference model works on. Usage: gen_sites.py SEED OUT.rs"""
import random, sys

seed, out_path = int(sys.argv[1]), sys.argv[2]
rnd = random.Random(seed * 7919 + 17)


def rs(s):
    """a Rust string literal"""
    o = '"'
    for c in s:
        if c in '"\\':
            o += "\\" + c
        elif c in "\n\t":
            o += {"\n": "\\n", "\t": "\\t"}[c]
        else:
            o += c
    return o + '"'


def raw(s):
    h = "#"
    while '"' + h in s:
        h += "#"
    return "r" + h + '"' + s + '"' + h


FANCY = '@!~%;=é漢"\t\n\'\\'  # none of these is ever part of a placeholder without a custom pattern


def escaped(s):
    """like rs, with a choice of escape sequences; s has no custom patterns"""
    o = '"'
    for i, c in enumerate(s):
        if c in FANCY and i and rnd.random() < 0.1:
            o += "\\\n      "
            if c in "\t\n":
                o += {"\t": "\\t", "\n": "\\n"}[c]
                continue
        if c not in FANCY or rnd.random() < 0.4:
            o += rs(c)[1:-1]
        else:
            forms = ["\\u{%x}" % ord(c), "\\u{0_%X_}" % ord(c)]
            if ord(c) < 128:
                forms.append("\\x%02x" % ord(c))
            if c in "\t\n'":
                forms.append({"\t": "\\t", "\n": "\\n", "'": "\\'"}[c])
            o += rnd.choice(forms)
    return o + '"'


# ---- types --------------------------------------------------------------------------------------
class Ty:
    """rust: as written in an argument list; model: the model's name for it"""

    def __init__(self, rust, model, life=False, plain=None, opts=()):
        self.rust, self.model, self.life, self.opts = rust, model, life, opts
        self.plain = plain or rust  # inside a placeholder


INTS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]
ints = {n: Ty(n, 'Ty::Int("%s")' % n) for n in INTS}
nonzero = {}
for n in INTS:
    nm = "NonZero" + {"u": "U", "i": "I"}[n[0]] + n[1:]
    nonzero[n] = Ty("std::num::" + nm, 'Ty::NonZero("%s")' % n)
STR = Ty("&'a str", "Ty::Str", life=True, plain="str")
COW = Ty("std::borrow::Cow<'a, str>", "Ty::Cow", life=True, plain="std::borrow::Cow<str>")
STRING = Ty("String", "Ty::Strng")
CHAR = Ty("char", "Ty::Char")
BOOL = Ty("bool", "Ty::Bool")
F32 = Ty("f32", "Ty::F32")
F64 = Ty("f64", "Ty::F64")
PATH = Ty("std::path::PathBuf", "Ty::Path")
HEX = Ty("sscanf::HexNumber", "Ty::Hex")
FULL32 = Ty("sscanf::FullF32", "Ty::Full32")
FULL64 = Ty("sscanf::FullF64", "Ty::Full64")
kcount = [0]


def newk():
    kcount[0] += 1
    return kcount[0]


def P(r):
    k = newk()
    return Ty("P<%d, %d>" % (r, k), "Ty::P(%d, %d)" % (r, k))


def M(r):
    k = newk()
    return Ty("M<'a, %d, %d>" % (r, k), "Ty::M(%d, %d)" % (r, k), life=True, plain="M<%d, %d>" % (r, k))


def Mo(r):
    k = newk()
    return Ty("Mo<%d, %d>" % (r, k), "Ty::Mo(%d, %d)" % (r, k))


# custom patterns: (pattern, as written between the slashes, samples)
CUSTOM_STR = [
    (r"[^m]+", r"[^m]+", ["a", "rando", "x y"]),
    (r"\d{2}", r"\d{2}", ["12", "07"]),
    (r"a/b", r"a\/b", ["a/b"]),
    (r"(?:ab)+|c", r"(?:ab)+|c", ["ab", "abab", "c"]),
    (r"\w*?", r"\w*?", ["", "a", "zz9"]),
    (r"[a-c]{1,3}\.?", r"[a-c]{1,3}\.?", ["a", "abc.", "b."]),
    (r"(?i:yes|no)", r"(?i:yes|no)", ["YES", "no", "nO"]),
    (r"\{[a-z]\}", r"\{[a-z]\}", ["{a}", "{z}"]),
]
CUSTOM_INT = [
    (r"\d{2}", r"\d{2}", ["12", "07", "99"]),
    (r"\d+", r"\d+", ["0", "255", "256", "99999999999999999999999999999999999999999", "7"]),
    (r"[a-z]{2}", r"[a-z]{2}", ["ab"]),
    (r"[-+]?\d{1,2}", r"[-+]?\d{1,2}", ["-1", "+5", "42", "-0"]),
    (r"\d{0,3}", r"\d{0,3}", ["", "1", "300"]),
]


class Ph:
    def __init__(self, ty, opt=None):
        self.ty, self.opt = ty, opt  # opt: None | ("r", radix, prefix, text) | ("c", pat, text, samples)

    def cfg(self):
        if self.opt is None:
            return ""
        if self.opt[0] == "r":
            return ":" + self.opt[3]
        return ":/" + self.opt[2] + "/"

    def model(self):
        if self.opt is None:
            o = "Opt::No"
        elif self.opt[0] == "r":
            o = "Opt::Radix(%d, %d)" % (self.opt[1], self.opt[2])
        else:
            o = "Opt::Regex(%s, &[%s])" % (rs(self.opt[1]), ", ".join(rs(x) for x in self.opt[3]))
        return "Ph { ty: %s, opt: %s }" % (self.ty.model, o)


def radix(r, prefix, text):
    return ("r", r, prefix, text)


RADIX = [radix(16, 1, "x"), radix(8, 1, "o"), radix(2, 1, "b"), radix(16, 2, "#x"), radix(16, 2, "x#"),
         radix(8, 2, "#o"), radix(2, 2, "b#"), radix(10, 0, "r10"), radix(2, 0, "r2"), radix(8, 0, "r8"),
         radix(16, 0, "r16"), radix(36, 0, "r36"), radix(11, 0, "r11"), radix(7, 0, "r7")]


def custom(c):
    return ("c",) + c


class Lit:
    def __init__(self, s):
        self.s = s

    def model(self):
        return "Elem::Lit(%s)" % rs(self.s)


class Raw:
    def __init__(self, p, samples):
        self.p, self.samples = p, samples

    def model(self):
        return "Elem::Raw(%s, &[%s])" % (rs(self.p), ", ".join(rs(x) for x in self.samples))


def elem_model(e):
    return "Elem::Ph(%s)" % e.model() if isinstance(e, Ph) else e.model()


def fmt_model(elems):
    return "&[" + ", ".join(elem_model(e) for e in elems) + "]"


def has_life(elems):
    return any(isinstance(e, Ph) and e.ty.life for e in elems)


LITS = [" ", ",", "; ", ":", "-", "=", " - ", "x", "é", "->", "(", ") ", "[", "]", ".", "*", "+", "?", "|", "^", "$",
        "#", "/", "&", "~", "{", "}", "{ }", "a.b", "1", "<", "@", "!", "%", "漢", "(?:", "a{2}", "::", "\\", "\"", "\t", "\n", "'", "\\d", "\"#", "~;\t", "\\\\n"]


def lit():
    return Lit(rnd.choice(LITS[:8]) if rnd.random() < 0.6 else rnd.choice(LITS))


# ---- emitting format strings ------------------------------------------------------------------
def literal(text, is_raw):
    """a Rust literal for the format string text"""
    return raw(text) if is_raw else rs(text) if ":/" in text else escaped(text)


def brace(s):
    return s.replace("{", "{{").replace("}", "}}")


# ---- derived types ----------------------------------------------------------------------------
out = []
types = []  # emitted derived types
sites = []


def emit(s):
    out.append(s)


def alias(t):
    """the macro reads the type of from and try_from as an expression, so generic types need a name"""
    if "<" not in t:
        return t
    n = "T" + "".join(c if c.isalnum() else "_" for c in t)
    if n not in aliases:
        aliases.add(n)
        emit("#[allow(non_camel_case_types)]\npub type %s = %s;" % (n, t))
    return n


aliases = set()


class Field:
    """kind: ph / default; conv: None, map, fmap, from, try"""

    def __init__(self, name, ph=None, conv=None, default=None):
        self.name, self.ph, self.conv, self.default, self.k = name, ph, conv, default, None
        if conv or default:
            self.k = newk()

    def decl_type(self):
        if self.default:
            return "D<%d>" % self.k
        t = self.ph.ty.rust
        return {None: t, "map": "W<%s, %d>", "fmap": "W<%s, %d>", "from": "W<%s, %d>", "try": "V<%s, %d>"}[self.conv] % (
            (t, self.k) if self.conv else ())

    def attr(self):
        if self.default == "trait":
            return "#[sscanf(default)] "
        if self.default == "expr":
            return "#[sscanf(default = dstcore::dflt::<%d>())] " % self.k
        if self.default == "block":
            return "#[sscanf(default = { let d = dstcore::dflt::<%d>(); d })] " % self.k
        t = self.ph.ty.rust
        a = alias(t) if self.conv in ("from", "try") else t
        return {None: "", "map": "#[sscanf(map = |x: %s| dstcore::do_map::<_, %d>(x))] " % (t, self.k or 0),
                "fmap": "#[sscanf(filter_map = |x: %s| dstcore::do_fmap::<_, %d>(x))] " % (t, self.k or 0),
                "from": "#[sscanf(from = %s)] " % a, "try": "#[sscanf(try_from = %s)] " % a}[self.conv]

    def model(self, phs):
        if self.default:
            src = "Src::Default(%d)" % self.k
        else:
            c = {None: "Conv::No", "map": "Conv::Map(%d)", "fmap": "Conv::FMap(%d)", "from": "Conv::From(%d)",
                 "try": "Conv::TryFrom(%d)"}[self.conv]
            src = "Src::Ph(%d, %s)" % (phs.index(self.ph), c % self.k if self.conv else c)
        return "FieldD { name: %s, src: %s }" % (rs(self.name), src)


class Body:
    """format and fields of a struct or variant"""

    def __init__(self, elems, fields, named, unescaped=False, refs=None, transparent=False):
        self.elems, self.fields, self.named, self.unescaped = elems, fields, named, unescaped
        self.transparent = transparent
        self.phs = [e for e in elems if isinstance(e, Ph)]
        # which placeholders name their field
        self.refs = refs if refs is not None else self.pick_refs()

    def order(self):
        return [next(i for i, f in enumerate(self.fields) if f.ph is p) for p in self.phs]

    def pick_refs(self):
        """a set of placeholders to be named such that the others are in field order"""
        o = self.order()
        refs = {i for i in range(len(o)) if rnd.random() < 0.4}
        while True:
            rest = [o[i] for i in range(len(o)) if i not in refs]
            if rest == sorted(rest):
                return refs
            bad = next(i for i in range(len(o)) if i not in refs and
                       any(o[j] > o[i] for j in range(i) if j not in refs))
            refs.add(bad)

    def text(self):
        s, n = "", 0
        for e in self.elems:
            if isinstance(e, Lit):
                s += brace(e.s)
            elif isinstance(e, Raw):
                s += brace(e.p)
            else:
                name = ""
                if n in self.refs:
                    i = self.order()[n]
                    name = self.fields[i].name
                    if self.named and rnd.random() < 0.2:
                        name = str(i)
                s += "{" + name + e.cfg() + "}"
                n += 1
        return s

    def attr(self):
        if self.transparent:
            return "#[sscanf(transparent)]"
        t = self.text()
        if self.unescaped:
            if rnd.random() < 0.5:
                return "#[sscanf(%s)]" % raw(t)
            return "#[sscanf(format_unescaped = %s)]" % literal(t, rnd.random() < 0.5)
        if rnd.random() < 0.4:
            return "#[sscanf(%s)]" % literal(t, False)
        return "#[sscanf(format = %s)]" % literal(t, rnd.random() < 0.5)

    def life(self):
        return any(f.ph is not None and f.ph.ty.life for f in self.fields)

    def decl(self, pub):
        if not self.fields:
            return ""
        v = "pub " if pub else ""
        if self.named:
            return "{ " + ", ".join("%s%s%s: %s" % (f.attr(), v, f.name, f.decl_type()) for f in self.fields) + " }"
        return "(" + ", ".join("%s%s%s" % (f.attr(), v, f.decl_type()) for f in self.fields) + ")"

    def model(self, name):
        return "StructD { name: %s, fmt: %s, fields: &[%s] }" % (
            rs(name), fmt_model(self.elems), ", ".join(f.model(self.phs) for f in self.fields))

    def pat(self):
        """binding pattern and repr code"""
        if not self.fields:
            return "", ""
        if self.named:
            p = " { " + ", ".join("%s: f%d" % (f.name, i) for i, f in enumerate(self.fields)) + " }"
        else:
            p = "(" + ", ".join("f%d" % i for i in range(len(self.fields))) + ")"
        code = " ".join('o.s.push_str("%s="); f%d.repr(o); o.s.push(\';\');' % (f.name, i)
                        for i, f in enumerate(self.fields))
        return p, code


def emit_struct(name, body, mod=None):
    """mod: a module of its own, for types of the same name"""
    life = "<'a>" if body.life() else ""
    if mod:
        emit("pub mod %s { use super::*;" % mod)
    emit("#[derive(sscanf::FromScanf)]\n%s\npub struct %s%s %s%s" % (
        body.attr(), name, life, body.decl(True), "" if body.named and body.fields else ";"))
    p, code = body.pat()
    emit("impl%s Repr for %s%s { fn repr(&self, o: &mut Out) { let %s%s = self; o.s.push_str(\"%s{\"); %s o.s.push('}'); } }" % (
        life, name, life, name, p, name, code))
    return emit_type("Struct", name, life, body.model(name), mod)


def emit_type(kind, name, life, model, mod):
    emit("pub static %s_D: %sD = %s;" % (name.upper(), kind, model))
    path = name
    if mod:
        emit("}")
        path = mod + "::" + name
    t = Ty(path + life, "Ty::%s(&%s%s_D)" % (kind, mod + "::" if mod else "", name.upper()), life=bool(life), plain=path)
    types.append(t)
    return t


def emit_enum(name, variants, autogen=None, skipped=(), mod=None):
    """variants: (name, body, attr or None)"""
    if mod:
        emit("pub mod %s { use super::*;" % mod)
    life = "<'a>" if any(b.life() for _, b, _ in variants) else ""
    v = []
    for vn, b, attr in variants:
        v.append("%s %s%s" % (b.attr() if attr is None else attr, vn, b.decl(False)))
    for vn, text in skipped:
        v.insert(rnd.randrange(len(v) + 1), text + " " + vn)
    emit("#[allow(dead_code)]\n#[derive(sscanf::FromScanf)]\n%s\npub enum %s%s { %s }" % (autogen or "", name, life, ", ".join(v)))
    arms = []
    for vn, b, _ in variants:
        p, code = b.pat()
        arms.append("%s::%s%s => { o.s.push_str(\"%s::%s{\"); %s o.s.push('}'); }" % (name, vn, p, name, vn, code))
    if skipped:
        arms.append("_ => o.s.push_str(\"a variant that is never parsed\"),")
    emit("impl%s Repr for %s%s { fn repr(&self, o: &mut Out) { match self { %s } } }" % (life, name, life, " ".join(arms)))
    model = "EnumD { name: %s, variants: &[%s] }" % (rs(name), ", ".join(b.model(vn) for vn, b, _ in variants))
    return emit_type("Enum", name, life, model, mod)


# ---- call sites -------------------------------------------------------------------------------
def site(elems, src=None, unescaped=False, bad=False, get=None, from_str=None, types_in=None, note="", plain_literal=False):
    """types_in: per placeholder 'in' (type inside), 'pos' (next argument), 'idx' (argument by index)"""
    i = len(sites)
    phs = [e for e in elems if isinstance(e, Ph)]
    where = types_in or [rnd.choice(["in", "in", "pos", "idx"]) for _ in phs]
    # arguments: those of 'pos' in order, then those of 'idx'; an index may also name an argument used before
    args, text = [], ""
    pos = [p.ty for p, w in zip(phs, where) if w == "pos"]
    args = list(pos)
    n = -1
    for e in elems:
        if isinstance(e, Lit):
            text += brace(e.s)
        elif isinstance(e, Raw):
            text += brace(e.p)
        else:
            n += 1
            if where[n] == "in":
                text += "{" + e.ty.plain + e.cfg() + "}"
            elif where[n] == "pos":
                text += "{" + e.cfg() + "}"
            else:
                if e.ty in args:
                    k = args.index(e.ty)
                else:
                    k = len(args)
                    args.append(e.ty)
                text += "{%d%s}" % (k, e.cfg())

    def arg(t):
        return {"Ty::Str": "&str", "Ty::Cow": "std::borrow::Cow<str>"}.get(t.model, t.plain)

    lits = rs(text) if plain_literal else literal(text, True if "\\" in text and rnd.random() < 0.6 else rnd.random() < 0.3)
    tail = "".join(", " + arg(t) for t in args)
    if src is None:
        src = rnd.choice(["In", "In", "In", "Str", "String"])
    if get is None:
        get = not unescaped
    mac = "sscanf_unescaped" if unescaped else rnd.choice(["sscanf", "sscanf", "sscanf", "scanf"])
    if src == "In":
        pre, expr = "let inp = cx.input();", rnd.choice(["eval(&inp)", "*eval(&inp)", "{ eval(&inp) }"])
    elif src == "Str":
        pre, expr = "let inp = cx.text();", rnd.choice(["inp", "&inp", "inp[..]"])
    else:
        pre, expr = "let inp = String::from(cx.text()); cx.set_base(&inp);", rnd.choice(["inp", "&inp", "inp.as_str()"])
    call = "sscanf::%s!(%s, %s%s)" % (mac, expr, lits, tail)
    emit("fn site_%d(cx: &mut SiteCx) { %s let r = %s; cx.ret(r); }" % (i, pre, call))
    if get:
        emit("fn get_%d(cx: &mut SiteCx) { let r = sscanf::sscanf_get_regex!(%s%s); cx.regex(r); }" % (i, lits, tail))
    fs = "Fs::No"
    if from_str:
        t = phs[0].ty
        emit("fn fs_%d(cx: &mut SiteCx) { let inp = cx.text(); let r = <%s as sscanf::FromScanf>::from_str(inp); cx.ret(r); }" % (i, t.plain))
        fs = "Fs::" + from_str
    sites.append(dict(i=i, call=call, fmt=fmt_model(elems), src=src, bad=bad, get=get, fs=fs, note=note))
    return i


def twin_sites(elems, src, n):
    """one macro_rules macro with a call site in it, expanded several times (the arguments have to be
    written inside: sscanf! does not resolve names that come from outside of the macro)"""
    k = len(sites)
    text = rs("".join(brace(e.s) if isinstance(e, Lit) else "{" + e.ty.plain + "}" for e in elems))
    pre, expr = ("let inp = $cx.input();", "eval(&inp)") if src == "In" else ("let inp = $cx.text();", "inp")
    emit("macro_rules! twin_%d { ($cx:ident) => { %s let r = sscanf::sscanf!(%s, %s); $cx.ret(r); } }" % (k, pre, expr, text))
    emit("macro_rules! twin_get_%d { ($cx:ident) => { let r = sscanf::sscanf_get_regex!(%s); $cx.regex(r); } }" % (k, text))
    for _ in range(n):
        i = len(sites)
        emit("fn site_%d(cx: &mut SiteCx) { twin_%d!(cx); } fn get_%d(cx: &mut SiteCx) { twin_get_%d!(cx); }" % (i, k, i, k))
        call = "twin: sscanf!(%s, %s)" % (expr, text)
        sites.append(dict(i=i, call=call, fmt=fmt_model(elems), src=src, bad=False, get=True, fs="Fs::No", note=""))


def T(t, **kw):
    """the whole text is one value: also through from_str"""
    return site([Ph(t)], **kw)


# ---- leaf choice ------------------------------------------------------------------------------
def leaf(life=True, probe=0.45, top=False):
    r = rnd.random()
    if r < probe:
        if rnd.random() < 0.25:
            return Ph(P(0), custom(rnd.choice(CUSTOM_STR)))
        return Ph(P(rnd.randrange(9)))
    if r < probe + 0.12:
        return Ph(rnd.choice([Mo, M] if top else [Mo])(rnd.randrange(6)))
    r = rnd.random()
    if r < 0.35:
        t = ints[rnd.choice(INTS)]
        o = rnd.random()
        if o < 0.4:
            return Ph(t, rnd.choice(RADIX))
        if o < 0.55:
            return Ph(t, custom(rnd.choice(CUSTOM_INT)))
        return Ph(t)
    if r < 0.42:
        return Ph(nonzero[rnd.choice(INTS)])
    if r < 0.62 and life:
        t = rnd.choice([STR, COW])
        return Ph(t, custom(rnd.choice(CUSTOM_STR))) if rnd.random() < 0.3 else Ph(t)
    if r < 0.72:
        return Ph(STRING, custom(rnd.choice(CUSTOM_STR))) if rnd.random() < 0.2 else Ph(STRING)
    return Ph(rnd.choice([CHAR, BOOL, F32, F64, PATH, HEX, CHAR]))


TRY = ("u8", "i16", "u32", "u64", "String", "char")


def body(nested=(), tuple_=None, nmax=4, life=True):
    nested = [t for t in nested if not t.life]
    named = rnd.random() < 0.6 if tuple_ is None else not tuple_
    n = rnd.randint(1, nmax)
    fields = []
    for i in range(n):
        name = "abcdefg"[i] if named else str(i)
        if rnd.random() < 0.15:
            fields.append(Field(name, default=rnd.choice(["trait", "expr", "block"])))
            continue
        if nested and rnd.random() < 0.35:
            ph = Ph(rnd.choice(nested))
        else:
            ph = leaf(life)
        conv = None
        r = rnd.random()
        if r < 0.35:
            conv = rnd.choice(["map", "fmap", "from", "try"])
            if ph.ty.life and conv in ("from", "try"):
                conv = "map"
            if conv == "try" and not (ph.ty.rust in TRY or ph.ty.rust.startswith("P<") or ph.ty.model == "Ty::Str"):
                conv = "fmap"
        fields.append(Field(name, ph, conv))
    phs = [f.ph for f in fields if f.ph]
    rnd.shuffle(phs)
    elems = []
    if rnd.random() < 0.5:
        elems.append(lit())
    for k, p in enumerate(phs):
        if k and rnd.random() < 0.8:
            elems.append(lit())
        elems.append(p)
    if rnd.random() < 0.4 or not elems:
        elems.append(lit())
    return Body(elems, fields, named)


# ================================================================================================
emit("// generated by gen_sites.py, seed %d" % seed)
emit("use dstcore::model::*;\nuse dstcore::work::{SiteCx, SiteFns};\nuse dstcore::*;\n")

# ---- fixed core: every documented feature at least once ---------------------------------------
F = Field
p1, p2, p3 = Ph(P(0)), Ph(P(1)), Ph(P(0))
Pair = emit_struct("Pair", Body([Lit("<"), p1, Lit(":"), p2, Lit(">")], [F("a", p1), F("b", p2)], True, refs={0, 1}))
p1, p2, p3 = Ph(P(0)), Ph(P(1)), Ph(P(0))
Rev = emit_struct("Rev", Body([p3, Lit(","), p2, Lit(","), p1], [F("x", p1), F("y", p2), F("z", p3)], True, refs={0, 1, 2}))
p1, p2, p3, p4 = Ph(P(0)), Ph(P(1)), Ph(P(0)), Ph(ints["u8"])
Convs = emit_struct("Convs", Body([p1, Lit(" "), p2, Lit(" "), p3, Lit(" "), p4],
                    [F("a", p1, "map"), F("b", p2, "fmap"), F("d", default="expr"), F("c", p3, "from"), F("e", p4, "try")], True, refs=set()))
p1, p2, p3 = Ph(P(0)), Ph(P(1)), Ph(Mo(0))
Tup = emit_struct("Tup", Body([p1, Lit("("), p3, Lit(")"), p2], [F("0", p1, "try"), F("1", p2, "fmap"), F("2", p3), F("3", default="trait")], False, refs={1}))
p1 = Ph(P(4))
Trans = emit_struct("Trans", Body([p1], [F("0", p1)], False, transparent=True, refs=set()))
p1 = Ph(STR)
Name = emit_struct("Name", Body([Lit("n="), p1, Lit(";")], [F("0", p1)], False, refs=set()))
p1, p2 = Ph(STR), Ph(COW)
Words = emit_struct("Words", Body([p1, Lit(" | "), p2], [F("first", p1), F("rest", p2)], True, refs=set()))
p1, p2, p3 = Ph(ints["u8"], radix(16, 1, "x")), Ph(ints["u8"], radix(16, 0, "r16")), Ph(ints["u8"], radix(16, 2, "#x"))
Color = emit_struct("Color", Body([Lit("#"), p1, Lit("."), p2, Lit("."), p3], [F("r", p1), F("g", p2), F("b", p3)], True, refs={0, 1, 2}))
p1 = Ph(P(1))
Alt = emit_struct("Alt", Body([Raw("a|b(?:c|d)*|", ["a", "bcd", ""]), Lit("z"), p1], [F("n", p1)], True, unescaped=True, refs=set())) if False else None
p1 = Ph(P(0))
Unesc = emit_struct("Unesc", Body([Raw(r"\s*", ["", "  ", " "]), p1, Raw(r"[.!]+", [".", "!.!"])], [F("w", p1, "map")], True, unescaped=True, refs=set()))
# a derived type whose pattern is an alternation at its top level
AltOnly = emit_struct("AltOnly", Body([Raw("a|bc|d{2}".replace("{2}", "d?"), ["a", "bc", "dd", "d"])], [F("k", default="trait")], True, unescaped=True, refs=set()))
p1, p2, p3 = Ph(P(0)), Ph(P(1)), Ph(Mo(5))
Kind3 = emit_enum("Kind3", [
    ("Word", Body([Lit("w "), p1], [F("0", p1)], False, refs=set()), None),
    ("Num", Body([Lit("n "), p2], [F("v", p2, "fmap"), F("d", default="expr")], True, refs={0}), None),
    ("Man", Body([Lit("m "), p3], [F("0", p3)], False, refs=set()), None),
    ("Unit", Body([Lit("unit")], [], False, refs=set()), None)], skipped=[("Never", "")])
p1, p2 = Ph(P(1)), Ph(P(0))
Over = emit_enum("Over", [  # both variants match digits: the first wins
    ("First", Body([p1], [F("0", p1)], False, refs=set()), None),
    ("Second", Body([Raw(r"\w+", ["12", "ab"])], [], False, unescaped=True, refs=set()), None)])
NAMES = ["FooBar", "Single", "ThreeWordName"]


def words(n):
    import re
    return re.findall("[A-Z][a-z]*", n)


CASES = {
    "CaseSensitive": lambda w: "".join(w), "lower case": lambda w: " ".join(w).lower(), "UPPER CASE": lambda w: " ".join(w).upper(),
    "lowercase": lambda w: "".join(w).lower(), "UPPERCASE": lambda w: "".join(w).upper(), "PascalCase": lambda w: "".join(w),
    "camelCase": lambda w: w[0].lower() + "".join(w[1:]), "snake_case": lambda w: "_".join(w).lower(),
    "SCREAMING_SNAKE_CASE": lambda w: "_".join(w).upper(), "kebab-case": lambda w: "-".join(w).lower(),
    "SCREAMING-KEBAB-CASE": lambda w: "-".join(w).upper()}
auto = []
for i, (c, f) in enumerate(CASES.items()):
    vs = [(n, Body([Lit(f(words(n)))], [], False, refs=set()), "") for n in NAMES]
    auto.append(emit_enum("Auto%d" % i, vs, autogen='#[sscanf(autogen = "%s")]' % c if i else "#[sscanf(autogen)]",
                          skipped=[("Hidden", "#[sscanf(skip)]")] if i % 2 else []))
vs = [(n, Body([Raw("(?i:%s)" % n, [n, n.lower(), n.upper(), n.swapcase()])], [], False, refs=set()), "") for n in NAMES]
p1 = Ph(P(1))
vs.append(("Custom", Body([Lit("c="), p1], [F("0", p1)], False, refs=set()), None))
auto.append(emit_enum("AutoI", vs, autogen='#[sscanf(autogenerate = "CaseInsensitive")]'))
p1, p2, p3 = Ph(Pair), Ph(Kind3), Ph(P(0))
Deep = emit_struct("Deep", Body([Lit("{"), p1, Lit(";"), p2, Lit(";"), p3, Lit("}")], [F("p", p1), F("k", p2, "map"), F("w", p3)], True, refs=set()))
p1, p2, p3 = Ph(Deep), Ph(Convs), Ph(Rev)
Deeper = emit_enum("Deeper", [
    ("D", Body([Lit("d"), p1, Lit("~"), p3], [F("0", p1), F("1", p3, "fmap")], False, refs=set()), None),
    ("C", Body([Lit("c"), p2], [F("0", p2)], False, refs=set()), None)])
p1, p2, p3 = Ph(STR), Ph(COW), Ph(STR, custom(CUSTOM_STR[0]))
Lifes = emit_struct("Lifes", Body([p1, Lit("/"), p2, Lit("/"), p3], [F("n", p1, "map"), F("w", p2), F("s", p3, "fmap")], True, refs=set()))
# generic struct with a custom pattern, as documented
emit('''#[derive(sscanf::FromScanf)]
#[sscanf(format = "<{field:/[a-z]+/}>")]
pub struct Gen<T> where T: std::str::FromStr + 'static, <T as std::str::FromStr>::Err: std::error::Error + 'static { pub field: T }
impl<T> Repr for Gen<T> where T: Repr + std::str::FromStr + 'static, <T as std::str::FromStr>::Err: std::error::Error + 'static {
    fn repr(&self, o: &mut Out) { o.s.push_str("Gen{field="); self.field.repr(o); o.s.push_str(";}"); } }''')
gp = P(0)
emit('pub static GEN_P_D: StructD = StructD { name: "Gen", fmt: &[Elem::Lit("<"), Elem::Ph(Ph { ty: %s, opt: Opt::Regex("[a-z]+", &["a", "xyz"]) }), Elem::Lit(">")], fields: &[FieldD { name: "field", src: Src::Ph(0, Conv::No) }] };' % gp.model)
GenP = Ty("Gen<%s>" % gp.rust, "Ty::Struct(&GEN_P_D)")
emit('pub static GEN_S_D: StructD = StructD { name: "Gen", fmt: &[Elem::Lit("<"), Elem::Ph(Ph { ty: Ty::Strng, opt: Opt::Regex("[a-z]+", &["a", "xyz"]) }), Elem::Lit(">")], fields: &[FieldD { name: "field", src: Src::Ph(0, Conv::No) }] };')
GenS = Ty("Gen<String>", "Ty::Struct(&GEN_S_D)")

# hot sites used by most workloads
site([Ph(P(0)), Lit(" "), Ph(P(1)), Lit(" "), Ph(P(0))], src="In")
site([Ph(P(0)), Lit(":"), Ph(STR), Lit(":"), Ph(P(1)), Lit(":"), Ph(M(0))], src="In")
site([Ph(M(0)), Lit(";"), Ph(M(1)), Lit(";"), Ph(P(0))], src="In")
site([Ph(M(3)), Lit(";"), Ph(P(2)), Lit(";"), Ph(M(2))], src="In")
site([Ph(ints["usize"]), Lit("x"), Ph(ints["i64"])], src="Str")
site([Lit("only text {}")], src="In")
site([Lit("")], src="In")
site([Ph(STR)], src="In")
site([Ph(STR), Lit(" "), Ph(COW)], src="String")
site([Ph(ints["u8"], radix(10, 0, "r10")), Ph(STR)], src="Str")
site([Ph(ints["u8"], radix(16, 1, "x")), Ph(ints["u8"], radix(16, 1, "x")), Ph(ints["u8"], radix(16, 1, "x"))], src="Str")
site([Ph(ints["u16"], radix(16, 1, "x")), Ph(STR)], src="Str")
site([Ph(ints["i32"], radix(8, 2, "#o")), Ph(CHAR), Ph(ints["i8"], radix(2, 1, "b"))], src="Str")
site([Ph(ints["u32"], radix(36, 0, "r36")), Lit("-"), Ph(ints["i128"], radix(16, 2, "#x"))], src="Str")
site([Ph(CHAR), Ph(nonzero["usize"]), Ph(CHAR), Ph(nonzero["usize"])], src="String", types_in=["idx", "idx", "in", "pos"])
site([Ph(F64), Raw(".*?", ["", "abc"]), Ph(ints["usize"])], unescaped=True)
site([Ph(P(0)), Raw(r"\s+(?:x|y)?", [" ", "  x", " y"]), Ph(P(1))], unescaped=True, src="In")
same = P(0)
site([Ph(same), Lit("-"), Ph(same), Lit("-"), Ph(same)], types_in=["idx", "idx", "idx"], src="In")
site([Ph(Pair), Lit(" "), Ph(Rev), Lit(" "), Ph(P(0))], src="In")
site([Ph(Kind3), Lit(";"), Ph(P(1)), Lit(";"), Ph(Kind3)], src="In")
site([Ph(Deep), Lit("|"), Ph(Deeper)], src="In")
site([Ph(M(0)), Lit(" "), Ph(Tup), Lit(" "), Ph(M(5)), Lit(" "), Ph(P(0))], src="In")
site([Ph(Lifes), Lit(" "), Ph(Name)], src="In")
site([Ph(AltOnly), Lit("-"), Ph(AltOnly)], src="In")
site([Ph(GenP), Lit(" "), Ph(GenS)], src="In")
site([Ph(Color), Lit(" "), Ph(Over)], src="Str")
site([Ph(P(7)), Ph(P(8)), Ph(P(7))], src="In")
site([Ph(BOOL), Lit(" "), Ph(PATH)], src="String")
site([Ph(HEX), Lit(" "), Ph(F32)], src="Str")
site([Ph(FULL32), Lit(" "), Ph(FULL64), Lit(" "), Ph(HEX)], src="Str")

# every number type, every radix, every form of a radix option
SEPS = [" ", ",", ";", "|", "~"]


def row(phs, **kw):
    es = []
    for k, p in enumerate(phs):
        if k:
            es.append(Lit(rnd.choice(SEPS)))
        es.append(p)
    site(es, src=rnd.choice(["Str", "Str", "String"]), get=rnd.random() < 0.2, **kw)


def rows(phs, n):
    rnd.shuffle(phs)
    for k in range(0, len(phs), n):
        row(phs[k:k + n])


rows([Ph(t) for t in ints.values()], 4)
rows([Ph(t) for t in nonzero.values()], 4)
rows([Ph(ints[n], o) for n in INTS for o in RADIX[:7]], 4)
rows([Ph(ints[INTS[(r + seed * j) % 12]], radix(r, 0, "r%d" % r)) for r in range(2, 37) for j in (1, 5)], 4)
# call sites written once and expanded several times: the same text, place and spans
twin_sites([Ph(P(0)), Lit("/"), Ph(ints["i16"])], "In", 3)
twin_sites([Ph(M(1)), Lit(" "), Ph(P(0)), Lit(" "), Ph(STRING)], "Str", 2)
# different call sites with one and the same format, get_regex included
for es in ([Ph(P(0)), Lit("="), Ph(ints["u32"])], [Ph(M(0)), Lit("&"), Ph(P(1))]):
    for k in range(3):
        site(es, src=["In", "Str", "In"][k], get=True, types_in=["in" for e in es if isinstance(e, Ph)], plain_literal=True)

# derived types of the same name inside each other
p1, p2 = Ph(P(0)), Ph(P(1))
Same1 = emit_struct("Same", Body([p1, Lit("+"), p2], [F("a", p1, "fmap"), F("b", p2)], True, refs=set()), mod="same1")
p1, p2 = Ph(Same1), Ph(P(0))
Same2 = emit_enum("Same", [("Same", Body([Lit("s"), p1], [F("0", p1)], False, refs=set()), None),
                           ("Other", Body([Lit("o"), p2], [F("0", p2, "try")], False, refs=set()), None)], mod="same2")
p1, p2 = Ph(Same2), Ph(ints["u8"])
Same3 = emit_struct("Same", Body([Lit("["), p1, Lit(" "), p2, Lit("]")], [F("0", p1, "map"), F("1", p2)], False, refs=set()), mod="same3")
site([Ph(Same3), Lit(";"), Ph(Same2), Lit(";"), Ph(Same1)], src="In")
# fields with raw identifiers
p1, p2, p3 = Ph(P(0)), Ph(ints["i16"]), Ph(STRING)
RawIds = emit_struct("RawIds", Body([p1, Lit("@"), p2, Lit("@"), p3], [F("r#type", p1), F("r#fn", p2), F("ok", p3, "map")], True, refs=set()))
# many placeholders, many fields, many variants
wide = [Ph([P(0), P(1), ints["u8"], CHAR, STRING, Mo(0), BOOL][k % 7] if k % 7 not in (0, 1, 5) else [P(0), P(1), 0, 0, 0, Mo(0)][k % 7]) for k in range(15)]
site([e for k, p in enumerate(wide) for e in ([Lit(",")] if k else []) + [p]], src="In")
ps = [Ph(P(k % 2)) if k % 3 else Ph(Mo([0, 1, 5][k // 3 % 3])) for k in range(13)]
fs = [F("f%d" % k, p, [None, "map", None, "fmap", "from"][k % 5]) for k, p in enumerate(ps)]
fs.insert(6, F("d", default="expr"))
Wide = emit_struct("Wide", Body([e for k, p in enumerate(reversed(ps)) for e in ([Lit(":")] if k else []) + [p]], fs, True, refs=set(range(13))))
vs = []
for k in range(20):
    ps = [Ph(P((k + j) % 2)) for j in range(k % 6)]
    vs.append(("V%d" % k, Body([Lit("v%d" % k)] + [e for p in ps for e in (Lit("."), p)],
                               [F(str(j), p, [None, "map", "fmap"][(k + j) % 3]) for j, p in enumerate(ps)], False, refs=set()), None))
Many = emit_enum("Many", vs)
site([Ph(Many), Lit(" "), Ph(M(0)), Lit(" "), Ph(Many)], src="In")
site([Ph(Wide), Lit(" "), Ph(RawIds), Lit(" "), Ph(P(1))], src="In")
# longer than any counter of eight bits: more than 256 placeholders, fields and variants in one type
SMALL = [("[0-9]", "[0-9]", ["0", "7", "9"]), ("[a-f]", "[a-f]", ["a", "b", "f"]), ("[x-z]", "[x-z]", ["x", "y", "z"]), ("[A-Z]", "[A-Z]", ["A", "Q", "Z"])]


def long_body(n, named, turn):
    # patterns that are quickly compiled
    ps = [Ph([P(0), Mo(0), BOOL][k // 5 % 3]) if k % 5 == 2 else Ph(CHAR, custom(SMALL[k % 4])) for k in range(n)]
    names = ["f%d" % k if named else str(k) for k in range(n)]
    convs = ["fmap" if k == n - 2 else "map" if k % 11 == 4 else None for k in range(n)]
    fs = [F(names[k], p, convs[k]) for k, p in enumerate(ps)]
    ps = ps[turn:] + ps[:turn]
    return Body([e for k, p in enumerate(ps) for e in ([Lit(rnd.choice(",;"))] if k % 3 == 0 and k else []) + [p]], fs, named,
                refs=set(range(n)) if turn else set())


Long = emit_struct("Long", long_body(27, True, 19))
Longer = emit_struct("Longer", long_body(33, False, 5))
Row = emit_struct("Row", long_body(61, False, 0))
ps = [Ph(t) for t in (Row, Long, Row, Longer, Row, Long, Row)]
Huge = emit_struct("Huge", Body([e for k, p in enumerate(ps[3:] + ps[:3]) for e in ([Lit("/")] if k else []) + [p]],
                                [F(str(k), p) for k, p in enumerate(ps)], False, refs=set(range(7))))
pl = Ph(P(0))
Lots = emit_enum("Lots", [("L%d" % k, Body([Lit("l%d," % k)], [], False, refs=set()), None) if k != 263 else
                          ("L263", Body([Lit("ll"), pl, Lit(",")], [F("0", pl, "fmap")], False, refs=set()), None) for k in range(270)])
site([Ph(Long), Lit("|"), Ph(Longer), Lit("|"), Ph(P(1))], src="In")
site([Ph(Lots), Lit("|"), Ph(M(0)), Lit("|"), Ph(Lots)], src="In")
site([Ph(P(0)), Lit("|"), Ph(M(0)), Lit("|"), Ph(Huge)], src="In", get=True)
# variants that borrow
p1, p2, p3 = Ph(STR), Ph(COW), Ph(Mo(0))
Borrows = emit_enum("Borrows", [("S", Body([Lit("s:"), p1], [F("0", p1)], False, refs=set()), None),
                                ("C", Body([Lit("c:"), p2], [F("text", p2)], True, refs=set()), None),
                                ("M", Body([Lit("m:"), p3], [F("0", p3)], False, refs=set()), None),
                                ("N", Body([Lit("n")], [], False, refs=set()), None)])
site([Ph(Borrows), Lit(" "), Ph(Borrows), Lit(" "), Ph(P(0))], src="In")
# variants and types that can match the empty text
p1, p2 = Ph(P(0)), Ph(P(2))
Nothing = emit_enum("Nothing", [("Some", Body([Lit("="), p1], [F("0", p1, "map")], False, refs=set()), None),
                                ("Stars", Body([Raw(r"\**", ["", "*", "**"])], [], False, unescaped=True, refs=set()), None),
                                ("Never", Body([Lit("never")], [], False, refs=set()), None)])
Gap = emit_enum("Gap", [("Word", Body([Lit("w:"), p2], [F("0", p2)], False, refs=set()), None),
                        ("Empty", Body([Lit("")], [], False, refs=set()), None)])
Hollow = emit_struct("Hollow", Body([Raw(r"-*", ["", "-"])], [F("a", default="trait"), F("b", default="expr")], True, unescaped=True, refs=set()))
site([Ph(Nothing), Lit("|"), Ph(Gap), Lit("|"), Ph(P(2)), Lit("|"), Ph(Hollow)], src="In")
site([Ph(Gap), Ph(Hollow), Ph(Nothing)], src="In")
# views of nothing: where in the input they are still counts
MAYBE = [(r"\d*", r"\d*", ["", "12"]), (r"(?:ab)?", r"(?:ab)?", ["", "ab"]), (r"[a-z]*", r"[a-z]*", ["", "q", "xyz"]), (r"-*?", r"-*?", ["", "--"])]
p1, p2, p3 = Ph(COW, custom(MAYBE[0])), Ph(STR, custom(MAYBE[1])), Ph(STR, custom(MAYBE[3]))
Blanks = emit_struct("Blanks", Body([Lit("/"), p1, p2, Lit("."), p3], [F("a", p3), F("b", p2, "map"), F("c", p1)], True, refs={0, 1, 2}))
site([Ph(STR, custom(MAYBE[0])), Lit(":"), Ph(COW, custom(MAYBE[2])), Ph(STR, custom(MAYBE[1])), Lit("|"), Ph(P(0)), Ph(STR, custom(MAYBE[3]))], src="In")
site([Ph(STRING, custom(MAYBE[2])), Ph(STR, custom(MAYBE[0])), Ph(Blanks), Ph(COW, custom(MAYBE[3]))], src="In")

# several lifetimes, 'static, type and const parameters
emit('''#[derive(sscanf::FromScanf)]
#[sscanf("{second}<>{first}")]
pub struct Two<'z, 'b> { pub first: &'b str, pub second: std::borrow::Cow<'z, str> }
impl Repr for Two<'_, '_> { fn repr(&self, o: &mut Out) {
    o.s.push_str("Two{first="); self.first.repr(o); o.s.push_str(";second="); self.second.repr(o); o.s.push_str(";}"); } }
#[derive(sscanf::FromScanf)]
pub enum Always { #[sscanf("!{}")] Text(&'static str), #[sscanf("{}{:/[0-9]+/}")] Both(char, &'static str) }
impl Repr for Always { fn repr(&self, o: &mut Out) { match self {
    Always::Text(a) => { o.s.push_str("Always::Text{0="); a.repr(o); o.s.push_str(";}"); }
    Always::Both(a, b) => { o.s.push_str("Always::Both{0="); a.repr(o); o.s.push_str(";1="); b.repr(o); o.s.push_str(";}"); } } } }
#[derive(sscanf::FromScanf)]
pub enum Param<T, const N: u32> where T: std::str::FromStr + 'static, <T as std::str::FromStr>::Err: std::error::Error + 'static {
    #[sscanf("t{:/[a-z]+/}")] T(T), #[sscanf("p{:/[a-z]+/}{:/[0-9]*/}")] P(P<0, N>, #[sscanf(map = |s: String| s)] String), #[sscanf("u")] U }
impl<T, const N: u32> Repr for Param<T, N> where T: Repr + std::str::FromStr + 'static, <T as std::str::FromStr>::Err: std::error::Error + 'static {
    fn repr(&self, o: &mut Out) { match self {
    Param::T(a) => { o.s.push_str("Param::T{0="); a.repr(o); o.s.push_str(";}"); }
    Param::P(a, b) => { o.s.push_str("Param::P{0="); a.repr(o); o.s.push_str(";1="); b.repr(o); o.s.push_str(";}"); }
    Param::U => o.s.push_str("Param::U{}") } } }''')
LOW, DIG, DIGS = 'Opt::Regex("[a-z]+", &["a", "xyz"])', 'Opt::Regex("[0-9]+", &["1", "007"])', 'Opt::Regex("[0-9]*", &["", "12"])'
emit('''pub static TWO_D: StructD = StructD { name: "Two", fmt: &[Elem::Ph(Ph { ty: Ty::Cow, opt: Opt::No }), Elem::Lit("<>"), Elem::Ph(Ph { ty: Ty::Str, opt: Opt::No })],
    fields: &[FieldD { name: "first", src: Src::Ph(1, Conv::No) }, FieldD { name: "second", src: Src::Ph(0, Conv::No) }] };
pub static ALWAYS_D: EnumD = EnumD { name: "Always", variants: &[
    StructD { name: "Text", fmt: &[Elem::Lit("!"), Elem::Ph(Ph { ty: Ty::Str, opt: Opt::No })], fields: &[FieldD { name: "0", src: Src::Ph(0, Conv::No) }] },
    StructD { name: "Both", fmt: &[Elem::Ph(Ph { ty: Ty::Char, opt: Opt::No }), Elem::Ph(Ph { ty: Ty::Str, opt: %s })],
        fields: &[FieldD { name: "0", src: Src::Ph(0, Conv::No) }, FieldD { name: "1", src: Src::Ph(1, Conv::No) }] }] };''' % DIG)
Two = Ty("Two<'_, '_>", "Ty::Struct(&TWO_D)", life=True, plain="Two")
Always = Ty("Always", "Ty::Enum(&ALWAYS_D)")
params = []
for k, t in enumerate([P(0), STRING]):
    q = P(0)
    n = q.rust.split(", ")[1][:-1]
    emit('''pub static PARAM_%d_D: EnumD = EnumD { name: "Param", variants: &[
    StructD { name: "T", fmt: &[Elem::Lit("t"), Elem::Ph(Ph { ty: %s, opt: %s })], fields: &[FieldD { name: "0", src: Src::Ph(0, Conv::No) }] },
    StructD { name: "P", fmt: &[Elem::Lit("p"), Elem::Ph(Ph { ty: %s, opt: %s }), Elem::Ph(Ph { ty: Ty::Strng, opt: %s })],
        fields: &[FieldD { name: "0", src: Src::Ph(0, Conv::No) }, FieldD { name: "1", src: Src::Ph(1, Conv::No) }] },
    StructD { name: "U", fmt: &[Elem::Lit("u")], fields: &[] }] };''' % (k, t.model, LOW, q.model, LOW, DIGS))
    params.append(Ty("Param<%s, %s>" % (t.rust, n), "Ty::Enum(&PARAM_%d_D)" % k))
site([Ph(params[0]), Lit(" "), Ph(Always), Lit(" "), Ph(params[1])], src="Str")
site([Ph(Two), Lit("; "), Ph(Always)], src="Str")
others = [Two, Always] + params
# a call site in a generic function: one pattern for all its instances
k = len(sites)
text = rs("{P<0, %d>}#{str}" % newk())
emit("fn any_%d<T: Default + std::fmt::Debug>(cx: &mut SiteCx) { let t = T::default(); let inp = cx.text(); let r = sscanf::sscanf!(inp, %s); let _ = &t; cx.ret(r); }" % (k, text))
emit("fn any_get_%d<T: Default + std::fmt::Debug>(cx: &mut SiteCx) { let _ = T::default(); let r = sscanf::sscanf_get_regex!(%s); cx.regex(r); }" % (k, text))
emit("fn site_%d(cx: &mut SiteCx) { match cx.text().len() %% 3 { 0 => any_%d::<u8>(cx), 1 => any_%d::<String>(cx), _ => any_%d::<()>(cx) } }" % (k, k, k, k))
emit("fn get_%d(cx: &mut SiteCx) { match cx.text().len() %% 3 { 0 => any_get_%d::<u8>(cx), 1 => any_get_%d::<String>(cx), _ => any_get_%d::<()>(cx) } }" % (k, k, k, k))
sites.append(dict(i=k, call="generic: " + text, fmt=fmt_model([Ph(Ty("", "Ty::P(0, %s)" % text.split(", ")[1].split(">")[0])), Lit("#"), Ph(STR)]), src="Str", bad=False, get=True, fs="Fs::No", note=""))

# ---- random part ------------------------------------------------------------------------------
pool = [Pair, Rev, Convs, Trans, Name, Color, Kind3, Over, Words]
for i in range(8):
    pool.append(emit_struct("S%d" % i, body(nested=pool[-8:])))
for i in range(5):
    vs = []
    for j in range(rnd.randint(2, 4)):
        if rnd.random() < 0.2:
            vs.append(("V%d" % j, Body([Lit("u%d" % j)], [], False, refs=set()), None))
        else:
            b = body(nested=pool[-6:], nmax=2)
            b.elems.insert(0, Lit("%s=" % "klmn"[j]))
            vs.append(("V%d" % j, b, None))
    pool.append(emit_enum("E%d" % i, vs, skipped=[("Skipped", "")] if rnd.random() < 0.4 else []))
for i in range(14):
    n = rnd.randint(1, 5)
    es = []
    for k in range(n):
        if k and rnd.random() < 0.85:
            es.append(lit())
        es.append(leaf(top=True) if rnd.random() < 0.7 else Ph(rnd.choice(pool)))
    if rnd.random() < 0.3:
        es.insert(0, lit())
    site(es)
# each derived type on its own, also through from_str; some FromStr types as well
pairs = [T(t, src="Str", from_str="Derived", get=False) for t in types + [GenP] + others]
for t in [P(0), P(2), P(7), ints["u8"], ints["i64"], STRING, CHAR, BOOL, F64, nonzero["u16"], HEX]:
    T(t, src="Str", from_str="FromStr", get=False)

# ---- sites that can never work ----------------------------------------------------------------
good_in_bad = P(0)
B = dict(bad=True)
T(P(20), src="In", **B)
T(P(21), src="In", **B)
site([Ph(P(0)), Lit(" "), Ph(P(22))], src="In", **B)
site([Ph(P(0)), Lit(" "), Ph(P(23)), Lit(" "), Ph(P(1))], src="In", **B)
site([Ph(M(20)), Lit(" "), Ph(P(0))], src="In", **B)
site([Ph(M(21)), Lit(" "), Ph(P(0))], src="In", **B)
site([Ph(P(0)), Lit(" "), Ph(M(22))], src="Str", **B)
site([Ph(P(0)), Raw("(a|b)", ["a", "b"]), Ph(P(1))], unescaped=True, src="In", **B)
site([Ph(P(0)), Raw("[z", ["z"]), Ph(P(1))], unescaped=True, src="In", **B)
p1, p2 = Ph(P(21)), Ph(P(0))
BadS = emit_struct("BadS", Body([p1, Lit(","), p2], [F("a", p1), F("b", p2)], True, refs=set()))
T(BadS, src="In", **B)
p1, p2 = Ph(P(0)), Ph(P(20))
BadE = emit_enum("BadE", [("Ok", Body([Lit("ok "), p1], [F("0", p1)], False, refs=set()), None),
                          ("Bad", Body([Lit("bad "), p2], [F("0", p2)], False, refs=set()), None)])
site([Ph(P(0)), Lit(";"), Ph(BadE)], src="In", **B)
# and a derived type whose pattern cannot be built, through from_str
p1, p2 = Ph(P(0)), Ph(P(20))
BadI = emit_struct("BadI", Body([p1, Lit(","), p2], [F("a", p1), F("b", p2)], True, refs=set()))
T(BadI, src="In", from_str="Derived", **B)

# ---- tables -----------------------------------------------------------------------------------
emit("pub static DEFS: &[SiteDef] = &[")
for s in sites:
    emit("    SiteDef { name: \"site_%d\", source: %s, fmt: %s, src: SrcKind::%s, bad: %s, get: %s, from_str: %s }," % (
        s["i"], rs(s["call"]), s["fmt"], s["src"], str(s["bad"]).lower(), str(s["get"]).lower(), s["fs"]))
emit("];")
emit("pub static FNS: &[SiteFns] = &[")
for s in sites:
    emit("    SiteFns { scan: site_%d, get: %s, from_str: %s }," % (
        s["i"], "Some(get_%d)" % s["i"] if s["get"] else "None", "None" if s["fs"] == "Fs::No" else "Some(fs_%d)" % s["i"]))
emit("];")

text = "\n".join(out) + "\n"
try:
    if open(out_path).read() == text:
        sys.exit(0)
except OSError:
    pass
open(out_path, "w").write(text)
