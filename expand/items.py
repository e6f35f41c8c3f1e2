"""Items whose expansion is studied: derives and macro calls, valid and invalid."""
import random, re

PRELUDE = """#![allow(warnings)]
mod prelude {
    pub use sscanf::FromScanf;
    pub use std::borrow::Cow;
    pub struct W(pub u8);
    pub mod inner { pub struct V(pub u8); }
    pub fn f<A, B>(a: A) -> B { loop {} }
}
"""
LTS = ["'a", "'b", "'c", "'input", "'x", "'long_name", "'z9"]
PLAIN = ["u8", "i16", "u32", "i64", "u128", "usize", "f32", "f64", "bool", "char", "String", "W", "inner::V",
         "std::num::NonZeroU8", "(u8)", "core::primitive::u16"]
OPTS = ["", "", "", "", ":/[a-z]+/", r":/\d{2,}/", ":/(?:a|b)*/"]
NUM_OPTS = ["", "", ":x", ":x#", ":b", ":r16", ":r3", ":o#", ":r36", ":#x", ":b#", ":/[0-9]/"]
NUMS = {"u8", "i16", "u32", "i64", "u128", "usize"}
LITS = [" ", "-", "abc", "{{", "}}", ".", "*", "[", "(", ":", "é", "漢", "\\t", "x=", ", "]
CASES = ["lower case", "UPPER CASE", "lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case",
         "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE", "rAnDoMcAsE", "CaseInsensitive"]
FIELD_ATTRS = ["default", "default = %e", "map = |x: %t| f(x)", "filter_map = |x: %t| f(x)", "from = %t", "try_from = %t"]
BAD_FIELD = ["defalt", "mapp = |x: u8| x", "fiter_map = 3", "bob", "format = \"\"", "map", "map = 5", "default =",
             "try_fom = u8", "form = u8", "= 5", "filter = |x| x", "from = ", "skip", "transparent", "\"{}\"",
             "map = |x| x", "map = |x: u8, y: u8| x", "filter_map = |_: &str| f(1)"]
NAMES = ["a", "b", "c", "field", "value", "x", "data", "name", "r#type", "längst"]
ITEM_NAMES = ["A", "B", "Item", "Item", "Point", "Test"]
VARIANTS = ["Alpha", "BetaGamma", "Delta9", "XMLThing", "A", "B", "Some_Thing", "Zeta", "TestA", "HTTPSPort"]


class Gen:
    def __init__(self, rng):
        self.r = rng

    def pick(self, l):
        return self.r.choice(l)

    def chance(self, p):
        return self.r.random() < p

    def ty(self, lts):
        r = self.r.random()
        if lts and r < 0.45:
            lt = self.pick(lts)
            return self.pick(["&%s str", "&%s str", "Cow<%s, str>", "std::borrow::Cow<%s, str>", "&%s  str"]) % lt
        if r < 0.48:
            return "&'static str"
        if r < 0.52:
            return self.pick(["Vec<u8>", "Option<u8>", "Box<str>"])
        return self.pick(PLAIN)

    def fill(self, a, lts):
        if a.startswith(("from", "try_from")):
            return a.replace("%t", self.pick(PLAIN[:13]))
        return a.replace("%t", self.ty(lts)).replace("%e", self.pick(["5", "f(1)", "\"x\"", "{ 1 + 1 }", "W(3)"]))

    def field_attr(self, lts, bad):
        if bad and self.chance(0.5):
            l = [self.pick(BAD_FIELD)]
            if self.chance(0.4):
                l.append(self.pick(BAD_FIELD + FIELD_ATTRS))
            return ", ".join(self.fill(x, lts) for x in l)
        n = 1 if not (bad and self.chance(0.6)) else self.r.randint(2, 5)
        l = self.r.sample(FIELD_ATTRS, min(n, len(FIELD_ATTRS)))
        return ", ".join(self.fill(x, lts) for x in l)

    def fields(self, lts, bad, tuple_like=None, vis=True):
        """(source of the fields, format string)"""
        n = self.r.choice([0, 1, 1, 2, 2, 3, 4, 6, 9])
        tup = self.chance(0.4) if tuple_like is None else tuple_like
        names = self.r.sample(NAMES, n)
        out, phs = [], []
        for i in range(n):
            ty = self.ty(lts)
            attr = ""
            if self.chance(0.3 if not bad else 0.5):
                a = self.field_attr(lts, bad)
                attr = "#[sscanf(%s)] " % a
                if bad and self.chance(0.15):
                    attr += "#[sscanf(%s)] " % self.field_attr(lts, bad)
                has_ph = not a.startswith("default")
            else:
                has_ph = True
            if has_ph:
                m = re.search("from = (.*)", attr)
                phs.append((str(i) if tup else names[i], "?" if "map" in attr else m.group(1)[:-3] if m else ty))
            out.append(attr + (self.pick(["", "", "pub "]) if vis else "") + ("" if tup else names[i] + ": ") + ty)
        named = self.chance(0.5)
        if named:
            self.r.shuffle(phs)
        if bad and self.chance(0.4):
            k = self.r.randrange(5)
            if k == 0 and phs:
                phs.pop()
            elif k == 1:
                phs += [(self.pick(NAMES), "u8"), (self.pick(NAMES), "u8")]
                named = True
            elif k == 2 and phs:
                phs.append(phs[0])
            elif k == 3:
                phs += [("7", "u8"), ("17", "u8")]
                named = True
            else:
                phs = []
        if any(p[0] == "r#type" for p in phs):
            named = False
        if not named:
            phs.sort(key=lambda p: int(p[0]) if p[0].isdigit() else names.index(p[0]) if p[0] in names else 99)
        fmt = self.fmt([(p[0] if named else "", p[1]) for p in phs], bad)
        src = ("(%s)" if tup else "{ %s }") % ", ".join(out)
        if n == 0 and self.chance(0.5):
            return "", fmt, True
        return src, fmt, tup

    def fmt(self, phs, bad):
        s = self.pick(LITS) if self.chance(0.3) else ""
        for p, ty in phs:
            o = self.pick(NUM_OPTS if ty in NUMS else OPTS)
            if bad and self.chance(0.15):
                o = self.pick([":zzz", ":/(/", ":r99", ":", ":/a", ":#", ":x#b", ":/[z-a]/", ":r1", ":x:b"])
            s += "{" + p + o + "}" + (self.pick(LITS) if self.chance(0.8) else "")
        if bad and self.chance(0.12):
            s += self.pick(["{", "}", "{{}", "{a", "{}}"])
        return s

    def quote(self, s):
        if "\\" in s or self.chance(0.2):
            return 'r#"%s"#' % s
        return '"%s"' % s

    def outer(self, fmt, bad):
        if bad and self.chance(0.35):
            return self.pick([
                "#[sscanf]", "#[sscanf = \"{}\"]", "#[sscanf()]", "", "#[sscanf(fromat = \"\")]",
                "#[sscanf(format = %s, transparent)]" % self.quote(fmt),
                "#[sscanf(format = \"\", format_unescaped = \"\", transparent)]",
                "#[sscanf(format = \"\")] #[sscanf(format = \"\")]", "#[sscanf(transparent)]", "#[sscanf(transparrent)]",
                "#[sscanf(format_x = \"\", format = 5)]", "#[sscanf(autogen)]", "#[sscanf(skip)]", "#[sscanf(format)]",
                "#[sscanf(format_unescaped = \"(\")]", "#[sscanf(format_unescaped = \"a|\", format = \"b\")]"])
        k = self.pick(["format = ", "format = ", "", "format_unescaped = "])
        return "#[sscanf(%s%s)]" % (k, self.quote(fmt))

    def generics(self):
        lts = self.r.sample(LTS, self.r.choice([0, 0, 1, 1, 2, 3, 4, 5]))
        ps = []
        for i, l in enumerate(lts):
            ps.append(l + (": " + self.pick(lts[:i]) if i and self.chance(0.15) else ""))
        if self.chance(0.1):
            ps.append(self.pick(["T", "T: Copy", "const N: usize", "T, U"]))
        where = ""
        if lts and self.chance(0.15):
            where = "where %s: %s" % (self.pick(lts), self.pick(lts))
        return lts, ("<%s>" % ", ".join(ps) if ps else ""), where

    def struct(self, bad):
        lts, g, where = self.generics()
        src, fmt, tup = self.fields(lts, bad)
        name = self.pick(ITEM_NAMES)
        head = "#[derive(FromScanf)] %s struct %s%s" % (self.outer(fmt, bad), name, g)
        if tup:
            return "%s %s %s;" % (head, src, where)
        return "%s %s %s" % (head, where, src)

    def enum(self, bad):
        lts, g, where = self.generics()
        name = self.pick(ITEM_NAMES)
        n = self.r.choice([1, 2, 3, 4, 6, 9])
        names = self.r.sample(VARIANTS, n)
        auto = self.chance(0.4)
        head = "#[derive(FromScanf)] "
        if auto:
            c = self.pick(CASES)
            if bad and self.chance(0.4):
                c = self.pick(["casesensitive", "lower", "pascalcase", "bob", "snakecase", "UPPER_CASE", "random"])
            head += "#[sscanf(%s)] " % self.pick(["autogen", "autogenerate", "autogen = \"%s\"" % c, "autogenerate = \"%s\"" % c])
        if bad and self.chance(0.15):
            head += self.outer("", True)
        vs = []
        for v in names:
            if auto and self.chance(0.75):
                vs.append((self.pick(["", "", "#[sscanf(skip)] "]) if bad or n > 2 else "") + v)
                continue
            src, fmt, tup = self.fields(lts, bad, vis=False)
            at = self.outer(fmt, bad)
            if not auto and n > 1 and not bad and self.chance(0.1) and vs:
                at = ""
            vs.append("%s %s%s" % (at, v, src))
        return "%s enum %s%s %s { %s }" % (head, name, g, where, ", ".join(vs))

    def call_ty(self):
        t = self.pick(PLAIN + ["str", "str", "Vec<u8>"])
        return t if not self.chance(0.03) else self.pick(["&str", "&'static str", "[u8; 3]", "(u8, u8)", "dyn Fn()"])

    def call(self, bad):
        n = self.r.choice([0, 1, 1, 2, 3, 5, 10])
        tys = [self.call_ty() for _ in range(n)]
        phs, order = [], list(range(n))
        style = self.r.randrange(3)
        inline = []
        if style == 0:
            phs = [("", t) for t in tys]
        elif style == 1:
            self.r.shuffle(order)
            phs = [(str(i), tys[i]) for i in order]
        else:
            phs = [(t, t) for t in tys if ":" not in t and "{" not in t]
            tys = []
        if bad and self.chance(0.5):
            k = self.r.randrange(4)
            if k == 0:
                tys = tys[:-1]
            elif k == 1:
                tys.append(self.call_ty())
                tys.append(self.call_ty())
            elif k == 2:
                phs += [("9", "u8"), ("99", "u8")]
            else:
                phs += [("bob!", ""), ("a b", ""), ("u9", "")]
        fmt = self.quote(self.fmt(phs, bad))
        m = self.pick(["sscanf", "sscanf", "scanf", "sscanf_unescaped", "sscanf_get_regex"])
        if m == "sscanf_get_regex":
            args = [fmt] + tys
        else:
            args = ['"text"', fmt] + tys
        if bad and self.chance(0.15):
            args = self.pick([[], ['"a"'], ['"a"', "5"], ['"a"', "fmt"], ["fmt", "\"{}\"", ""], ['"a"', '"{}"', "5", "u8"]])
        return "fn f() { let x = sscanf::%s!(%s); }" % (m, ", ".join(args))

    def mistakes(self):
        """a derive or call that is fine but for several mistakes of a few kinds"""
        r = self.r
        if self.chance(0.35):
            n = r.randint(2, 9)
            tys = [self.pick(PLAIN[:12] + ["str"]) for _ in range(n)]
            phs = [str(i) for i in range(n)]
            for _ in range(r.randint(1, 2)):
                k = r.randrange(4)
                if k == 0:  # unused types
                    for _ in range(min(r.randint(1, 5), len(phs))):
                        phs.pop(r.randrange(len(phs)))
                elif k == 1:  # unknown types
                    for _ in range(r.randint(1, 4)):
                        phs.insert(r.randint(0, len(phs)), self.pick(["a b", "5u8", "&x", "!", "u8 u8", "<", "dyn", "1.5"]))
                elif k == 2:  # indices out of range
                    for _ in range(r.randint(1, 4)):
                        phs.insert(r.randint(0, len(phs)), str(r.randint(n, 99)))
                else:  # too few types
                    phs = ["" for _ in phs] + [""] * r.randint(1, 4)
            if self.chance(0.4):
                r.shuffle(phs)
            fmt = self.quote(" ".join("{%s}" % p for p in phs))
            m = self.pick(["sscanf", "sscanf_unescaped", "sscanf_get_regex"])
            args = ([] if m == "sscanf_get_regex" else ['"text"']) + [fmt] + tys
            return "fn f() { let x = sscanf::%s!(%s); }" % (m, ", ".join(args))

        def struct(tup):
            n = r.randint(2, 10)
            names = [str(i) for i in range(n)] if tup else r.sample("abcdefghijklmnopqrstuvw", n)
            fields = [("" if tup else x + ": ") + self.pick(PLAIN[:12]) for x in names]
            phs = list(names)
            for _ in range(r.randint(1, 2)):
                k = r.randrange(6)
                if k == 0:  # fields without a source
                    for _ in range(min(r.randint(1, 6), len(phs))):
                        phs.pop(r.randrange(len(phs)))
                elif k == 1:  # unknown fields
                    for _ in range(r.randint(1, 4)):
                        phs.insert(r.randint(0, len(phs)), self.pick(["xx", "yy", "zz", "bob", "n0"]))
                elif k == 2:  # several sources
                    for _ in range(r.randint(1, 4)):
                        phs.insert(r.randint(0, len(phs)), r.choice(phs) if phs else names[0])
                elif k == 3:  # too many placeholders
                    phs += [""] * r.randint(1, 4)
                elif k == 4:  # indices out of range
                    for _ in range(r.randint(1, 4)):
                        phs.insert(r.randint(0, len(phs)), str(r.randint(n, 99)))
                else:  # conflicting attributes
                    for i in r.sample(range(n), r.randint(1, 2)):
                        at = [self.fill(a, []) for a in r.sample(FIELD_ATTRS, r.randint(1, 5))]
                        fields[i] = ("#[sscanf(%s)] " % ", ".join(at) if self.chance(0.7) else
                                     "".join("#[sscanf(%s)] " % a for a in at)) + fields[i]
            if self.chance(0.3):
                r.shuffle(phs)
            return "#[sscanf(format = %s)]" % self.quote(",".join("{%s}" % p for p in phs)), \
                ("(%s)" if tup else "{ %s }") % ", ".join(fields)

        tup = self.chance(0.4)
        if self.chance(0.7):
            attr, body = struct(tup)
            return "#[derive(FromScanf)] %s struct %s %s%s" % (attr, self.pick(ITEM_NAMES), body, ";" if tup else "")
        vs = []
        for v in r.sample(VARIANTS, r.randint(2, 5)):
            vs.append(self.variant(v, struct))
        return "#[derive(FromScanf)] enum %s { %s }" % (self.pick(ITEM_NAMES), ", ".join(vs))

    def variant(self, name, struct):
        attr, body = struct(self.chance(0.4))
        return "%s %s %s" % (attr, name, body)

    def item(self):
        if self.chance(0.25):
            return self.mistakes()
        bad = self.chance(0.35)
        k = self.r.random()
        if k < 0.4:
            return self.struct(bad)
        if k < 0.65:
            return self.enum(bad)
        return self.call(bad)


def corpus(seed, n):
    rng = random.Random(seed)
    g = Gen(rng)
    return [" ".join(g.item().split("\n")) for _ in range(n)]
