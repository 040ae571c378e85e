"""C25: writes the types to derive for (every shape, generics, where clause, name, position up to
the bounds below), so that the explorer of C25 is compiled with all of them; checks that unions
are refused.  A type that does not compile is a violation: all of them compile on a correct tree."""
import itertools, json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor

P = "crate::pre::"
MENU = [P + "W", P + "Maybe<" + P + "Plus, " + P + "W>", P + "LitInt", P + "Paren<" + P + "Any<" + P + "W>>", P + "Comma"]
STD = "#[derive(::core::cmp::PartialEq, ::core::cmp::Eq, ::core::hash::Hash, ::core::fmt::Debug, ::core::clone::Clone)]"
DER = "#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]"


class Field:
    def __init__(self, name, ty, inst=None, attr="", vis="pub "):
        self.name, self.ty, self.inst, self.attr, self.vis = name, ty, inst or ty, attr, vis


class Body:
    """fields of a struct or variant; kind: unit, tuple, named"""
    def __init__(self, kind, fields=(), attr="", disc=""):
        self.kind, self.fields, self.attr, self.disc = kind, list(fields), attr, disc

    def decl(self, vis):
        v = lambda f: f.vis if vis else ""
        if self.kind == "unit":
            return ""
        if self.kind == "tuple":
            return "(" + ", ".join("%s %s%s" % (f.attr, v(f), f.ty) for f in self.fields) + ")"
        return " { " + ", ".join("%s %s%s: %s" % (f.attr, v(f), f.name, f.ty) for f in self.fields) + " }"

    def names(self):
        return [str(i) if self.kind == "tuple" else f.name for i, f in enumerate(self.fields)]

    def model(self):
        return "vec![%s]" % ", ".join('("%s", <%s as Spec>::g())' % (n, f.inst) for n, f in zip(self.names(), self.fields))


class Type:
    def __init__(self, what, name, body, params="", where="", inst="", outer="", inner="", vis="pub ", pre="", also=()):
        """body: a Body or a list of (variant name, Body); params: declared generics; inst: generics of the instance;
        outer: with %s for the declaration; inner: further items next to it"""
        self.what, self.name, self.body, self.params, self.where, self.inst = what, name, body, params, where, inst
        self.outer, self.inner, self.vis, self.pre, self.also = outer, inner, vis, pre, list(also)

    def decl(self):
        w = " " + self.where if self.where else ""
        head = "%s\n%s\n%s" % (STD, DER, self.pre)
        if isinstance(self.body, Body):
            b = self.body
            if b.kind == "named":
                return "%s%sstruct %s%s%s%s" % (head, self.vis, self.name, self.params, w, b.decl(True))
            return "%s%sstruct %s%s%s%s;" % (head, self.vis, self.name, self.params, b.decl(True), w)
        return "%s%senum %s%s%s { %s }" % (head, self.vis, self.name, self.params, w, ", ".join("%s %s%s%s" % (b.attr, n, b.decl(False), b.disc) for n, b in self.body))

    def spec(self, path):
        me = path + self.name + self.inst
        name = path + self.name
        nm = self.name
        if isinstance(self.body, Body):
            g = 'G::Struct("%s", %s)' % (nm, self.body.model())
            t = 'o.push_str(" (%s"); %s o.push(\')\');' % (nm, " ".join("Spec::node(&self.%s, o);" % f for f in self.body.names()))
        else:
            g = 'G::Enum("%s", vec![%s])' % (nm, ", ".join('("%s", %s)' % (n, b.model()) for n, b in self.body))
            arms = []
            for n, b in self.body:
                pat = "{ %s }" % ", ".join("%s: ref x%d" % (f, i) for i, f in enumerate(b.names())) if b.kind != "unit" else "{}"
                arms.append('%s::%s %s => { o.push_str(" (%s::%s"); %s o.push(\')\'); }' % (name, n, pat, nm, n, " ".join("Spec::node(x%d, o);" % i for i in range(len(b.fields)))))
            t = "match *self { %s }" % " ".join(arms)
        return "impl Spec for %s { fn g() -> G { %s } #[allow(unused)] fn tree(&self, o: &mut String) { %s } fn rebuild(&self, _: u32) -> Self { unreachable!() } }" % (me, g, t)


def fields(n, kind, param=None, mark=None, at=0):
    """n fields from the menu; `param` = (type, instance) replaces the field number `at`; `mark` the last one"""
    fs = []
    for i in range(n):
        f = Field("f%d" % i, MENU[i % len(MENU)])
        if param and i == at:
            f = Field("f%d" % i, *param)
        fs.append(f)
    if mark:
        fs.append(Field("mark", *mark))
    return Body(kind, fs)


def shapes(param=None, mark=None):
    """every shape; (name, struct body or variants)"""
    v = []
    need = bool(mark)
    if not need:
        v.append(("unit", Body("unit")))
    for kind in ("tuple", "named"):
        for n in range(0, 4):
            for at in range(max(1, n) if param else 1):
                if n == 0 and need and param:
                    continue
                v.append(("%s %d@%d" % (kind, n, at), fields(n, kind, param, mark, at)))
    if not need:
        v.append(("empty enum", []))
        v.append(("unit variants", [("A", Body("unit")), ("B", Body("unit"))]))
    for kind in ("tuple", "named"):
        for n in range(0, 4):
            for at in range(max(1, n) if param else 1):
                if n == 0 and need and param:
                    continue
                v.append(("variant %s %d@%d" % (kind, n, at), [("A", fields(n, kind, param, mark, at))]))
    # the parameter used in one of several variants
    for at in range(3):
        two = [("A", fields(2, "tuple", param if at == 0 else None, mark if at == 0 else None, 1)), ("B", fields(2, "named", param if at == 1 else None, mark if at == 1 else None)), ("C", Body("unit")), ("D", fields(1, "tuple", param if at == 2 else None, mark if at == 2 else None)), ("E", Body("named")), ("F", Body("tuple"))]
        v.append(("mixed variants @%d" % at, two))
    return v


W = P + "W"


def generics():
    """(what, declared parameters, where clauses, instance, (param type, instance), (marker type, instance))"""
    m = lambda a, b: (P + "Mark" + a, P + "Mark" + b)
    Wm = "<" + W + ">"
    MP = P + "Maybe<" + P + "Minus, "
    out = [
        ("none", "", ["", "where", "where Self: Sized", "where u8: ::core::marker::Copy,"], "", None, None),
        ("T", "<T>", ["", "where", "where T: ::core::clone::Clone", "where T: ::core::clone::Clone, Self: Sized,", "where for<'x> &'x T: Sized", "where T: ::core::clone::Clone + ::core::fmt::Debug, [T]: ::core::cmp::PartialEq"], Wm, ("T", W), None),
        ("T in a helper", "<T>", [""], Wm, (MP + "T>", MP + W + ">"), None),
        ("T in Box", "<T>", ["", "where T: Sized"], Wm, ("::std::boxed::Box<T>", "::std::boxed::Box" + Wm), None),
        ("T: Clone", "<T: ::core::clone::Clone>", ["", "where T: ::core::fmt::Debug"], Wm, ("T", W), None),
        ("T: Parse", "<T: ::parsel::Parse + ::parsel::ToTokens>", [""], Wm, ("T", W), None),
        ("T, default", "<T = %s>" % W, [""], "", ("T", W), None),
        ("T, default and bound", "<T: ::core::clone::Clone = %s>" % W, ["where T: Sized"], "", ("T", W), None),
        ("T, unused but for a marker", "<T>", ["", "where T: ::core::clone::Clone"], "<%sNo>" % P, None, m("<'static, T, 0>", "<'static, %sNo, 0>" % P)),
        ("T: ?Sized", "<T: ?Sized>", [""], Wm, None, m("<'static, T, 0>", "<'static, %s, 0>" % W)),
        ("lifetime", "<'a>", ["", "where 'static: 'a"], "<'static>", None, m("<'a, u8, 0>", "<'static, u8, 0>")),
        ("lifetimes", "<'a, 'b: 'a>", ["", "where 'b: 'a,"], "<'static, 'static>", None, m("<'a, &'b u8, 0>", "<'static, &'static u8, 0>")),
        ("const", "<const N: usize>", ["", "where [u8; N]: Sized"], "<3>", None, m("<'static, u8, N>", "<'static, u8, 3>")),
        ("const, unused", "<const N: usize>", ["", "where [u8; N]: Sized"], "<3>", None, None),
        ("const bool, default", "<const B: bool = true>", [""], "", None, None),
        ("const char", "<const C: char>", [""], "<'x'>", None, None),
        ("everything", "<'a, 'b: 'a, T: 'a + ::core::clone::Clone, U: 'b, const N: usize>", ["", "where T: 'b, U: 'a, 'b: 'a, [U; N]: Sized,"], "<'static, 'static, %s, %sNo, 4>" % (W, P), ("T", W), m("<'a, &'b U, N>", "<'static, &'static %sNo, 4>" % P)),
        ("two parameters", "<T, U>", ["", "where T: ::core::cmp::PartialEq<T>, U: Sized"], "<%s, %sLitInt>" % (W, P), ("T", W), ("U", P + "LitInt")),
        ("strange parameter names", "<Result, Ok>", ["", "where Ok: Sized"], "<%s, %sLitInt>" % (W, P), ("Result", W), ("Ok", P + "LitInt")),
        ("strange parameter names 2", "<Err, Option>", [""], "<%s, %sLitInt>" % (W, P), ("Err", W), ("Option", P + "LitInt")),
        ("strange parameter names 3", "<TokenStream, Error>", [""], "<%s, %sLitInt>" % (W, P), ("TokenStream", W), ("Error", P + "LitInt")),
    ]
    return out


SNAKE = """input tokens result error err ok cause body string formatter f s x y i n it this ast_node parsel core std syn quote parse from_str to_tokens fmt stream cursor value
variant field fields name index ident span msg message parser lookahead fork ahead begin best state ctx context chain_error try_parse_variant map_err unwrap_or_else some none
parsel_field parsel_field_0 parsel_field_a parsel_field_A_0 _x _0 __parsel __private r#type r#fn r#match r#struct r#let r#ref r#mut r#in r#if r#async r#dyn r#try r#use r#where r#loop r#static union auto default macro_rules raw
A Input Tokens Ok Err Some None größe x1 r#impl r#enum r#box r#yield _input _tokens arg0 other out ret res val node left right lhs rhs e t v g p o""".split()
VARIANTS = """Ok Err Some None Result Option Error Parse ToTokens FromStr Display TokenStream ParseStream ParseBuffer Input Tokens Self_ Default Box Vec String Fn Word Variant Parsel Core Std Größe X1 T
input tokens result error parsel core r#type r#fn r#match r#struct r#true r#impl parsel_field _A _x __ A B left right""".split()
TYPES = """Ok Err Some None Result Option Error Parse ToTokens FromStr Display TokenStream TokenTree ParseStream ParseBuffer Formatter Input Tokens Box Vec String Str Fn FnOnce Iterator IntoIterator From Into Clone Copy Debug
PartialEq Eq Hash Default Drop Send Sync Sized Word Variant Parsel Core Std Größe X1 T A Field Span Ident Range Cow Deref Extend ToString ToOwned AsRef Arguments Write Fmt Unit Usize Bool Char ParseError Node Ast Token Token2 Item Expr Type""".split()


def types():
    ts = []
    # every shape with all generics and where clauses
    for what, params, wheres, inst, param, mark in generics():
        for shape, body in shapes(param, mark):
            if param and not mark and not any(f.ty == param[0] for b in ([body] if isinstance(body, Body) else [x[1] for x in body]) for f in b.fields):
                continue
            for w in wheres:
                ts.append(Type("shape %s, generics %s, `%s`" % (shape, what, w), "Shape", body, params, w, inst))
    # names of fields: alone, and every one together with every other
    two = lambda n: [Field(n, W), Field("between", MENU[1])]
    for n in SNAKE:
        ts.append(Type("field named " + n, "Named", Body("named", two(n))))
        ts.append(Type("variant field named " + n, "Named", [("A", Body("named", two(n))), ("B", Body("named", [Field(n, P + "LitInt")])), ("C", Body("tuple", two(n)))]))
        ts.append(Type("generic variant field named " + n, "Named", [("A", Body("named", [Field(n, "T", W)]))], "<T>", "", "<%s>" % W))
    for what, names in (("all", SNAKE), ("all, reversed", SNAKE[::-1])):
        fs = lambda: [Field(n, MENU[i % 2]) for i, n in enumerate(names)]
        ts.append(Type("fields with %s names" % what, "Named", Body("named", fs())))
        ts.append(Type("variant fields with %s names" % what, "Named", [("A", Body("named", fs())), ("B", Body("named", [Field("b", W)]))]))
    pairs = ["input", "tokens", "result", "error", "cause", "ast_node", "parsel_field_a", "a", "r#type", "parsel_field_input", "parsel_field_parsel_field_a", "parsel_field_A_0", "parsel_field_parsel_field_A_0", "Err", "string", "formatter"]
    for a, b in itertools.permutations(pairs, 2):
        ts.append(Type("variant fields named %s, %s" % (a, b), "Named", [("A", Body("named", [Field(a, W), Field(b, MENU[1])]))]))
    # names of variants
    for n in VARIANTS:
        ts.append(Type("variant named " + n, "Named", [(n, Body("tuple", [Field("", MENU[2]), Field("", MENU[1])])), ("Zz", Body("tuple", [Field("", W)]))]))
        ts.append(Type("unit variant named " + n, "Named", [("Zz", Body("tuple", [Field("", W)])), (n, Body("unit"))]))
        ts.append(Type("variant with fields named " + n, "Named", [(n, Body("named", [Field("a", MENU[2]), Field("input", MENU[1])]))]))
    ts.append(Type("variants with all names", "Named", [(n, Body("tuple", [Field("", MENU[i % 3 * 2 % 5]), Field("", P + "K%d" % i)])) for i, n in enumerate(VARIANTS)]))
    ts.append(Type("variants with all names, reversed", "Named", [(n, Body("named", [Field("tokens", W), Field("input", P + "K%d" % i)])) for i, n in enumerate(VARIANTS[::-1])]))
    # names of types
    for n in TYPES:
        ts.append(Type("unit type named " + n, n, Body("unit")))
        ts.append(Type("tuple type named " + n, n, Body("tuple", [Field("", W), Field("", MENU[1])])))
        ts.append(Type("record type named " + n, n, Body("named", [Field("input", W), Field("tokens", MENU[1])])))
        ts.append(Type("choice type named " + n, n, [(n, Body("tuple", [Field("", W)])), ("B", Body("named", [Field("a", P + "LitInt")])), ("C", Body("unit"))]))
        ts.append(Type("generic type named " + n, n, [("A", Body("tuple", [Field("", "Param", W)])), ("B", Body("named", [Field("a", P + "LitInt")]))], "<Param>", "", "<%s>" % W))
    others = lambda but: " ".join("#[allow(dead_code)] pub struct %s;" % n for n in TYPES if n not in but and n not in ("Sized", "Copy", "Clone"))
    for shape, body in shapes():
        ts.append(Type("shape %s among types of all names" % shape, "Shape", body, inner=others(["Shape"])))
        ts.append(Type("shape %s without prelude" % shape, "Shape", body, outer="#![no_implicit_prelude]"))
        ts.append(Type("shape %s among modules of all names" % shape, "Shape", body, inner="pub mod parsel {} pub mod core {} pub mod std {} pub mod syn {} pub mod quote {} pub mod proc_macro2 {} pub mod alloc {} pub mod util {} pub mod parse {} pub mod primitive {}"))
        ts.append(Type("shape %s with methods of its own" % shape, "Shape", body, inner="#[allow(dead_code)] impl Shape { pub fn parse() {} pub fn to_tokens() {} pub fn from_str() {} pub fn fmt(&self) {} pub fn to_string(&self) {} pub fn into_token_stream(self) {} pub fn span(&self) {} pub fn new() {} }"))
        ts.append(Type("shape %s among traits" % shape, "Shape", body, inner="""#[allow(dead_code)] pub trait Tr { fn parse(&self) {} fn to_tokens(&self, _: u8) {} fn from_str(&self) {} fn fmt(&self) {} fn map_err(&self) {} fn unwrap_or_else(&self) {} fn error(&self) {} fn into(&self) {} fn call(&self) {} }
            impl<T: ?Sized> Tr for T {}"""))
        ts.append(Type("shape %s, private" % shape, "Shape", body, vis=""))
        ts.append(Type("shape %s, of the crate" % shape, "Shape", body, vis="pub(crate) "))
        ts.append(Type("shape %s, with attributes" % shape, "Shape", body, pre='/** documented */ #[allow(clippy::all)] #[doc = "more"] #[must_use]\n'))
        ts.append(Type("shape %s, in a function" % shape, "Shape", body, outer="fn"))
        ts.append(Type("shape %s, in a constant" % shape, "Shape", body, outer="const"))
        ts.append(Type("shape %s, from a macro" % shape, "Shape", body, outer="macro"))
        ts.append(Type("shape %s, from a macro with types and names passed on" % shape, "Shape", body, outer="macro2"))
    # attributes of fields and variants
    for attr in ('#[doc = "x"]', "/** doc */", "#[allow(dead_code)]", "#[cfg(all())]", "#[parsel(recursive)]", "#[parsel(recursive = true)]", "#[parsel(recursive = false)]", "#[parsel()]", '#[doc = "x"] #[parsel(recursive)] #[allow(dead_code)]'):
        for kind in ("tuple", "named"):
            fs = [Field("a", W, attr=attr), Field("b", MENU[1], attr=attr)]
            ts.append(Type("fields (%s) with attribute %s" % (kind, attr), "Attr", Body(kind, fs)))
            ts.append(Type("fields (%s) with attribute %s" % (kind, attr), "Attr", [("A", Body(kind, fs)), ("B", Body(kind, [Field("a", P + "LitInt", attr=attr)]))]))
        if "parsel" not in attr:
            ts.append(Type("variants with attribute %s" % attr, "Attr", [("A", Body("tuple", [Field("", W)], attr)), ("B", Body("unit", (), attr))]))
    for vis in ("", "pub(crate) ", "pub(super) ", "pub(in crate) "):
        for kind in ("tuple", "named"):
            ts.append(Type("fields (%s) visible %s" % (kind, vis), "Vis", Body(kind, [Field("a", W, vis=vis), Field("b", MENU[1], vis=vis)])))
    ts.append(Type("discriminants", "Disc", [("A", Body("unit", (), "", " = 7")), ("B", Body("unit", (), "", " = -2"))], pre="#[repr(i8)]\n"))
    ts.append(Type("discriminants with fields", "Disc", [("A", Body("tuple", [Field("", W)], "", " = 7")), ("B", Body("unit"))], pre="#[repr(u8)]\n"))
    # recursive ones
    B = "::std::boxed::Box<%s>"
    R = "#[parsel(recursive)]"
    MP = P + "Maybe<" + P + "Plus, %s>"
    for r in (R, "#[parsel(recursive = true)]", "#[doc = \"\"] " + R):
        ts.append(Type("recursive named struct, %s" % r, "Rec", Body("named", [Field("a", W), Field("b", MP % (B % "Rec"), MP % (B % "super::Rec"), r)])))
        ts.append(Type("recursive tuple struct, %s" % r, "Rec", Body("tuple", [Field("", W), Field("", MP % (B % "Rec"), MP % (B % "super::Rec"), r)])))
        ts.append(Type("recursive through Self, %s" % r, "Rec", Body("tuple", [Field("", W), Field("", MP % (B % "Self"), MP % (B % "super::Rec"), r)])))
        ts.append(Type("recursive enum, %s" % r, "Rec", [("A", Body("tuple", [Field("", W), Field("", P + "Plus"), Field("", B % "Rec", B % "super::Rec", r)])), ("B", Body("named", [Field("input", P + "Paren<" + B % "Rec" + ">", P + "Paren<" + B % "super::Rec" + ">", r)])), ("C", Body("tuple", [Field("", W)]))]))
        ts.append(Type("generic recursive struct, %s" % r, "Rec", Body("named", [Field("a", "T", W), Field("b", MP % (B % "Rec<T>"), MP % (B % ("super::Rec<%s>" % W)), r)]), "<T>", "", "<%s>" % W))
        ts.append(Type("generic recursive enum, %s" % r, "Rec", [("A", Body("tuple", [Field("", "T", W), Field("", P + "Plus"), Field("", B % "Rec<T, N>", B % ("super::Rec<%s, 2>" % W), r)])), ("B", Body("tuple", [Field("", "T", W)]))], "<T: ::core::clone::Clone, const N: usize>", "where T: Sized", "<%s, 2>" % W))
    Q = lambda t: MP % (B % t)
    for attr in (R, "#[parsel(recursive = true)]"):
        ts.append(Type("mutually recursive structs", "Rec", Body("tuple", [Field("", W), Field("", Q("Other"), Q("super::Other"), attr)]),
                       also=[Type("", "Other", Body("named", [Field("tokens", P + "LitInt"), Field("input", Q("Rec"), Q("super::Rec"), attr)]))]))
        ts.append(Type("mutually recursive, generic", "Rec", [("A", Body("tuple", [Field("", P + "Paren<" + B % "Other<T>" + ">", P + "Paren<" + B % ("super::Other<%s>" % W) + ">", attr)])), ("B", Body("tuple", [Field("", "T", W)]))], "<T>", "", "<%s>" % W,
                       also=[Type("", "Other", Body("tuple", [Field("", "T", W), Field("", Q("Rec<T>"), Q("super::Rec<%s>" % W), attr)]), "<T>", "", "<%s>" % W)]))
        ts.append(Type("three types in a circle", "Rec", Body("named", [Field("a", W), Field("b", B % "One", B % "super::One", attr)]),
                       also=[Type("", "One", [("A", Body("named", [Field("x", P + "Plus"), Field("two", "Two", "super::Two", attr)])), ("B", Body("tuple", [Field("", P + "Comma")]))]),
                             Type("", "Two", Body("tuple", [Field("", P + "Any<" + P + "LitInt>"), Field("", P + "Maybe<" + P + "Minus, Rec>", P + "Maybe<" + P + "Minus, super::Rec>", attr)]))]))
    # many fields and variants
    for n in (13, 40, 130):
        ts.append(Type("%d fields" % n, "Big", Body("named", [Field("f%d" % i, MENU[i % 5]) for i in range(n)])))
        ts.append(Type("%d fields in a row" % n, "Big", Body("tuple", [Field("", MENU[i % 5]) for i in range(n)])))
        ts.append(Type("%d fields of a variant" % n, "Big", [("A", Body("tuple", [Field("", MENU[i % 5]) for i in range(n)])), ("B", Body("named", [Field("f%d" % i, MENU[(i + 1) % 5]) for i in range(n)]))]))
        ts.append(Type("%d variants" % n, "Big", [("V%d" % i, Body("tuple", [Field("", MENU[i % 3 * 2 % 5]), Field("", P + "K%d" % (i % 40))])) for i in range(n)]))
    return [t for t in ts if t]


def macro_form(t, passed):
    """the declaration made by a macro"""
    d = t.decl()
    if not passed:
        return "macro_rules! make { () => { %s } } make!();" % d
    # types and names handed over as fragments
    k = [0]
    pats, args, m = [], [], {}

    def put(frag, text):
        key = (frag, text)
        if key not in m:
            m[key] = "$p%d" % k[0]
            k[0] += 1
            pats.append("%s:%s" % (m[key], frag))
            args.append(text)
        return m[key]
    bodies = [t.body] if isinstance(t.body, Body) else [b for _, b in t.body]
    import copy
    t2 = copy.deepcopy(t)
    for b in ([t2.body] if isinstance(t2.body, Body) else [b for _, b in t2.body]):
        for f in b.fields:
            f.ty = put("ty", f.ty)
            f.name = put("ident", f.name) if f.name else ""
    if not isinstance(t2.body, Body):
        t2.body = [(put("ident", n), b) for n, b in t2.body]
    t2.name = put("ident", t2.name)
    return "macro_rules! make { (%s) => { %s } } make!(%s);" % (", ".join(pats), t2.decl(), ", ".join(args))


def render(ts):
    """the source file, and for each line the number of the type it belongs to"""
    out = []
    for i, t in enumerate(ts):
        what = t.what.replace('"', "'").replace("\n", " ")
        spec = " ".join(x.spec("super::") for x in [t] + t.also)
        inner = t.inner + " ".join(x.decl() for x in t.also)
        decl = t.decl()
        attrs = ""
        if t.outer == "#![no_implicit_prelude]":
            attrs = "#![no_implicit_prelude]"
        elif t.outer == "macro":
            decl = macro_form(t, False)
        elif t.outer == "macro2":
            decl = macro_form(t, True)
        reg = 'fn add(v: &mut Vec<crate::Entry>) { v.push(crate::entry::<%s>("%s", %d)) }' % ("super::" + t.name + t.inst, what, i)
        if t.outer in ("fn", "const"):
            me = t.name + t.inst
            body = "%s use crate::harness::*; %s %s" % (decl, t.spec(""), "")
            if t.outer == "fn":
                src = 'pub mod t%d { pub fn add(v: &mut Vec<crate::Entry>) { %s v.push(crate::entry::<%s>("%s", %d)) } }' % (i, body, me, what, i)
            else:
                src = 'pub mod t%d { pub const ADD: fn(&mut Vec<crate::Entry>) = { %s fn add(v: &mut Vec<crate::Entry>) { v.push(crate::entry::<%s>("%s", %d)) } add }; pub fn add(v: &mut Vec<crate::Entry>) { ADD(v) } }' % (i, body, me, what, i)
        else:
            # the prelude is named again inside, as the types may have taken its names
            src = "pub mod t%d { %s %s %s pub mod spec { use ::std::prelude::rust_2021::*; use crate::harness::*; %s pub %s } pub use self::spec::add as parsel_add; }" % (i, attrs, decl, inner, spec, reg)
        out.append(src.replace("\n", " "))
    adds = " ".join(("t%d::add(&mut v);" if t.outer in ("fn", "const") else "t%d::parsel_add(&mut v);") % i for i, t in enumerate(ts))
    out.append("pub fn entries() -> Vec<crate::Entry> { let mut v = vec![]; %s v }" % adds)
    return "\n".join(out) + "\n"


UNION = {
    "plain": "%s union U { a: u8, b: u16 }",
    "generic": "%s union U<T: Copy> { a: T, b: u16 }",
    "where clause and parameters": "%s union U<'a, T: Copy, const N: usize> where T: Sized { a: T, b: [u8; N], c: &'a u8 }",
    "one field": "%s #[repr(C)] pub union U { pub a: u32 }",
}


def unions(check, prop):
    """every derive on a union must be refused; the same on a struct is the control"""
    p = subprocess.run(["cargo", "build", "--offline", "--release", "--lib", "--message-format=json"], cwd=check.MC, env=check.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if p.returncode != 0:
        check.die("the library does not build:\n" + p.stderr[-3000:])
    lib = None
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "parsel":
            lib = [f for f in m["filenames"] if f.endswith(".rlib")][0]
    if not lib:
        check.die("no parsel library found")
    d = os.path.join(check.TARGET, "c25")
    cases = []
    for der in ("Parse", "ToTokens", "Parse, ToTokens", "Parse, ToTokens, FromStr, Display"):
        dd = "#[derive(%s)]" % ", ".join("::parsel::" + x.strip() for x in der.split(","))
        for k, u in UNION.items():
            cases.append((der, k, dd, u % dd, True))
        cases.append((der, "control", dd, "%s pub struct S { pub a: ::parsel::ast::Word }" % dd, False))

    def one(c):
        i, (der, k, dd, src, refuse) = c
        f = os.path.join(d, "u%d.rs" % i)
        with open(f, "w") as o:
            o.write(src + "\n")
        r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "-o", os.path.join(d, "u%d.rmeta" % i), "-L", "dependency=" + os.path.dirname(lib), "--extern", "parsel=" + lib, "--error-format=short", f],
                           env=check.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
        return r.returncode, r.stdout
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, enumerate(cases)))
    for (der, k, dd, src, refuse), (rc, out) in zip(cases, rs):
        if "internal compiler error" in out or (rc != 0 and "error" not in out):
            check.die("rustc failed on %s: %s" % (src, out[-1000:]))
        if refuse and rc == 0:
            return "derive(%s) on a union is not refused: %s" % (der, src), len(cases)
        if not refuse and rc != 0:
            return "derive(%s) does not compile: %s: %s" % (der, src, out[-1500:]), len(cases)
        if refuse and "panicked" in out:
            return "derive(%s) on a union panics instead of being refused: %s: %s" % (der, src, out[-1500:]), len(cases)
    return None, len(cases)


def prepare(check, prop, t0):
    d = os.path.join(check.TARGET, "c25")
    os.makedirs(d, exist_ok=True)
    ts = types()
    gen = os.path.join(d, "gen.rs")
    src = render(ts)
    with open(gen, "w") as f:
        f.write(src)
    try:
        rc, out = check.cargo_build(["--lib"])
        if rc != 0:
            check.die("the harness does not build against /repo:\n" + out[-3000:])
        bad, n = unions(check, prop)
        if bad:
            check.evidence(prop, t0, {"samples": [bad]}, 1)
            check.violation(prop, {"suite": "unions", "idx": None, "what": bad})
            return 1
        rc, out = check.cargo_build(["--bin", "c25"])
    except subprocess.TimeoutExpired:
        check.die("the build did not finish")
    if rc != 0:
        where = [int(m) for m in re.findall(r"gen\.rs:(\d+):", out)]
        hand = open(os.path.join(check.MC, "src", "bin", "c25.rs")).read().split("\n")
        lo = hand.index("mod need {") + 1
        hi = hand.index("}", lo) + 1
        where += [len(ts) + int(m) for m in re.findall(r"c25\.rs:(\d+):", out) if lo <= int(m) <= hi]
        panics = "proc-macro derive panicked" in out
        errs = re.findall(r"^error.*$", out, re.M)
        if not (where or panics) or not errs:
            check.die("the explorer does not build:\n" + out[-3000:])
        broken = sorted(set(w - 1 for w in where if w - 1 < len(ts)))
        first = broken[0] if broken else None
        msg = "%d derived types do not compile, e.g. %s: %s\n%s" % (len(set(where)), ts[first].what if first is not None else "?", ts[first].decl() if first is not None else "", "\n".join(errs[:3]))
        check.evidence(prop, t0, {"samples": [msg[:2000]], "states": len(ts)}, 1)
        check.violation(prop, {"suite": "compile", "idx": first, "what": msg[:3000], "output": out[:3000]})
        return 1
    return {"types_compiled": len(ts), "union_cases": n}


if __name__ == "__main__":
    import sys
    ts = types()
    os.makedirs(sys.argv[1], exist_ok=True)
    open(os.path.join(sys.argv[1], "gen.rs"), "w").write(render(ts))
    print(len(ts))
