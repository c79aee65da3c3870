"""Format macro invocations: generating them, rendering them as Rust, compiling and running them.

Only invocations are made here; what they mean, and whether they are to be accepted, is decided by
spec/FormatString.tla."""
import itertools, json, os, random, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from svlib import *

COLORS = ["default", "black", "red", "green", "yellow", "blue", "magenta", "cyan", "white", "brightblack", "brightred",
          "brightgreen", "brightyellow", "brightblue", "brightmagenta", "brightcyan", "brightwhite"]
INTENS = ["normal", "bold", "faint"]
TYPES = ["", "?", "x?", "X?", "o", "x", "X", "p", "b", "e", "E", "s"]
KEYWORDS = ["type", "match", "fn", "loop", "in", "async", "dyn", "abstract", "try", "gen", "union", "auto", "default", "raw"]
RESERVED = {"type", "match", "fn", "loop", "in", "async", "dyn", "abstract", "try", "gen", "let", "mut", "ref", "move", "as", "use",
            "mod", "impl", "trait", "struct", "enum", "where", "while", "for", "if", "else", "return", "break", "continue", "const",
            "static", "unsafe", "extern", "pub", "true", "false", "await", "yield", "become", "box", "do", "final", "macro",
            "override", "priv", "typeof", "unsized", "virtual"}
NAMES = ["a", "b", "x", "A", "B", "xx", "foo_", "Foo", "a_b", "ab", "foo", "_x", "a1", "s", "e", "o", "p", "width", "r", "fg", "bold", "é", "名", "x_", "X", "E", "a0", "args", "fmt"]
BASES = [0, 51 * 2 + 3 * 5 + 1, 0, 51 * 4 + 2, 3 * 16 + 1, 866]

# expression forms; @ is the evaluation of the argument.  Those of reference type do not go with {:p}.
FORMS = [
    "@", "(@)", "@ + 1", "@ - 2 * 3", "@ * 2", "@ / 1 % 2", "@ << 1 >> 2", "@ & 1 | 2 ^ 3", "-@", "!@", "- - @", "{ @ }", "{ let x = @; x }",
    "if true { @ } else { unreachable!() }", "if let Some(x) = @.opt() { x } else { var(\"\") }", "match 3 { 1 => var(\"\"), _ => @ }",
    "loop { break @ }", "'l: { break 'l @ }", "unsafe { @ }", "(|| @)()", "(|x| x)(@)", "(@,).0", "[@][0]", "(1, @).1", "[@; 1][0]",
    "Holder { p: @ }.p", "*Holder { p: @ }", "@.me()", "@.me().me()", "@.opt().unwrap()", "@.opt().ok_or(stylish::Error)?", "res(@)?", "@ as Probe", "ident!(@)",
    "sv::ident![@]", "*&@", "**&&@", "*&mut @", "Probe::me(@)", "<Probe>::me(@)", "<Probe as Clone>::clone(&@)", "{ struct S; @ }",
    "std::convert::identity::<Probe>(@)", "@.opt().map(|p| p).unwrap()", "match @ { Probe(n) => Probe(n) }", "vec![@][0]",
    "{ let mut v = Vec::new(); v.push(@); v[0] }", "[@, var(\"\")][0]", "(@ + 1, 2).0", "return_it(@)", "{ #[allow(unused)] let y = 1; @ }",
    "if let Some(x @ Probe(_)) = @.opt() { x } else { var(\"\") }".replace("x @ Probe", "x # Probe"),
    "@.opt().filter(|_| 1 < 2 && 3 > 2 || false).unwrap()", "(move || { @ })()", "{ fn g(p: Probe) -> Probe { p } g(@) }",
    "match (1..3, ..=4) { _ => @ }", "{ let _z = 1 == 2; @ }", "const_it::<3>(@)", "@.opt().ok_or(()).unwrap()",
]
REF_FORMS = ["&@", "&&@", "&(@ + 1)", "&*&@", "&-@", "&Holder { p: @ }.p", "&[@][0]"]

# their types have no stylish::Display
STD_FORMS = ["&mut @", "Box::new(@)", "std::rc::Rc::new(@)", "std::borrow::Cow::Borrowed(&@)"]

# what may be in scope where a macro is used, none of it the macro's business
_lower = ("diff style inner formatter value output segments positional_args named_args arg restyle writer text lit piece format "
          "foreground background intensity align sign alternate zero precision debug_hex trap error current result option dst").split()
HOSTILE = [
    "pub use self::Mine::*; #[derive(Debug)] pub enum Mine { Some(u8), None }",
    "pub use self::Mine::*; pub enum Mine { Ok(u8), Err(u8) }",
    "fn Some() {} fn None() {} fn Ok() {} fn Err() {} fn drop() {}",
    "struct Some; struct None; struct Ok; struct Err;",
    "".join("const %s: u8 = 1; " % x for x in _lower),
    "".join("static %s: u8 = 1; " % x for x in _lower),
    "".join("struct %s; " % x for x in _lower),
    "".join("fn %s() {} " % x for x in _lower),
    "enum Result {} enum Option {} struct String; struct Vec; struct Box;",
    "mod core {} mod std {} mod alloc {} mod stylish_core {} mod stylish_macros {} mod stylish_style {} mod fmt {} mod option {}",
    "struct Formatter; struct Arguments; struct Style; enum Color {} enum Intensity {} struct StyleDiff; struct FormatterArgs; struct Foreground; "
    "struct Background; enum Align {} enum Sign {} enum DebugHex {} struct StdFmt; struct StdFmtOther; struct StdFmtDebug;",
    "trait Display {} trait Debug {} trait Write {} trait Restyle {} trait Default {} trait Fn {} trait From {} trait Into {} trait Clone {} trait Try {}",
    "macro_rules! format_args { () => {} } macro_rules! write { () => {} } macro_rules! panic { () => {} } macro_rules! concat { () => {} } "
    "macro_rules! stringify { () => {} } macro_rules! matches { () => {} } macro_rules! vec { () => {} } macro_rules! unreachable { () => {} }",
    "trait Meddle { fn fmt(&self) {} fn write_str(&self) {} fn with(&self) {} fn with_args(&self) {} fn clone(&self) {} fn into(&self) {} fn apply(&self) {} "
    "fn as_ref(&self) {} fn borrow(&self) {} fn deref(&self) {} fn map(&self) {} fn as_str(&self) {} fn unwrap(&self) {} } impl<T: ?Sized> Meddle for T {}",
    "type usize = (); type str = (); type u8 = (); type bool = (); type char = ();",
    "#![no_implicit_prelude]",
    "#![no_implicit_prelude] extern crate core as alloc; extern crate core as std; mod core {}",
    "#![deny(warnings)] #![allow(unused_imports, non_snake_case, unused_parens, unused_braces, unused_variables)] #![forbid(unsafe_code)]",
    "mod stylish {} mod sv {} mod sty {} macro_rules! stylish { () => {} }",
    "trait Makes { fn default() -> u8 { 0 } fn new() -> u8 { 0 } fn from() -> u8 { 0 } fn none() -> u8 { 0 } } impl<T: ?Sized> Makes for T {}",
    "trait Consts { const BLACK: u8 = 0; const RED: u8 = 0; const Red: u8 = 0; const Bold: u8 = 0; const Default: u8 = 0; } impl<T: ?Sized> Consts for T {}",
    "macro_rules! __ { () => {} } macro_rules! export { () => {} } mod export {} mod __export {} mod private {} mod 𓀄 {} fn 𓀄() {} macro_rules! 𓀄 { () => {} }",
    "#[allow(non_upper_case_globals)] const _f: () = (); static f: () = (); static fmt_: () = (); const a: u8 = 0; const b: u8 = 0; const i: u8 = 0; const n: u8 = 0; "
    "const e: u8 = 0; const w: u8 = 0; const s: u8 = 0; const arg_0: u8 = 0; const arg0: u8 = 0; const __arg0: u8 = 0; const _0: u8 = 0; const args: u8 = 0;",
]


def rust_name(n):
    return "r#" + n if n in RESERVED else n


def esc(s, r=None, style="str"):
    """A Rust string literal for s."""
    if style == "raw":
        n = 0
        while '"' + "#" * n in s or (n == 0 and '"' in s):
            n += 1
        if "\r" in s or any(ord(c) < 32 and c not in "\n\t" or c in "\u202e\u2066" for c in s):
            return esc(s, r, "str")
        return "r%s\"%s\"%s" % ("#" * n, s, "#" * n)
    out = ""
    for i, c in enumerate(s):
        x = r.random() if r else 1
        if c in "\"\\":
            out += "\\" + c if x > 0.2 else "\\u{%x}" % ord(c)
        elif c == "\n":
            out += "\\n" if x > 0.2 else "\\x0A"
        elif c == "\t":
            out += "\\t"
        elif c == "\r":
            out += "\\r"
        elif c == "\0":
            out += "\\0"
        elif ord(c) < 32 or ord(c) == 127:
            out += "\\x%02x" % ord(c)
        elif x < 0.06:
            out += "\\u{%x}" % ord(c)
        elif x < 0.09 and ord(c) < 128:
            out += "\\x%02X" % ord(c)
        elif ord(c) > 126 and (c in "\u200d\u202e\u2066\u2028\ufeff\u0301" or not c.isprintable()):
            out += "\\u{%X}" % ord(c)
        else:
            out += c
            # a line continuation swallows white space after it
            if x > 0.97 and r and (i + 1 < len(s)) and s[i + 1] not in " \t\n\r":
                out += "\\\n      "
    return '"' + out + '"'


def rust_fmt(case, r):
    f = case["fmt"]
    k = case["form"]
    if k == "concat":
        parts, i = [], 0
        while i < len(f):
            n = r.randint(1, max(1, len(f) // 2))
            parts.append(f[i:i + n])
            i += n
        def part(p):
            if p.isascii() and p.isalpha() and r.random() < 0.5:
                return "stringify!(%s)" % p
            if len(p) > 1 and r.random() < 0.3:
                return "concat!(%s, %s)" % (esc(p[:1], r), esc(p[1:], r))
            return esc(p, r)
        return "concat!(%s)" % ", ".join(part(p) for p in parts or [""])
    return esc(f, r, "raw" if k == "raw" else "str")


# what is not an invocation at all: made from the literal and ", argument, argument"
ODD = {
    "suffix": [lambda f, t, x=x: (f + x, t) for x in ["x", "u8", "f64", "é", "str", "_a", "s"]],
    "commas": [lambda f, t: (f, t + ",,"), lambda f, t: (f, "," + (t or ",")), lambda f, t: (f, t.replace(", ", ",, ", 1) or ",,"), lambda f, t: ("," + f, t), lambda f, t: (f, ", ," + t[1:]),
               lambda f, t: (f, t.replace(", ", " ") + " 1"), lambda f, t: (f, t.replace(", ", "; ", 1) or ";"), lambda f, t: (f, t + ";"), lambda f, t: (f, t.replace(", ", " => ", 1) or " =>")],
    "tokens": [lambda f, t: (f, t + ", let y_ = 1"), lambda f, t: (f, t + ", zz ="), lambda f, t: (f + " " + f, t),
               lambda f, t: ("b\"{}{a}\"" if "{a}" in f else "b\"text\"", t), lambda f, t: ("&" + f, t), lambda f, t: ("*" + f, t), lambda f, t: ("fmt = " + f, t), lambda f, t: ("1", t), lambda f, t: ("'x'", t),
               lambda f, t: (f + ".0", t), lambda f, t: (f + "?", t), lambda f, t: (f + " as &str", t), lambda f, t: ("String::new()", t), lambda f, t: ("NAME_", t), lambda f, t: (f + " + " + f, t)]}


def render(case, r, one_line=True):
    """The invocation as the body of a function taking f."""
    lets = "".join("let %s = var(%s); " % (rust_name(n), json.dumps(n, ensure_ascii=False)) for n in case["scope"] if n != "self")
    args = []
    for i, a in enumerate(case["args"]):
        e = a["e"].replace("@", "ev(\"a%d\")" % (i + 1)).replace(" # ", " @ ")
        if a["n"]:
            e = "%s = %s" % ("r#" + a["n"] if a["n"] in RESERVED or a.get("raw") else a["n"], e)
        args.append(e)
    m = case.get("macros", "stylish::")
    tail = "".join(", " + a for a in args) + (r.choice(["", "", ","]) if args or case["form"] != "mac" else "")
    fmt = rust_fmt(case, r)
    how = case["how"]
    if case.get("syntax"):
        fmt, tail = ODD[case["syntax"]][case["odd"]](fmt, tail.rstrip(","))
    if how == "everywhere":
        return "%ssv::everywhere!(log_; %s%s); Ok(())" % (lets, fmt, tail)
    if how == "std":
        # for comparing the specification with the standard library's macros
        return "%slet _ = format_args!(%s%s); Ok(())" % (lets, fmt, tail)
    if how == "writeln":
        s = "%swriteln!(fm_, %s%s)" % (m, fmt, tail)
    elif how == "args":
        s = "fm_.write_fmt(%sformat_args!(%s%s))" % (m, fmt, tail)
    elif how == "trait":
        s = "%sWrite::write_fmt(fm_, %sformat_args!(%s%s))" % (m, m, fmt, tail)
    elif how == "twice":
        # the same arguments displayed two times
        s = "%swrite!(fm_, \"{0:s}{0:s}\", %sformat_args!(%s%s))" % (m, m, fmt, tail)
    elif how == "let":
        # kept in a variable, when all they refer to lives as long
        lets += "".join("let p%d_ = %s; " % (i, x.split(" = ", 1)[1] if case["args"][i]["n"] else x) for i, x in enumerate(args))
        tail = "".join(", %sp%d_" % (x.split(" = ", 1)[0] + " = " if case["args"][i]["n"] else "", i) for i, x in enumerate(args))
        lets += "let kept_ = %sformat_args!(%s%s); " % (m, fmt, tail)
        s = r.choice(["%swrite!(fm_, \"{kept_:s}{:s}\", kept_)", "%swrite!(fm_, \"{:s}\", kept_)?; { let moved_ = kept_; fm_.write_fmt(moved_) }",
                      "{ let f = |k: &::stylish::Arguments<'_>, fm_: &mut ::stylish::Formatter<'_>| ::stylish::Display::fmt(k, fm_); f(&kept_, fm_)?; f(&kept_, fm_) }"])
        s = s % m if "%s" in s else s
    elif how == "lit":
        # through a macro that takes a literal
        s = "pass_lit!(fm_, %s%s)" % (fmt, tail)
    elif how == "expr":
        s = "pass_expr!(fm_, %s%s)" % (fmt, tail)
    elif how == "own":
        # a format string of the macro's own, with the macro's own variable; the caller's is another
        s = "let x = var(\"WRONG\"); own!(fm_%s)" % tail
        lets = ""
    elif how in ("hyg_lit", "hyg_tts", "deep"):
        # through macros with variables of their own
        s = "%s!(fm_, %s%s)" % (how, fmt, tail)
    else:
        s = "%swrite!(fm_, %s%s)" % (m, fmt, tail)
    if "self" in case["scope"]:
        # in a method
        me = r.choice(["self", "self", "&self", "mut self"] + (["&mut self"] if "s}" not in case["fmt"] else [])) if "p}" not in case["fmt"] else "self"
        decl = "fn go_(%s, fm_: &mut ::stylish::Formatter<'_>) -> ::stylish::Result" % me
        return "trait SelfIn_ { %s; } impl SelfIn_ for ::sv::fmtcase::Probe { %s { %s%s } }\n    var(\"self\").go_(fm_)" % (
            decl.replace("(mut self", "(self"), decl, lets, s)
    return "%s%s" % (lets, s)


PRELUDE = """#![allow(warnings)]
use sv::fmtcase::{ev, var, res, run, parity, Probe, Holder};
use sv::ident;
use stylish::{Formatter, Write as _};
type R = stylish::Result;
fn return_it(p: Probe) -> Probe { return p; }
fn const_it<const N: usize>(p: Probe) -> Probe { p }
impl_clone!();
"""
PRELUDE = PRELUDE.replace("impl_clone!();\n", "") + """macro_rules! pass_lit { ($f:expr, $l:literal $($t:tt)*) => { ::stylish::write!($f, $l $($t)*) } }
macro_rules! pass_expr { ($f:expr, $l:expr $(, $($t:tt)*)?) => { ::stylish::write!($f, $l $(, $($t)*)?) } }
macro_rules! hyg_lit { ($f:expr, $l:literal $($t:tt)*) => {{ @WRONG@ ::stylish::write!($f, $l $($t)*) }} }
macro_rules! hyg_tts { ($f:expr, $($t:tt)*) => {{ @WRONG@ ::stylish::write!($f, $($t)*) }} }
macro_rules! own { ($f:expr, $e:expr $(,)?) => {{ let x = var("x"); ::stylish::write!($f, "{x}{}", { chk(&x); $e }) }} }
macro_rules! deep { ($f:expr, $($t:tt)*) => { deeper!(@ $f, $($t)*) } }
macro_rules! deeper { (@ $f:expr, $l:literal $(, $($t:tt)*)?) => { match $f { fm => ::stylish::write!(fm, $l $(, $($t)*)?) } } }
fn chk(_: &Probe) {}
"""
PRELUDE = PRELUDE.replace("@WRONG@", "".join("let %s = var(\"WRONG\"); " % n for n in NAMES))


class Package:
    """A generated package with one binary per part; every case is a function in one of them."""

    def __init__(self, name, cases, tmp, seed, extra="", edition="2021", dep="stylish", expand=False, profile="dev", surround=0):
        self.dep = dep
        # expand: format strings are expanded by the compiler (--cfg stylish_proc_macro_expand, which needs a nightly one)
        self.target = os.path.join(BUILD, "target-expand" if expand else PROFILES[profile][0])
        # (what a compiler is told with the variables that programs look at)
        self.env = dict(PROFILES[profile][1] or {}, **settings(surround))
        self.first = ["+nightly"] if expand else []
        self.flags = "--cfg stylish_proc_macro_expand" if expand else None
        self.dir = fresh(os.path.join(tmp, name))
        self.cases, self.name, self.seed, self.extra = cases, name, seed, extra
        os.makedirs(os.path.join(self.dir, "src", "bin"))
        open(os.path.join(self.dir, "Cargo.toml"), "w").write("""[package]
name = "gen%s"
version = "0.0.0"
edition = "%s"
[dependencies]
%s = { package = "stylish", path = "%s", features = ["ansi", "html", "plain"] }
sv = { path = "%s"%s }
[profile.dev]
debug = 0
incremental = false
[workspace]
""" % (name.lower(), edition, dep, REPO, os.path.join(ROOT, "harness"),
       "" if any(c.get("how") == "everywhere" for c in cases) else ', default-features = false, features = ["cases"]'))
        n = max(1, min(CORES, len(cases) // 12 + 1))
        groups = together(cases)
        self.parts = [sum(groups[i::n], []) for i in range(n)]

    def named(self, src):
        return src if self.dep == "stylish" else src.replace("stylish::", self.dep + "::")

    def text(self, k, dead):
        """The source of a part, and which lines belong to which case."""
        # (in the 2015 edition crates have to be mentioned)
        out = [self.named(PRELUDE).replace("\n", "\nextern crate sv; extern crate %s;\n" % self.dep, 1) + self.extra]
        line = out[0].count("\n") + 1
        owner = {}
        calls = []
        for case in self.parts[k]:
            if case["id"] in dead:
                continue
            r = random.Random("%s %s %s" % (self.seed, self.name, case["id"]))
            fn = "c_" + case["id"]
            if "std" in case:
                body = "    parity(%s, \"\", &|| %s, &|fm_| {\n%s\n    })\n" % (json.dumps(case["id"]), case["std"], case["got"])
                src = "fn %s() {\n%s}\n" % (fn, body)
                calls.append("    %s();" % fn)
            elif case["how"] == "everywhere":
                src = "fn %s(log_: &mut sv::entry::Everywhere) -> R {\n    %s\n}\n" % (fn, render(case, r))
                calls.append("    sv::entry::group(%s, &|l| { %s(l).unwrap(); });" % (json.dumps(case["id"]), fn))
            else:
                src = "fn %s(fm_: &mut Formatter<'_>) -> R {\n    %s\n}\n" % (fn, self.named(render(case, r)))
                if case.get("hostile"):
                    # macros and what is used of the harness come from outside
                    src = "mod m%s {\n    %s\n    use super::{ev, var};\n    pub fn %s(fm_: &mut ::stylish::Formatter<'_>) -> ::stylish::Result {\n    %s\n}\n}\n" % (
                        fn, case["hostile"], fn, render(dict(case, macros="::stylish::"), r))
                    src = self.named(src)
                    fn = "m%s::%s" % (fn, fn)
                calls.append("    run(%s, %s, %d, &%s);" % (json.dumps(case["id"]), json.dumps(case["be"]), case["base"], fn))
            for i in range(src.count("\n") + 1):
                owner[line + i] = case["id"]
            out.append(src)
            line += src.count("\n")
        out.append("fn main() {\n    sv::fmtcase::quiet();\n    sv::places::somewhere(|| (), || {\n%s\n    });\n}\n" % "\n".join(calls))
        return "".join(out), owner

    def build(self):
        """Compiles, dropping what the compiler rejects. Gives the ids of the rejected cases, with messages."""
        rejected = {}
        todo = range(len(self.parts))
        for _ in range(12):
            owners = {}
            for k in range(len(self.parts)):
                path = os.path.join(self.dir, "src", "bin", "b%d.rs" % k)
                src, owners[k] = self.text(k, rejected)
                old = open(path, encoding="utf-8").read() if os.path.exists(path) else None
                if old != src:
                    open(path, "w", encoding="utf-8").write(src)
            r = cargo(self.first + ["build", "--bins", "--keep-going", "--message-format=json"], self.dir, self.target, timeout=850, flags=self.flags, env=self.env)
            if r.returncode == 0:
                return rejected
            new = 0
            stray = []
            for l in r.stdout.decode("utf-8", errors="replace").split("\n"):
                if not l.startswith("{"):
                    continue
                m = json.loads(l)
                if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
                    continue
                hits = set()
                for span in m["message"]["spans"]:
                    if not span["is_primary"]:
                        continue
                    while span:
                        b = os.path.basename(span["file_name"])
                        if b.startswith("b") and b.endswith(".rs") and b[1:-3].isdigit() and "src/bin" in span["file_name"]:
                            k = int(b[1:-3])
                            if m["target"]["name"] == "b%d" % k:
                                hits |= {owners[k].get(n) for n in (span["line_start"],)}
                        span = span["expansion"]["span"] if span.get("expansion") else None
                hits.discard(None)
                if not hits:
                    stray.append((m["target"]["name"], m["message"]))
                for h in hits:
                    if h not in rejected:
                        new += 1
                        rejected[h] = m["message"]["message"]
            if not new:
                new = self.isolate(stray, rejected)
            if not new:
                raise ToolError("generated code does not build, and no case is to blame:\n%s\n%s" %
                                ("".join(x["rendered"] for _, x in stray)[:3000], r.stderr.decode(errors="replace")[-3000:]))
        raise ToolError("generated code does not settle")

    def isolate(self, stray, rejected):
        """Errors that do not say where they come from: compiles every case they could come from on its own."""
        suspects = {}
        for part, m in stray:
            if not (part.startswith("b") and part[1:].isdigit()):
                # not in generated code
                continue
            names = re.findall(r"`([^`]+)`", m["message"])
            cs = [c for c in self.parts[int(part[1:])] if c["id"] not in rejected]
            hit = [c for c in cs if not names or any(n in c.get("fmt", "") for n in names)]
            suspects.update((c["id"], c) for c in hit or cs)
        pkg = os.path.join(self.dir, "src", "bin")
        for i, c in suspects.items():
            # the part's own text with everything else left out
            alone = Package.__new__(Package)
            alone.__dict__.update(self.__dict__, parts=[[c]])
            open(os.path.join(pkg, "s%s.rs" % i), "w", encoding="utf-8").write(alone.text(0, ())[0])
        bins = sum((["--bin", "s%s" % i] for i in suspects), [])
        bad = {}
        if bins:
            r = cargo(self.first + ["check", "--keep-going", "--message-format=json"] + bins, self.dir, self.target, timeout=850, flags=self.flags, env=self.env)
            for l in r.stdout.decode("utf-8", errors="replace").split("\n"):
                m = json.loads(l) if l.startswith("{") else {}
                if m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error"):
                    bad.setdefault(m["target"]["name"][1:], m["message"]["message"])
        for i in suspects:
            os.remove(os.path.join(pkg, "s%s.rs" % i))
        rejected.update(bad)
        return len(bad)

    def run(self):
        """One log line per case."""
        self.rejected = self.build()
        stand_ins()
        return self.again(surrounded)

    def again(self, way):
        """Runs the programs, the k-th in the environment way(k)."""
        rejected = self.rejected
        byid = {c["id"]: c for c in self.cases}
        ran = {}

        def go(k):
            b = os.path.join(self.target, "debug", "b%d" % k)
            env = way(k)
            run, cwd = launch([b], env)
            p = subprocess.run(run, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=env)
            return k, p

        with ThreadPoolExecutor(CORES) as ex:
            for k, p in ex.map(go, range(len(self.parts))):
                if p.returncode == 3:
                    raise ToolError("harness: " + p.stderr.decode(errors="replace"))
                got = [json.loads(l) for l in p.stdout.decode("utf-8").split("\n") if l.strip()]
                for g in got:
                    ran[g["id"]] = g
                if p.returncode != 0:
                    missing = [c["id"] for c in self.parts[k] if c["id"] not in rejected and c["id"] not in ran]
                    for m in missing[:1]:
                        ran[m] = {"id": m, "be": byid[m].get("be", ""), "base": ["default", "default", "normal"],
                                  "ev": [{"o": "panic", "msg": "process died: %d" % p.returncode}]}
        lines = []
        for c in self.cases:
            d = {"id": c["id"], "built": "yes", "be": c.get("be", "")}
            if "std" not in c:
                d.update(fmt=c["fmt"], syntax=c.get("syntax", ""), args=[{"n": a["n"]} for a in c["args"]], scope=c["scope"], nl=c["how"] == "writeln", times=2 if c["how"] in ("twice", "let") else 1)
                d["base"] = ["default", "default", "normal"]
            if c["id"] in rejected:
                d.update(built="no", ev=[], msg=rejected[c["id"]])
            elif c["id"] in ran:
                d.update(ran[c["id"]])
            else:
                continue
            lines.append(d)
        return lines


def uniq(cases):
    for i, c in enumerate(cases):
        c["id"] = "%d" % i
    return cases


# ------------------------------------------------------------------------------------------------
# Cases

BACKENDS = ["rec", "ansi", "rec", "html", "plain", "ioansi"]


def case(r, fmt, args=(), scope=(), form=None, how=None, be=None, base=None, hostile=None):
    args = [{"n": a} if isinstance(a, str) else dict(a) for a in args]
    pointer = re.search(r"p\}", fmt) is not None
    for a in args:
        if "e" not in a:
            a["e"] = r.choice(FORMS if pointer or r.random() < 0.85 else REF_FORMS if re.search(r"[oxXpbeEs]\}", fmt) or r.random() < 0.6 else STD_FORMS)
    captured = bool(scope)
    form = form or r.choice(["str", "str", "raw", "concat"])
    if form == "concat" and captured:
        form = "raw"
    how = how or r.choice(["write", "write", "args", "trait", "writeln", "lit", "expr", "twice"])
    if form == "concat" and how in ("writeln", "lit"):
        how = "write"
    res = {"fmt": fmt, "args": args, "scope": list(scope), "form": form, "how": how,
           "be": be or r.choice(BACKENDS), "base": r.choice(BASES) if base is None else base}
    if hostile is None and r.random() < 0.12 and how != "everywhere":
        hostile = r.choice(HOSTILE)
    # what the format string may mean that is no argument: (let x does not bind where x is a constant, and a
    # constant is found where nothing should be)
    loose = set(scope) | {n for n in re.findall(r"\{\s*(?:r#)?(\w+)", fmt) + re.findall(r"(\w+)\$", fmt)} - {a["n"] for a in args}
    if hostile and any(re.search(r"\b(const|static|struct|fn) %s\b" % re.escape(x), hostile) for x in loose):
        hostile = None
    if hostile:
        for a in args:
            a["e"] = r.choice(["@", "(@)", "@", "{ @ }"] if pointer else ["@", "(@)", "&@", "&&@"])
        res["hostile"] = hostile
    return res


ALIGNS = ["", "<", "^", ">", " <", " ^", " >"]
SIGNS = ["", "+", "-"]
ALTS = ["", "#"]
ZEROS = ["", "0"]
WIDTHS = ["", "1", "3", "7", "12", "40"]
PRECS = ["", ".0", ".1", ".5", ".12"]


BIG = [2, 15, 16, 20, 31, 33, 63, 64, 65, 99, 100, 127, 128, 255, 256, 257, 512, 999, 1000, 1024]


def number(r):
    """A width or precision that is not among the common ones."""
    x = r.random()
    return str(r.choice(BIG) if x < 0.5 else r.randint(1, 300) if x < 0.8 else 1 << r.randint(1, 12) if x < 0.9 else r.randint(300, 5000))


def spec(r, align=None, sign=None, alt=None, zero=None, width=None, prec=None, attrs="", ty=None):
    f = lambda v, c: r.choice(c) if v is None else v
    if width and r.random() < 0.2:
        width = number(r)
    if prec and r.random() < 0.2:
        prec = "." + number(r)
    return f(align, ALIGNS) + f(sign, SIGNS) + f(alt, ALTS) + f(zero, ZEROS) + f(width, WIDTHS) + f(prec, PRECS) + attrs + f(ty, TYPES)


def twins(r, cases, share, most=60):
    """Puts next to some invocations others that are nearly the same: other arguments for the same format string, and
    format strings that differ in a character. The same run of the compiler sees them, one after the other."""
    fit = [i for i, c in enumerate(cases) if c["form"] == "str" and c["how"] in ("write", "args", "trait", "writeln", "lit", "expr", "twice") and not c.get("hostile")
           and not c.get("syntax") and len(c["fmt"]) < 400 and len(c["args"]) < 20]
    picked = set(r.sample(fit, min(len(fit), most, int(len(cases) * share) + 1)))
    out = []
    for i, c in enumerate(cases):
        out.append(c)
        if i not in picked:
            continue
        near = []

        def like(**new):
            near.append(dict(c, args=[dict(a) for a in new.pop("args", c["args"])], **dict(new, stay=True)))

        args = c["args"]
        at = sum(1 for a in args if not a["n"])
        # one more, one less, none, another order, another name
        like(args=args[:at] + [{"n": "", "e": "@"}] + args[at:])
        like(args=args + [{"n": "zz", "e": "@"}])
        if args:
            j = r.randrange(len(args))
            like(args=args[:j] + args[j + 1:])
            like(args=[])
        named = [a for a in args if a["n"] and not a.get("raw") and a["n"] not in ("self", "Self", "super", "crate") and re.fullmatch(r"[a-z]\w*", a["n"]) and a["n"] not in KEYWORDS]
        if named:
            a = r.choice(named)
            if a["n"] not in c["scope"]:
                like(args=[x for x in args if x is not a], scope=c["scope"] + [a["n"]])
            like(args=[dict(x, n="zz") if x is a else x for x in args])
            ns = [x["n"] for x in named]
            r.shuffle(ns)
            it = iter(ns)
            like(args=[dict(x, n=next(it)) if any(x is y for y in named) else x for x in args])
        like()
        # a character
        f = c["fmt"]
        for _ in range(r.choice([1, 2, 3])):
            if f and "\n" not in f:
                j = r.randrange(len(f))
                like(fmt=f[:j] + r.choice({"<": "^>", ">": "<^", "^": "<>", "x": "Xob", "?": "sx", "s": "?x", "+": "-", "f": "b", "b": "f"}.get(f[j], "0123456789" if f[j].isdigit() else "|q{}")) + f[j + 1:])
        r.shuffle(near)
        out += near[:r.choice([1, 2, 3, 5])]
    return out


def together(cases):
    """The invocations that belong to one another, in their order."""
    res = []
    for c in cases:
        if c.get("stay") and res:
            res[-1].append(c)
        else:
            res.append([c])
    return res


def attr_list(r, n=None):
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 6]) if n is None else n
    out = []
    for _ in range(n):
        k = r.random()
        out.append("fg=" + r.choice(COLORS) if k < 0.4 else "bg=" + r.choice(COLORS) if k < 0.75 else r.choice(INTENS))
    return "(%s%s)" % (",".join(out), "," if out and r.random() < 0.25 else "")


def lit_bit(r):
    """A literal piece as written in a format string."""
    bits = ["{{", "}}", "{{}}", "}}{{", "{{{{", "}}}}", "{{0}}", "{{a:x}}", "a", " ", "\n", "\t", "é", "漢字", "🦀", "e\u0301", "\\", "\"", "'", "#",
            "\"#", "\u202e", "\u200d", "$", "%s", "\\n", "\\u{41}", "<b>", "&amp;", "(", ")", ":", "fg=red", "r\"", "\x7f", "\x01", ".*", "\r\n",
            "//", "/* */", "0", ".", "-", "text ", "\ufeff", "\u2028", "??", ",", ";", "=", "[", "]", "\u0000", "~", "`", "}}\n{{", "\U0010ffff"]
    return "".join(r.choice(bits) for _ in range(r.choice([1, 1, 1, 2, 3])))


def combos(seed, thorough):
    """Every presence combination of the parameters with every trait, several to an invocation."""
    r = random.Random(seed * 31 + 5)
    items = []
    for a, s, h, z, w, p in itertools.product(["", "<", "^", ">"], SIGNS, ALTS, ZEROS, [0, 1], [0, 1]):
        others = [t for t in TYPES if "?" not in t and t != "s"]
        r.shuffle(others)
        tys = others if thorough else others[:2]
        for t in ["?", "x?", "X?"] + tys + (["s"] if thorough or r.random() < 0.3 else []):
            al = a if r.random() < 0.75 or not a else " " + a
            items.append(spec(r, al, s, h, z, r.choice(WIDTHS[1:]) if w else "", r.choice(PRECS[1:]) if p else "",
                              attr_list(r) if r.random() < 0.3 else "", t))
    r.shuffle(items)
    # every trait on its own and with every parameter on its own, too
    items += TYPES + [p + t for p in ["<", "^", ">", "+", "-", "#", "0", "9", ".3", "09", "#09", "+09.3", " ^9", "00", "05", ".300"]
                      for t in TYPES] + ["1000", "^300x", "0500?", "65535"]
    # every power of two, and next to them, and any other
    for i in range(2, 17):
        for d in (-1, 0, 1):
            n = (1 << i) + d
            if n < 1 << 16:
                items.append(r.choice(["%d", ".%d", ">%d", "#%dx", "0%d", "2.%d?"] if n < 5000 else [".%d", "2.%d?", ".%de"]) % n)
    items += [r.choice(["%d", ".%d", "^%d?", "+%do"]) % r.randint(1, 1 << r.randint(3, 13)) for _ in range(120 if thorough else 30)]
    out = []
    i = 0
    while i < len(items):
        n = r.choice([1, 2, 4, 8, 12])
        part = items[i:i + n]
        i += n
        style = r.random()
        if style < 0.5:
            fmt, args, scope = "".join("{:%s}%s" % (s, r.choice(["", "|", " "])) for s in part), [""] * len(part), []
        elif style < 0.8:
            # one argument, every way
            fmt, args, scope = "".join("{0:%s}%s" % (s, r.choice(["", "|"])) for s in part), [""], []
        else:
            fmt, args, scope = "".join("{x:%s}%s" % (s, r.choice(["", "|"])) for s in part), [], ["x"]
        c = case(r, fmt, args, scope)
        if any(s.endswith("p") for s in part):
            for a in c["args"] if not c.get("hostile") else ():
                a["e"] = r.choice(FORMS)
        out.append(c)
    return out


PARITY = [
    ("0i32", "i"), ("-42i64", "i"), ("u128::MAX", "i"), ("i8::MIN", "i"), ("255u8", "i"), ("1234567usize", "i"),
    ("0.0f64", "f"), ("-1.5f64", "f"), ("1234.5678f32", "f"), ("f64::NAN", "f"), ("-f64::INFINITY", "f"), ("1e300f64", "f"), ("-0.0f32", "f"),
    ("\"\"", "s"), ("\"hello\"", "s"), ("\"héllo 🦀\"", "s"), ("String::from(\"a{b}\")", "s"), ("'c'", "s"), ("'\\n'", "s"), ("true", "s"),
    ("Some(3)", "d"), ("None::<i32>", "d"), ("vec![1u8, 255]", "d"), ("(1, \"a\", 'b')", "d"), ("[Some(1.5), None]", "d"), ("()", "d"),
    ("std::collections::BTreeMap::from([(1, \"x\"), (2, \"y\")])", "d"), ("Ok::<i32, ()>(7)", "d"), ("&&&5", "i"), ("\"a\\\"b\\n\"", "s"),
    ("S { a: 1, b: Some(E::C(-2)), c: [17, 18] }", "d"), ("std::time::Duration::from_millis(1500)", "d"), ("0..10", "d"),
    ("std::num::Wrapping(77u8)", "i"), ("std::num::NonZeroU8::new(9).unwrap()", "x"), ("Box::new(12)", "i"), ("std::rc::Rc::new(\"rc\")", "s"),
    ("format_args!(\"{:5}|\", 3)", "s"), ("std::borrow::Cow::Borrowed(\"cow\")", "s"), ("1u64 as *const u8", "p"), ("std::net::Ipv4Addr::new(127, 0, 0, 1)", "s"),
    ("&1.5 as &dyn std::fmt::Display", "y"),
    ("(&(3, 'c') as &dyn std::fmt::Debug)", "d"), ("&200u8 as &dyn std::fmt::LowerHex", "h"), ("gen_(&-7)", "i"), ("gen_(\"generic\")", "s"), ("Alt(5)", "y"),
    ("Pad(\"pad\")", "y"), ("Pad(\"é漢\")", "y"), ("Ints(12)", "y"), ("Tuple(1, \"x\")", "d"), ("core::cell::Cell::new(5)", "d"), ("std::path::Path::new(\"/a\").display()", "y"),
    ("i64::MIN", "i"), ("u64::MAX", "i"), ("0u8", "i"), ("f64::MIN_POSITIVE", "f"), ("f32::MAX", "f"), ("0.1f64 + 0.2", "f"), ("'\\u{301}'", "s"), ("\"\\u{0}\\t\"", "s"),
    # types with one trait each, neither Copy nor Clone nor Send; values without a size
    ("OnlyD::new(1)", "y"), ("OnlyG::new(-2)", "d"), ("OnlyO::new(8)", "8"), ("OnlyX::new(255)", "h"), ("OnlyU::new(255)", "H"), ("OnlyB::new(5)", "2"),
    ("OnlyE::new(1500)", "10"), ("OnlyF::new(1500)", "11"), ("OnlyP::new(0)", "P"), ("*\"place\"", "s"), ("*\"str\".to_string()", "s"), ("[1u8, 20][..]", "d"),
    ("*(Box::new(OnlyX::new(7)) as Box<dyn std::fmt::LowerHex>)", "h"), ("*(&OnlyB::new(7) as &dyn std::fmt::Binary)", "2"), ("*(&1e3 as &dyn std::fmt::UpperExp)", "11"),
    ("String::from(\"index\")[1..3]", "s"), ("*std::cell::RefCell::new(5).borrow_mut()", "i"),
    ("&mut 5", "i"), ("&mut OnlyU::new(9)", "H"), ("std::sync::Mutex::new(4).lock().unwrap()", "s"), ("Lives { s: &String::from(\"short\") }", "y"),
]
PARITY_TYPES = {"i": ["", "?", "x?", "X?", "o", "x", "X", "b", "e", "E"], "f": ["", "?", "e", "E", "x?"], "s": ["", "?", "x?"], "d": ["?", "x?", "X?"],
                "x": ["", "?", "x", "b"], "p": ["p", "?"], "y": [""], "h": ["x"], "8": ["o"], "H": ["X"], "2": ["b"], "10": ["e"], "11": ["E"], "P": ["p"]}
PARITY_EXTRA = """#[derive(Debug)] enum E { C(i8) }
#[derive(Debug)] struct S { a: i32, b: Option<E>, c: [u8; 2] }
#[derive(Debug)] struct Tuple(u8, &'static str);
fn gen_<T: ?Sized>(t: &T) -> &T { t }
struct Alt(i32);
impl std::fmt::Display for Alt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if f.alternate() { f.debug_struct("Alt").field("v", &self.0).finish() } else { write!(f, "<{:5}|{:<+5}>", self.0, self.0)?; std::fmt::Display::fmt(&self.0, f) }
    }
}
struct Pad(&'static str);
impl std::fmt::Display for Pad {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_char('[')?; f.pad(self.0)?; f.write_char(']') }
}
struct Ints(u32);
impl std::fmt::Display for Ints {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad_integral(true, "0x", &self.0.to_string())?; f.pad_integral(false, "-", "7")?; f.debug_list().entries([self.0, 1]).finish()
    }
}
use std::fmt::Write as _;
struct Lives<'a> { s: &'a str }
impl<'a> std::fmt::Display for Lives<'a> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(self.s, f) } }
macro_rules! only { ($($n:ident $t:ident)*) => { $(struct $n(i32, std::marker::PhantomData<*const ()>); unsafe impl Sync for $n {}
impl $n { fn new(i: i32) -> Self { $n(i, std::marker::PhantomData) } }
impl std::fmt::$t for $n { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad_integral(self.0 >= 0, stringify!($t), &self.0.abs().to_string()) } })* } }
only! { OnlyD Display OnlyG Debug OnlyO Octal OnlyX LowerHex OnlyU UpperHex OnlyB Binary OnlyE LowerExp OnlyF UpperExp OnlyP Pointer }
struct Shown(OnlyD);
impl stylish::Display for Shown { fn fmt(&self, f: &mut Formatter<'_>) -> R { stylish::write!(f, "<{}>", self.0) } }
type D<'a> = dyn std::fmt::Display + 'a;
"""

# arguments are borrowed, and only for as long as is needed: (std's, this library's)
BORROWS = [
    ("{ let s = String::from(\"a\"); let x = std::format!(\"{}{s}{0:?}{t}\", s, t = s); x + &s }",
     "{ let s = String::from(\"a\"); stylish::write!(fm_, \"{}{s}{0:(bold)?}{t}\", s, t = s)?; stylish::write!(fm_, \"{}\", { s })}"),
    ("{ fn g<T: std::fmt::LowerHex + ?Sized>(t: &T) -> String { std::format!(\"{t:#x}{:>9x}{0:x}\", &*t) } g(&OnlyX::new(40)) }",
     "{ fn g<T: std::fmt::LowerHex + ?Sized>(t: &T, fm_: &mut Formatter<'_>) -> R { stylish::write!(fm_, \"{t:#x}{:>9(fg=red)x}{0:x}\", *t) } g(&OnlyX::new(40), fm_) }"),
    ("{ fn g(t: impl std::fmt::Display, u: &(impl std::fmt::Debug + ?Sized)) -> String { std::format!(\"{t:^+5}{u:?}{:?}{t}\", u) } g(\"é\", &[1, 2][..]) }",
     "{ fn g(t: impl std::fmt::Display, u: &(impl std::fmt::Debug + ?Sized), fm_: &mut Formatter<'_>) -> R { stylish::write!(fm_, \"{t:^+5(faint)}{u:?}{:?}{t}\", *u) } g(\"é\", &[1, 2][..], fm_) }"),
    ("{ let mut v = vec![1, 2]; let x = std::format!(\"{:?}{v:?}\", { v.push(3); v.len() }); v.push(4); x + &std::format!(\"{v:?}\") }",
     "{ let mut v = vec![1, 2]; stylish::write!(fm_, \"{:?}{v:?}\", { v.push(3); v.len() })?; v.push(4); stylish::write!(fm_, \"{v:?}\") }"),
    ("{ let m = &mut String::from(\"m\"); let x = std::format!(\"{}{m}\", m); m.push('n'); x + m }",
     "{ let m = &mut String::from(\"m\"); stylish::write!(fm_, \"{}{m}\", m)?; m.push('n'); stylish::write!(fm_, \"{m}\") }"),
    ("{ let c = OnlyD::new(3); let x = std::format!(\"<{}>{}\", c, c); let moved = c; x + &std::format!(\"{moved}\") }",
     "{ let c = Shown(OnlyD::new(3)); stylish::write!(fm_, \"{:(bold)s}{}\", c, c.0)?; let moved = c.0; stylish::write!(fm_, \"{moved}\") }"),
    ("{ let d: &D<'_> = &OnlyD::new(3); std::format!(\"{d:5}{:5}{d}\", d) }",
     "{ let d: &D<'_> = &OnlyD::new(3); stylish::write!(fm_, \"{d:5(fg=blue)}{:5}{}\", *d, d) }"),
    ("{ let d: &dyn std::fmt::Display = &\"dyn\"; std::format!(\"<{}><{d}>\", 1) }",
     "{ let s = Shown(OnlyD::new(1)); let d: &dyn stylish::Display = &s; let b: Box<dyn std::fmt::Display> = Box::new(\"dyn\"); stylish::write!(fm_, \"{d:s}<{b}>\") }".replace("{d:s}", "{:s}").replace("<{b}>\"", "<{b}>\", *d")),
    ("{ const K: i32 = -6; static S: &str = \"st\"; std::format!(\"{K:04}{S}{0}{k}\", K, k = S) }",
     "{ const K: i32 = -6; static S: &str = \"st\"; stylish::write!(fm_, \"{K:04}{S}{0}{k}\", K, k = S) }"),
    ("{ let f = |a: u8| std::format!(\"{a}{}\", a + 1); f(1) + &f(2) }",
     "{ let mut f = |a: u8| stylish::write!(fm_, \"{a}{}\", a + 1); f(1)?; f(2) }"),
    ("{ let x = 1; let y = { let x = 2; std::format!(\"{x}\") }; std::format!(\"{y}{x}\") }",
     "{ let x = 1; { let x = 2; stylish::write!(fm_, \"{x}\")?; } stylish::write!(fm_, \"{x}\") }"),
    ("match (1, \"two\") { (a, b) if a > 0 => std::format!(\"{a}{b:?}\"), (a, _) => std::format!(\"{a}\") }",
     "match (1, \"two\") { (a, b) if a > 0 => stylish::write!(fm_, \"{a}{b:?}\"), (a, _) => stylish::write!(fm_, \"{a}\") }"),
    ("(0..3).map(|i| std::format!(\"{i}{}\", i * i)).collect::<String>()", "(0..3).try_for_each(|i| stylish::write!(fm_, \"{i}{}\", i * i))"),
    ("{ let e = vec![String::from(\"e\")]; std::format!(\"{}{}\", e[0], e[0]) }", "{ let e = vec![String::from(\"e\")]; stylish::write!(fm_, \"{}{}\", e[0], *e[0]) }"),
    ("{ struct T { a: String, b: u8 } let t = T { a: \"x\".into(), b: 1 }; let x = std::format!(\"{}{}\", t.a, t.b); x + &t.a }",
     "{ struct T { a: String, b: u8 } let t = T { a: \"x\".into(), b: 1 }; stylish::write!(fm_, \"{}{}\", t.a, t.b)?; stylish::write!(fm_, \"{}\", t.a) }"),
    ("std::format!(\"{}\", std::format_args!(\"{:>4}{}\", 1, std::string::String::from(\"tmp\")))",
     "stylish::write!(fm_, \"{:s}\", stylish::format_args!(\"{:>4}{}\", 1, std::string::String::from(\"tmp\")))"),
]


def parities(seed, n):
    r = random.Random(seed * 97 + 1)
    out = []
    for i in range(n):
        pieces_std, pieces, args, args_std = "", "", [], []
        for _ in range(r.choice([1, 1, 2, 3])):
            v, k = PARITY[(i * 7 + len(args)) % len(PARITY)] if r.random() < 0.7 else r.choice(PARITY)
            v = v if not v.startswith("&&&5") or True else v
            ty = r.choice(PARITY_TYPES[k])
            if v == "&&&5" and ty in ("e", "E") or v.startswith("Box") and ty not in ("", "?", "x?", "X?") or v.startswith("std::num::Wrapping") and ty in ("e", "E"):
                ty = "?"
            p = spec(r, ty=ty)
            if "format_args" in v:
                ty = ""
                p = spec(r, width="", prec="", ty="")
            lit = r.choice(["", "|", "{{", " - "])
            head, tail = p[:len(p) - len(ty)], ty
            # (std wants sizes)
            v_std = "&" + v if v[0] == "*" or v.endswith("[..]") or "[1..3]" in v else v
            attrs = lambda: attr_list(r) if r.random() < 0.5 else ""
            p_std, p = "{:%s}%s" % (p, lit), "{:%s%s%s}%s" % (head, attrs(), tail, lit)
            # within placeholders that have parameters of their own
            for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
                v_std, v = "std::format_args!(%s, %s)" % (esc(p_std), v_std), "stylish::format_args!(%s, %s)" % (esc(p), v)
                lit = r.choice(["", "", "|", " "])
                p_std, p = "{}%s" % lit, "{:%s%ss}%s" % (spec(r, ty=""), attrs(), lit)
            pieces_std += p_std
            pieces += p
            args.append(v)
            args_std.append(v_std)
        a = "".join(", " + x for x in args)
        out.append({"std": "std::format!(%s%s)" % (esc(pieces_std), "".join(", " + x for x in args_std)), "got": "stylish::write!(fm_, %s%s)" % (esc(pieces), a), "fmt": pieces, "be": ""})
    out += [{"std": a, "got": b, "fmt": "", "be": ""} for a, b in BORROWS]
    return uniq(out)


def selections(seed, n):
    """Argument selection."""
    r = random.Random(seed * 101 + 7)
    out = []
    for _ in range(n):
        npos = r.choice([0, 0, 1, 1, 2, 3, 4, 8, 14])
        names = r.sample(NAMES + KEYWORDS[:11], r.choice([0, 0, 1, 1, 2, 3, 4, 5, 8]))
        scope = r.sample(NAMES + KEYWORDS[:11], r.choice([0, 0, 1, 2, 3, 5]))
        if r.random() < 0.3:
            # names that are easily confused
            alike = r.choice([["x", "X", "xx", "x_", "_x"], ["a", "A", "a0", "a1", "a_b", "ab"], ["foo", "Foo", "foo_"]])
            both = r.sample(alike, r.randint(2, len(alike)))
            k = r.randint(0, len(both))
            names = [x for x in names if x not in both] + both[:k]
            scope = [x for x in scope if x not in both] + both[k:]
            r.shuffle(names)
        if r.random() < 0.08:
            (scope if r.random() < 0.7 else names).append("self")
        if r.random() < 0.05:
            names.append(r.choice(["super", "Self", "crate"]))
        # names in scope that are also arguments: the arguments win
        if names and r.random() < 0.3 and names[0] not in scope + ["super", "Self", "crate"]:
            scope.append(names[0])
        pool = []
        nexts = r.randint(0, npos)
        refs = [""] * nexts
        for i in range(npos):
            if i >= nexts or r.random() < 0.2:
                refs += [str(i) if r.random() < 0.95 else "0" + str(i)] * r.choice([1, 1, 2])
        for x in names:
            refs += [x] * r.choice([1, 1, 2, 3])
        for x in scope:
            refs += [x] * r.choice([0, 1, 1, 2])
        r.shuffle(refs)
        if not refs:
            refs = [] if r.random() < 0.3 else ["x"]
            if refs:
                scope = list(dict.fromkeys(scope + ["x"]))
        fmt = ""
        for x in refs:
            k = r.random()
            s = "" if k < 0.45 else ":" + (r.choice(TYPES) if k < 0.7 else spec(r, attrs=attr_list(r) if r.random() < 0.4 else ""))
            fmt += "{%s%s}" % (x, s) + r.choice(["", "", "|", " ", "é", "{{", "}}"])
        args = [""] * npos + names
        c = case(r, fmt, args, scope)
        for a in c["args"]:
            if a["n"] and r.random() < 0.2 and a["n"] not in ("é", "名", "self", "Self", "super", "crate") and a["n"] != "_x":
                a["raw"] = True
        out.append(c)
    # many of them
    for k in [9, 10, 11, 12, 13, 17, 26] if n < 1000 else [9, 10, 11, 12, 13, 16, 17, 31, 32, 33, 64, 65]:
        for kind in range(6):
            ns = ["n%d" % i for i in range(k)]
            r.shuffle(ns)
            refs = list(ns)
            r.shuffle(refs)
            refs += r.sample(refs, k // 4)
            idx = [str(i) for i in range(k)]
            r.shuffle(idx)
            refs, args, scope = [([""] * k + idx[:3], [""] * k, []), (idx, [""] * k, []), (refs, ns, []), (refs, [], ns),
                                 (refs, ns[::2], ns[1::2]), (idx + refs, [""] * k + ns[::3], [x for x in ns if x not in ns[::3]])][kind]
            out.append(case(r, "".join("{%s%s}" % (x, r.choice(["", "", ":?", ":5", ":(bold)", ":s"])) + r.choice(["", "", "|", "{{"]) for x in refs), args, scope,
                            form="raw" if r.random() < 0.5 else "str"))
    for k in [132, 262] if n < 1000 else [100, 129, 132, 257, 262, 300]:
        idx = [str(i) for i in range(k)]
        r.shuffle(idx)
        out.append(case(r, "".join("{%s}" % x for x in idx), [""] * k, [], form="str"))
        out.append(case(r, "".join("{}" if r.random() < 0.9 else "{:s}" for x in idx) + "{%d}{%d}{0}" % (k - 1, k - 5), [""] * k, [], form="str"))
        ns = ["n%d" % i for i in range(k)]
        r.shuffle(ns)
        out.append(case(r, "".join("{%s}" % x for x in ns), ns[:k // 2], ns[k // 2:], form="str"))
    # long ones that differ a little
    for size in [9, 14, 17, 33, 65] if n < 1000 else [7, 8, 9, 12, 13, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 300]:
        base = "".join(r.choice("abcdefgh_klmno") for _ in range(size - 1))
        alike = ["q" + base + "q", "q" + base + "Q", "Q" + base + "q", "q" + base + "qq", "q" + base, "q" + base[::-1] + "q",
                 "q" + base[:size // 2] + "_9" + base[size // 2:] + "q", base[1:] + "9" if base[1].isalpha() else "w" + base, "q" + base + "é"]
        alike = list(dict.fromkeys(alike))
        for kind in range(4):
            r.shuffle(alike)
            k = [len(alike), 0, r.randint(1, 4), r.randint(4, 7)][kind]
            refs = alike + r.sample(alike, 2)
            if kind > 1:
                r.shuffle(refs)
            fs = "".join("{%s%s}" % (x, r.choice(["", "", ":?", ":5", ":(bold)", ":s"])) for x in refs)
            out.append(case(r, fs, alike[:k], alike[k:], form=r.choice(["str", "raw"])))
    # kept in variables
    for c in out:
        if c["form"] != "concat" and c["how"] != "everywhere" and r.random() < 0.12:
            c["how"] = "let"
            for a in c["args"]:
                a["e"] = r.choice(["@", "(@)", "{ @ }"])
    # every kind of scope
    for h in HOSTILE:
        out.append(case(r, "{0}{0:>+#08.3(fg=red,bg=default,bold)?}{x:(faint)}{}{1:s}{x:(fg=blue)s}", [{"n": ""}, {"n": ""}, {"n": "x"}], hostile=h, form="str"))
        out.append(case(r, "{x}{x:x}{{{x:?}}}{0:s}", [{"n": ""}], ["x"], hostile=h, form="raw", how=r.choice(["writeln", "write", "args"])))
    # every form of expression, in every position
    for e in FORMS + REF_FORMS:
        out.append(case(r, "{}", [{"n": "", "e": e}], form="str"))
        out.append(case(r, "{x}", [{"n": "x", "e": e}], form="str"))
        out.append(case(r, "{0}{0:?}{x}{1}{x:s}", [{"n": "", "e": e}, {"n": "", "e": r.choice(FORMS)}, {"n": "x", "e": e}], form="str"))
    return out


def places(seed, n):
    """Invocations wherever they can be: one list per package."""
    r = random.Random(seed * 109 + 19)
    packages = [("2015", "stylish"), ("2018", "stylish"), ("2021", "sty"), ("2024", "stylish")]
    common = []
    f1, f2 = "{0}{0:>+#08.3(fg=red,bg=default,bold)?}{x:(faint)}{}{1:s}{x:(fg=blue)s}", "{x}{x:x}{{{x:?}}}{0:s}"
    for h in HOSTILE:
        common.append(case(r, f1, [{"n": ""}, {"n": ""}, {"n": "x"}], hostile=h, form="str"))
        common.append(case(r, f2, [{"n": ""}], ["x"], hostile=h, form="raw", how=r.choice(["writeln", "write", "args", "twice"])))
        common.append(case(r, "", hostile=h, form="str", how=r.choice(["writeln", "write", "args"])))
        common.append(case(r, "a{{b", hostile=h, form="str", how="args"))
    for how in ("hyg_lit", "hyg_tts", "deep", "twice", "lit", "expr"):
        for form in ("str", "raw"):
            common.append(case(r, "{x}{a:?}{x:(fg=red)s}{}{y}", [{"n": "", "e": "{ chk(&x); chk(&b); @ }"}, {"n": "y", "e": "@"}], ["x", "a", "b"], form=form, how=how, hostile=""))
            common.append(case(r, "{{{0}}}{0:5(bold)}", [{"n": ""}], form=form, how=how))
    common.append(case(r, "{x}{}", [{"n": "", "e": "@"}], ["x"], form="str", how="own", hostile=""))
    # variables named as the macros might name theirs
    for v in _lower + ["a", "b", "e", "f", "i", "n", "s", "w", "fmt", "args", "match", "async", "dyn", "try", "await", "self_", "__arg", "arg0", "_arg0"]:
        q = rust_name(v)
        common.append(case(r, "{%s:(fg=red)s}{}{%s:?}{0}" % (v, v), [{"n": "", "e": "{ chk(&%s); @ }" % q}], [v], form="str", hostile=""))
        common.append(case(r, "{}{%s:(bg=red)}" % v, [{"n": "", "e": "{ chk(&outer_); chk(&%s); @ }" % q}, {"n": v, "e": "{ chk(&%s); @ }" % q}], ["outer_", v], form="str", hostile=""))
    broken_ = r.sample(broken(seed + 1, 100), min(3 * n, 700))
    more = selections(seed + 1, n) + attributes(seed + 1, n // 2) + literals(seed + 1, n // 2) + r.sample(combos(seed + 1, False), min(n, 80))
    out = []
    for p in packages + [("2021", "stylish", "expand")]:
        out.append((p, [dict(c, args=[dict(a) for a in c["args"]]) for c in common + r.sample(more, min(n, len(more))) + (broken_ if p[2:] else [])]))
    return out


def attributes(seed, n):
    r = random.Random(seed * 103 + 11)
    out = []
    singles = [""] + ["fg=" + c for c in COLORS] + ["bg=" + c for c in COLORS] + INTENS
    lists = ["(%s)" % s for s in singles] + ["(%s,)" % s for s in singles[1:]]
    pairs = list(itertools.product(singles[1:], singles[1:]))
    r.shuffle(pairs)
    lists += ["(%s,%s)" % p for p in pairs[:max(n // 4, 120)]]
    lists += ["(%s)" % ",".join(p) for p in itertools.permutations(["fg=red", "bg=brightblue", "bold"])]
    lists += [attr_list(r, k) for k in (3, 4, 5, 8, 12) for _ in range(max(4, n // 40))]
    for h in HOSTILE:
        out.append(case(r, "{0:(fg=red,bg=blue,bold)s}{0:(normal)}{0:()}{0:5(bg=brightred,)?}", [{"n": ""}], hostile=h, form="str", be="rec"))
    i = 0
    r.shuffle(lists)
    while i < len(lists):
        k = r.choice([1, 2, 4, 6])
        part = lists[i:i + k]
        i += k
        fmt = r.choice(["", "L"])
        for a in part:
            p = "" if r.random() < 0.4 else spec(r, ty="")
            fmt += "{0:%s%s%s}" % (p, a, r.choice(TYPES)) + r.choice(["", "|", "lit"])
        out.append(case(r, fmt, [{"n": "", "e": r.choice(FORMS)}], base=r.choice(BASES[1:] + [0]), be=r.choice(["rec", "rec", "html", "ansi"])))
    return out


def literals(seed, n):
    r = random.Random(seed * 107 + 13)
    out = []
    for i in range(n):
        parts = []
        args = 0
        for _ in range(r.choice([0, 1, 2, 4, 7])):
            if r.random() < 0.6:
                parts.append(lit_bit(r))
            else:
                parts.append("{%s}" % r.choice(["", "", ":?", ":(fg=red)", ":s", ":4"]))
                args += 1
        c = case(r, "".join(parts), [{"n": "", "e": "@"} for _ in range(args)], form=["str", "raw", "concat", "str"][i % 4])
        out.append(c)
    # brace arrangements around and between placeholders
    bits = ["{{", "}}", "{}", "a"]
    alls = ["".join(p) for k in (1, 2, 3, 4) for p in itertools.product(bits, repeat=k)]
    for f in (alls if n > 500 else alls[:84] + r.sample(alls[84:], 60)):
        out.append(case(r, f, [{"n": "", "e": "@"} for _ in range(f.count("{}") if "{{}}" not in f else count_args(f))], form="str", how="write"))
    # the same literal again, next to braces and placeholders
    for i, w in enumerate(["ab", "word", "a longer one, ", "é漢🦀é漢🦀", "x" * 40, "\n", "    ", "=" * 300]):
        fs = ["Wb" * 2, "Wb" * 3 + "W", "W{}" * 3, "W{}Wb" * 2, "W{}bW{}b", "bWb" * 3, "WW{:(fg=red)}WWbWW", "{}" + "Wb" * 4 + "{}", "b" * 120 + "W" + "b" * 7]
        for f in fs if n > 500 else [fs[0]] + r.sample(fs[1:], 3):
            f = "".join(r.choice(["{{", "}}"]) if ch == "b" and i % 2 else "{{" if ch == "b" else w if ch == "W" else ch for ch in f.replace("{:(fg=red)}", "\0")).replace("\0", "{:(fg=red)}")
            k = f.replace("{{", "").replace("}}", "").count("{") if "{{}}" not in f else count_args(f)
            out.append(case(r, f, [{"n": "", "e": "@"}] * k, form=r.choice(["str", "raw", "concat"]), how=r.choice(["write", "args", "writeln"])))
    # line ends, and what else may be taken for something at either end
    for how in ("writeln", "write", "args"):
        for f in ["\n", "\n\n", "a\n", "{}\n", "a\n\n", "{}\n\n", "\r\n", "a\r", " ", "a ", "\t{}\t", "\n{}", "\0", "a\0", "", "{}", "{{", "}}", "{{\n", "\\n", "{}\\"]:
            out.append(case(r, f, [{"n": "", "e": "@"}] * f.count("{}"), form=r.choice(["str", "raw"]), how=how))
    long = "".join(chr(0x4e00 + k % 2000) for k in range(3000))
    out.append(case(r, long + "{}" + "y" * 70000, [{"n": "", "e": "@"}], form="str", how="write", be="rec"))
    out.append(case(r, "{}" * 200, [{"n": "", "e": "@"}] * 200, form="str", how="write", be="rec"))
    return out


def count_args(f):
    """How many placeholders {} a string of {{, }}, {} and a has when read from the left."""
    n = i = 0
    while i < len(f):
        if f[i:i + 2] in ("{{", "}}"):
            i += 2
        elif f[i:i + 2] == "{}":
            n += 1
            i += 2
        else:
            i += 1
    return n


def everywhere(seed, n):
    """Invocations of all kinds, for every entry point."""
    r = random.Random(seed * 53 + 7)
    cases = selections(seed + 101, n) + attributes(seed + 102, n) + literals(seed + 103, n) + combos(seed + 104, False)
    # (not in methods)
    cases = [c for c in cases if c["form"] != "concat" and "self" not in c["scope"]]
    r.shuffle(cases)
    # what lines begin and end with
    ends = [case(r, f, [{"n": "", "e": "@"}] * f.count("{}"), form="str")
            for f in ["\n", "\n\n", "a\n", "a\n\n", "{}\n", "\n{}", "{}\r\n", "a\r", "", "{}", "{{\n", "a}}\n", " \n", "{}\n{}", "a\n ", "\n{}\n\n"]]
    # also after, between and before styles
    for x in ["\n", " ", "\t", "\r\n", "\0", "\u00a0", "."]:
        a, b = ["(%s)" % r.choice(["fg=red", "bold", "bg=blue", "fg=green,faint", "fg=red,bg=red"]) for _ in range(2)]
        f = r.choice(["{0:%s}X{1:%s}", "{1:%s}X{0:%s}X", "X{0:%s}X{1:%s}", "{0:%s}XX{1:%s}"]).replace("X", x) % (a, b)
        ends.append(case(r, f, [{"n": "", "e": "@"}] * 2, form="str"))
    # (those every time)
    ends = r.sample(ends[-7:-5], 1) + r.sample(ends[:-7], 16)[:max(2, n // 10)] + ends[-5:]
    k = n if n > 200 else n // 5
    return [dict(c, how="everywhere", be="all", base=0, hostile="") for c in ends[:k] + cases[:n - min(k, len(ends))]]


def unallocated(seed, n):
    """Invocations whose arguments need no memory."""
    r = random.Random(seed * 113 + 3)
    cases = selections(seed + 2, n // 3) + attributes(seed + 2, n // 3) + literals(seed + 2, n // 6) + combos(seed + 2, False)
    out = []
    for c in r.sample(cases, min(n, len(cases))):
        if c["how"] == "everywhere":
            continue
        c = dict(c, be="rec", args=[dict(a) for a in c["args"]])
        if not c.get("hostile"):
            for a in c["args"]:
                a["e"] = r.choice(["@", "(@)", "{ @ }", "@ + 1", "(|| @)()", "@.me()"])
        out.append(c)
    return out


def broken(seed, n):
    """Mostly malformed invocations."""
    r = random.Random(seed * 109 + 17)
    out = []
    plain = lambda k: [{"n": "", "e": "@"} for _ in range(k)]
    named = lambda *ns: [{"n": x, "e": "@"} for x in ns]
    # counts of arguments
    for k in range(4):
        for m in range(5):
            out.append(case(r, "{}" * k, plain(m), form="str"))
            out.append(case(r, "".join("{%d}" % j for j in range(k)), plain(m), form="str"))
    for i in range(5):
        out.append(case(r, "{%d}" % i, plain(i), form="str"))
        out.append(case(r, "{%d}" % i, plain(i + 1), form="str"))
        out.append(case(r, "{%d}{}" % i, plain(3), form="str"))
    out += [
        case(r, "{a}", named("a", "a")), case(r, "{a}{b}", named("a", "b", "a")), case(r, "{a}", named("b")), case(r, "{a}", named("a", "b")),
        case(r, "", named("a")), case(r, "{a}", []), case(r, "{a}", named("b"), ["a"]), case(r, "{a}", named("a"), ["a"]),
        case(r, "{a}{}", named("a") + plain(1)), case(r, "{}{a}", named("a") + plain(1)), case(r, "{a}{0}", named("a") + plain(1)),
        case(r, "{}{a}", plain(1) + named("a")), case(r, "{}{a}{}", plain(1) + named("a") + plain(1)), case(r, "{a}{a}", named("a", "a")),
        case(r, "{type}", [{"n": "type", "e": "@"}, {"n": "type", "e": "@"}]), case(r, "{x}{x}", [dict(n="x", e="@"), dict(n="x", e="@", raw=True)]),
        case(r, "{r#type}", [{"n": "type", "e": "@"}]), case(r, "x", plain(1)), case(r, "{{}}", plain(1)), case(r, "{}", []), case(r, "{0}", []),
        case(r, "{}{}", plain(1)), case(r, "{0}{1}", plain(1)), case(r, "{0}", plain(2)), case(r, "{1}", plain(2)), case(r, "{}{0}", plain(1)),
        case(r, "{}{1}", plain(2)), case(r, "{1}{}", plain(2)), case(r, "{18446744073709551616}", plain(1)), case(r, "{99999999999}", plain(1)),
    ]
    # all but one used, whatever its name and wherever it is
    for x in ["_", "_a", "__a", "a_", "A", "é", "名", "args", "f", "fmt", "self_", "x1", "unused", "_unused", "_0", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"]:
        if x != "_":
            out.append(case(r, "{b}", named("b", x), form="str"))
            out.append(case(r, "{b}{}", plain(1) + r.choice([named("b", x), named(x, "b")]), form="str"))
            out.append(case(r, "{%s}" % x, named(x), form="str"))
        out.append(case(r, "", [{"n": x, "e": "@"}], form="str"))
    for k in range(1, 15 if n > 1000 else 12):
        i = r.randrange(k)
        idx = [j for j in range(k) if j != i]
        r.shuffle(idx)
        out.append(case(r, "".join("{%d}" % j for j in idx), plain(k), form="str"))
        out.append(case(r, "".join("{n%d}" % j for j in idx), named(*["n%d" % j for j in range(k)]), form="str"))
        out.append(case(r, "".join("{%d}" % j for j in idx + [i]), plain(k), form="str"))
        out.append(case(r, "{}" * (k - 1), plain(k), form="str"))
        out.append(case(r, "{}" * (k + 1), plain(k), form="str"))
        out.append(case(r, "".join("{%d}" % j for j in idx + [k]), plain(k), form="str"))
    # not invocations
    for kind, makes in ODD.items():
        for i in range(len(makes)):
            for f, a in (("{}{a}", plain(1) + named("a")), ("a{}", plain(1)), ("text", [])):
                for how in r.sample(["write", "args", "writeln", "trait"], 4 if n > 2000 else 1):
                    out.append(dict(case(r, f, a, form=r.choice(["str", "raw"]), how=how, hostile=""), syntax=kind, odd=i))
    # std lets indices run on into the named arguments, and spaces stand in some places
    for f, a in (("{}", named("a")), ("{0}", named("a")), ("{}{}", plain(1) + named("a")), ("{1}{0}", plain(1) + named("a")), ("{a}{0}", named("a")), ("{}{a}{}", plain(1) + named("a")),
                 ("{1}{0}{a}", named("a", "b")), ("{2}{a}{0}", plain(1) + named("a", "b")), ("{1:?}{a:x}{0:>9}", named("b", "a")), ("{}{b}", named("a", "b")), ("{}{a}", named("a", "b"))):
        out.append(case(r, f, a, form="str"))
    for f in ("{ }", "{0 }", "{ 0}", "{: }", "{:? }", "{: ?}", "{ :?}", "{0 :?}", "{0: ?}", "{:5 }", "{:.3 }", "{:x }", "{:(bold) }", "{:(bold) ?}", "{: (bold)}", "{:( bold)}", "{:(bold )}",
              "{:(bold, faint)}", "{:(fg= red)}", "{:(fg =red)}", "{:(fg = red , bold )}", "{:+ 5}", "{:# 5}", "{:5 .3}", "{:5. 3}", "{:<5 x}", "{:0 5}", "{:x ?}", "{\n}", "{:?\t}", "{:\n?}"):
        out.append(case(r, f, plain(1), form="str"))
        out.append(case(r, "{}" + f + "{:s}", plain(3) if "0" not in f.split(":")[0] else plain(2), form="str"))
    # an assignment is a named argument only if it is to a plain name
    for e in ["::a = @", "<u8>::a = @", "<u8 as Default>::a = @", "self::a = @", "crate::a = @", "b::a = @", "a::b = @", "a::<u8> = @", "a::<> = @", "(a) = @", "(a = @)",
              "{ a = @ }", "*a = @", "a[0] = @", "a.b = @", "a() = @", "a! {} = @", "(a, b) = @", "[a] = @", "&a = @", "a += @", "a == @", "a => @", "a: @", "a <- @", "a ... = @",
              "#[allow(warnings)] a = @", "a: u8 = @", "let a = @", "mut a = @", "ref a = @", "'a = @", "\"a\" = @", "0 = @", "{a} = @", "$a = @", "-a = @", "a? = @", "a as u8 = @", "a = @ = a"]:
        for f, more in (("{a}", []), ("{a}{0}", plain(1)), ("{a}{b}", named("b"))):
            for scope in ([], ["a"]) if f == "{a}" or n > 1000 else ([],):
                a = [{"n": "", "e": e}]
                out.append(case(r, f, a + more if more and more[0]["n"] else more + a, scope, form="str"))
    # placeholders with something wrong in them
    junk = ["{", "}", "{{}", "{}}", "{{{", "}}}", "{ {", "{}{", "}{", "{{}}}", "{{{}}", "{:", "{0", "{:}}", "{0:", "a}b", "{{a}", "{a}}", "{:?", "{:(fg=red", "{(fg=red)}"]
    junk += ["{:%s}" % s for s in [
        "y", "Z", "s?", "?s", "xx", "?x", "??", "X x", "5 5", "+-", "-+", "##", "+#+", "#+", "0#", "<>5", "><", "<<<", ".", "..", ".5.5", "5.", ".x", "x5", "x.5",
        "?5", "?(fg=red)", "(fg=red)(bold)", "(fg=red)5", "5(fg=red).5", ".5(fg=red)5", "(fg=red)+", "s(fg=red)", "()()", "()5", ":", "a:", "0a", "!", "@",
        "(fg)", "(bg)", "(fg=)", "(bg=)", "(=red)", "(fg=red", "fg=red)", "fg=red", "(fg:red)", "(fg==red)", "(fg=Red)", "(FG=red)", "(fg=RED)", "(Bold)",
        "(bold=true)", "(bold=1)", "(bold=bold)", "(normal=)", "(fg=bold)", "(bold fg=red)", "(fg=red bold)", "(fg=red;bold)", "(,)", "(,bold)", "(bold,,)",
        "(bold,,faint)", "(,,)", "(fg=red,,bg=blue)", "(red)", "(blue)", "(fg=purple)", "(fg=orange)", "(fg=grey)", "(fg=redd)", "(fg=re)", "(fg=brightred1)",
        "(fg=bright)", "(fg=brightdefault)", "(fg=bright_red)", "(fg=lightred)", "(fg=bright-red)", "(fg=BrightRed)", "(fg=#ff0000)", "(fg=1)", "(bold1)", "(bolder)",
        "(bol)", "(italic)", "(underline)", "(dim)", "(intensity=bold)", "(i=bold)", "(default)", "(none)", "(fg=none)", "(reset)", "(foreground=red)",
        "(background=red)", "(fgred)", "(fg=red/bg=blue)", "(fg=red|bold)", "[fg=red]", "<fg=red>", "((fg=red))", "(fg=(red))", "(fg=\"red\")", "(fg='red')",
        "(fg=red))", "((bold)", ")", "(", "5(", "(5)", "(?)", "(s)", "(fg=red?)", "(fg=red s)", "(fg=default,fg)", "(bold,fg=)", "(bold,x)", "(fg=redbold)",
        "(boldfaint)", "(fg=red)bold", "bold", "faint", "normal", "red", "(fg=red)ss", "(fg=red)y", "(bold)x!", "(bold)??", "(bold)x?x", "ss", "oo", "pp", "ee", "e?", "o?", "b?",
        "1$", "x$", ".1$", ".x$", ".*", "1$.2$", "*<5", "*^", "0>5", "5<", "5>5", "é", "🦀", "\"", "\\", "'", "\n", "d", "i", "u", "f", "g", "c", "n", "S", "P", "B", "O", "D",
        "*<5", "*^9", "->7", "0<6", "#^8x", ".>9?", "+<6", "?>5", "(<5", ")>5", "x<5", "s^9s", "é^9", "=^9(bold)", "*>9(fg=red)?", "_<9.1", "><9", "<<9", "^^9", "^>9", "*<", "*^+#09.3X", "a<9", "5<9",
        "*<09", "-<09x", "*>#12o", "\t<9", "\n<9", "é<5", "}<5", "{<5", "99999999999999999999", ".99999999999999999999", "65535", "65536", ".65536", "-5", "+5.", "0", "00", "000", "0.0", "+0", "-0x", "#", "#0", "+#0", "#s",
    ]]
    for w in COLORS + INTENS:
        for x in [w.upper(), w.capitalize(), w[:-1] + w[-1].upper(), w[:1].upper() + w[1:], w + w[-1], w[:-1], w[1:], w + "s", w.replace("bright", "bright-"), w.replace("bright", "light"), w.replace("i", "ı")]:
            if x not in COLORS + INTENS:
                junk.append("{:(%s%s)}" % ("" if w in INTENS else r.choice(["fg=", "bg="]), x))
    junk += ["{%s}" % s for s in ["-1", "+1", "1a", "a-b", "a b", "a.b", "a[0]", "a()", "*a", "&a", "!", "0x1", "1.0", "0.0", "a:b:c", ":a:b", "::", "?", "#", "()", "(bold)", "a?",
                                  "'a'", "\"a\"", "r#a", "_", "__", "_a", "1_", "1_000", "é", "a é", "é1", "🦀", "a,b", "a=1", "a+b", "$a", "a$", "0$", "@", "-", "a\u0301", "{a}", "{", "{{", "{{a",
                                  "0 ", " 0", " ", "a ", " a", " :?", ": ?", ":? ", "\n", "0:0$", "self", "Self", "super", "crate", "01", "00", "1", "0"]]
    for j in junk:
        for extra, k in (("", 1), ("{} ", 2)) if r.random() < 0.3 or n > 1000 else (("", 1),):
            if j.count("{") and ("{a" in j or "{:" not in j):
                out.append(case(r, extra + j, plain(k - 1), ["a"], form="str"))
            out.append(case(r, extra + j + r.choice(["", "", " z"]), plain(k), form="str"))
    # one edit away from something well-formed
    alphabet = list("{}{}{}:()=,<^>+-#0.15?xXosebEp afgbld$*é!") + ["fg", "bold", "red", "{{", "}}", "{}", "{a}", "(fg=red)"]
    for _ in range(n):
        a = r.choice(["", "", "0", "a"])
        parts = []
        for _ in range(r.choice([1, 1, 2])):
            parts.append(r.choice(["", "t", "{{", "}}"]))
            parts.append("{%s%s}" % (a if a else r.choice(["", "", "0", "a"]), "" if r.random() < 0.2 else ":" + spec(r, r.choice(["", "", "<", " ^"]), r.choice(["", "", "+"]), r.choice(["", "", "#"]),
                                                                     r.choice(["", "", "0"]), r.choice(["", "", "7"]), r.choice(["", "", ".3"]),
                                                                     attr_list(r) if r.random() < 0.5 else "")))
        f = "".join(parts)
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            i = r.randrange(len(f) + 1)
            k = r.random()
            if k < 0.35:
                f = f[:i] + r.choice(alphabet) + f[i:]
            elif k < 0.65:
                f = f[:i] + f[i + 1:]
            elif k < 0.85:
                f = f[:i] + r.choice(alphabet) + f[i + 1:]
            else:
                j = r.randrange(len(f) + 1)
                i, j = min(i, j), max(i, j)
                f = f[:j] + f[i:j] + f[j:]
        k = r.choice([0, 1, 1, 1, 2, 2, 3])
        args = plain(k)
        if "{a" in f and r.random() < 0.7:
            args += named("a")
        out.append(case(r, f, args, ["a"] if r.random() < 0.3 else [], form="str"))
    return out
