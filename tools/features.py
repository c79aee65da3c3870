"""Programs using the items that a set of features provides, built and run under that set.

Which items those are comes from spec/MC_Features.tla. Without std the program is a no_std one, and without
alloc one that has no allocator."""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor
from svlib import *

# how each item is used; o is a `&mut dyn core::fmt::Write`, T a text with something to escape
COMMON = r"""
use core::fmt::{self, Write as _};
pub type O<'a> = &'a mut dyn fmt::Write;
pub const T: &str = "a<b&\"c' \u{e9}\u{1f980}";

#[allow(unused)]
use stylish::{Background, Color, Foreground, Intensity, Restyle, Style, StyleDiff};

#[allow(unused)]
pub fn st(k: usize) -> Style {
    let c = [Color::Red, Color::Default, Color::BrightCyan, Color::Black];
    let i = [Intensity::Bold, Intensity::Normal, Intensity::Faint];
    Style::default().with(Foreground(c[k % 4])).with(Background(c[(k / 2) % 4])).with(i[k % 3])
}

/// Records what it is given, naming the style where it changes.
#[allow(unused)]
pub struct Rec<'a>(pub O<'a>, pub Option<Style>);
impl stylish::Write for Rec<'_> {
    fn write_str(&mut self, s: &str, style: Style) -> stylish::Result {
        if !s.is_empty() && self.1 != Some(style) {
            self.1 = Some(style);
            core::write!(self.0, "[{:?}]", style)?;
        }
        self.0.write_str(s)
    }
}

/// A handle to a sink that can be written to by value.
#[allow(unused)]
pub struct W<'a>(pub O<'a>);
impl fmt::Write for W<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.write_str(s)
    }
}

/// Takes n characters.
#[allow(unused)]
pub struct Short<'a>(pub O<'a>, pub usize);
impl stylish::Write for Short<'_> {
    fn write_str(&mut self, s: &str, style: Style) -> stylish::Result {
        for c in s.chars() {
            if self.1 == 0 {
                return Err(stylish::Error);
            }
            self.1 -= 1;
            self.0.write_char(c)?;
        }
        Ok(())
    }
}

#[allow(unused)]
pub struct Val(pub u32);
impl stylish::Display for Val {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        f.write_str("<")?;
        if self.0 > 0 {
            f.with(&Foreground(Color::Green)).write_str("g")?;
            Val(self.0 - 1).fmt(&mut f.with(&Intensity::Bold))?;
            stylish::Display::fmt(&Val(self.0 - 1), &mut f.with(&(Background(Color::Blue), Intensity::Faint)))?;
        }
        f.write_str(">")
    }
}
#[allow(unused)]
pub struct Bad(pub &'static str);
impl stylish::Display for Bad {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        f.write_str(self.0)?;
        Err(stylish::Error)
    }
}
impl fmt::Display for Bad {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)?;
        Err(fmt::Error)
    }
}
#[allow(unused)]
pub fn styled<X: stylish::Write>(x: &mut X) {
    use stylish::Write as _;
    for k in 0..24 {
        x.write_str(T, st(k)).unwrap();
        x.write_str("", st(k + 5)).unwrap();
        x.write_char('\u{e9}', st(k / 3)).unwrap();
        x.write_str("plain", Style::default()).unwrap();
        x.write_str("", Style::default()).unwrap();
    }
}
#[allow(unused)]
macro_rules! formatted {
    ($x:expr, $r:expr) => {{
        $r(stylish::write!($x, "{T:(fg=red)}|{1:(bg=blue,bold)s}|{0:+08.3(faint)e}{{}}", 12.5, Val(2), T = T));
        $r(stylish::writeln!($x, "{:s} {:#x?} {:?}", Val(1), Some(255), T));
        $r(stylish::write!($x, "{:(fg=green)s}{}", stylish::format_args!("{:(bold)}{}", 1, 2), 3));
        $r(stylish::writeln!($x));
    }};
}
"""

ITEMS = {
    "style": 'for k in 0..24 { core::write!(o, "{:?} {} ", st(k), st(k) == st(k + 12)).unwrap(); }',
    "restyle": """for k in 0..24 {
        let d: StyleDiff = st(k).diff_from(st(k + 7));
        core::write!(o, "{:?} {:?} ", d, st(k + 7).with(d) == st(k)).unwrap();
        core::write!(o, "{:?} ", st(k).with((Foreground(Color::Blue), Intensity::Bold, Foreground(Color::White)))).unwrap();
        core::write!(o, "{:?} ", st(k).with(&[Foreground(Color::Blue), Foreground(Color::Cyan)][..])).unwrap();
        core::write!(o, "{:?} ", st(k).with(()).with(&Background(Color::Yellow)).with(st(3))).unwrap();
    }""",
    "writer": "styled(&mut Rec(o)); styled(&mut &mut Rec(o));",
    "dynwriter": """use stylish::Write as _; let mut r = Rec(o); let d: &mut dyn stylish::Write = &mut r;
        d.write_str(T, st(1)).unwrap(); d.write_char('x', st(2)).unwrap(); styled(&mut &mut *d);""",
    "display": "fn show<X: stylish::Display>(_: &X) -> bool { true } core::write!(o, \"{}\", show(&Val(1))).unwrap();",
    "argstype": "fn args(_: stylish::Arguments<'_>, _: &mut stylish::Formatter<'_>) {} let _ = args; o.write_str(\"ok\").unwrap();",
    "format_args": """use stylish::Write as _;
        Rec(o).write_fmt(stylish::format_args!("a{}b{:(fg=red)}c{{{}}}", 1, T, 2)).unwrap();
        Rec(o).write_fmt(stylish::format_args!("{:s}", stylish::format_args!("{:s}", Val(2)))).unwrap();""",
    "write": "use stylish::Write as _; let mut r = Rec(o); formatted!(r, |x: stylish::Result| x.unwrap());",
    "writeln": "use stylish::Write as _; let mut r = Rec(o); stylish::writeln!(r).unwrap(); stylish::writeln!(r, \"{:(bold)}\", 1).unwrap();",
    "nested": """use stylish::Write as _; stylish::write!(Rec(o), "{:(fg=red,bold)s}{:(bg=default)s}", Val(3),
        stylish::format_args!("{:(normal)}{:s}", 1, Val(2))).unwrap();""",
    "traits": """use stylish::Write as _; stylish::write!(Rec(o), "{} {:?} {:x?} {:X?} {:o} {:x} {:X} {:b} {:e} {:E} {:s}",
        1, T, [17], [26], 8, 255, 254, 5, 1.5, 2.5, Val(0)).unwrap();
        let mut x = Rec(o); stylish::write!(x, "{:p}", 16 as *const u8).unwrap();""",
    "params": """use stylish::Write as _; let mut r = Rec(o);
        stylish::write!(r, "{:<8}|{:^8}|{:>8}|{:+}|{:#x}|{:08.3}|{:#010b}|{:.2}|{:5}|{: ^7.1}", 1, 2, 3, 4, 255, 1.5, 5, T, T, T).unwrap();
        stylish::write!(r, "{:#?}|{:#X?}|{:-}|{:+.1e}|{:0<1}", Some(1), [26], 1, 12345.0, 3).unwrap();""".replace("|{:0<1}", "|{:01}"),
    "attrs": """use stylish::Write as _; let mut r = Rec(o);
        stylish::write!(r, "{0:()}{0:(fg=default)}{0:(bg=brightwhite,faint,)}{0:(bold,normal)}{0:(fg=red,fg=blue)}", 1).unwrap();""",
    "concat": "use stylish::Write as _; stylish::write!(Rec(o), concat!(\"a\", \"{:(fg=red)}\", \"b\"), 2).unwrap();",
    "errors": """use stylish::Write as _;
        let e = stylish::write!(Rec(o), "a{:(fg=red)s}b", Bad("x")).is_err(); core::write!(o, "{e}").unwrap();
        let e = stylish::write!(Rec(o), "a{:8}b", Bad("x")).is_err(); core::write!(o, "{e}").unwrap();
        for k in 0..9 { let e = stylish::writeln!(Short(o, k), "a{:s}b{:(bold)}", Val(1), 3).is_err(); core::write!(o, "{e}").unwrap(); }""",
    "string": """use stylish::Write as _; let mut s = stylish::String::new(); styled(&mut s); let c = s.clone(); s.write_str("x", st(1)).unwrap();
        let _: &dyn stylish::Display = &c; o.write_str("ok").unwrap();""",
    "format_fn": "let f: fn(stylish::Arguments<'_>) -> stylish::String = stylish::format; let _ = f; o.write_str(\"ok\").unwrap();",
    "string_replay": """use stylish::Write as _; let mut s = stylish::String::new(); styled(&mut s); formatted!(s, |x: stylish::Result| x.unwrap());
        stylish::write!(Rec(o), "{:(fg=red)s}{:s}", s, s.clone()).unwrap();""",
    "format": """use stylish::Write as _; let s = stylish::format!("{:(fg=red)}{:s}", T, Val(2));
        stylish::write!(Rec(o), "{:s}{:s}", s, stylish::format(stylish::format_args!("{}", 1))).unwrap();""",
    "to_stylish": "use stylish::{ToStylishString as _, Write as _}; let s = Val(2).to_stylish_string(); stylish::write!(Rec(o), \"{:s}\", s).unwrap();",
    "io_writer": """struct V(std::vec::Vec<u8>, usize, Option<Style>);
        impl stylish::io::Write for V {
            fn write(&mut self, b: &[u8], s: Style) -> stylish::io::Result<usize> {
                use std::io::Write as _;
                self.1 += 1;
                if self.1 % 3 == 0 { return Err(stylish::io::Error::from(stylish::io::ErrorKind::Interrupted)); }
                let n = b.len().min(2); if self.2 != Some(s) { self.2 = Some(s); std::write!(self.0, "{:?}", s)?; } self.0.extend_from_slice(&b[..n]); Ok(n)
            }
            fn flush(&mut self) -> stylish::io::Result<()> { Ok(()) }
        }
        use stylish::io::Write as _;
        let mut v = V(std::vec::Vec::new(), 0, None); v.write_all(T.as_bytes(), st(1)).unwrap(); (&mut v).write_all(b"x", st(2)).unwrap(); v.flush().unwrap();
        o.write_str(&std::string::String::from_utf8_lossy(&v.0)).unwrap();""",
    "io_macros": """struct V(std::vec::Vec<u8>, Option<Style>);
        impl stylish::io::Write for V {
            fn write(&mut self, b: &[u8], s: Style) -> stylish::io::Result<usize> {
                use std::io::Write as _; let n = b.len().min(3); if self.1 != Some(s) { self.1 = Some(s); std::write!(self.0, "{:?}", s)?; } self.0.extend_from_slice(&b[..n]); Ok(n)
            }
            fn flush(&mut self) -> stylish::io::Result<()> { Ok(()) }
        }
        use stylish::io::Write as _;
        let mut v = V(std::vec::Vec::new(), None); formatted!(v, |x: stylish::io::Result<()>| x.unwrap());
        let e = stylish::write!(v, "{:s}", Bad("x")).unwrap_err(); core::write!(o, "{:?}", e.kind()).unwrap();
        o.write_str(&std::string::String::from_utf8_lossy(&v.0)).unwrap();""",
}
for b, end in (("ansi", "finish().unwrap()"), ("html", "finish().unwrap()"), ("plain", "into_inner()")):
    B = b.capitalize()
    ITEMS[b] = """let mut w = stylish::%s(W(o)); styled(&mut w); let _ = w.%s;
        let mut w = stylish::%s::new(W(o)); styled(&mut w); let _ = w.%s;""" % (b, end, B, end)
    ITEMS[b + "_write"] = """use stylish::Write as _; let mut w = stylish::%s(W(o)); formatted!(w, |x: stylish::Result| x.unwrap()); styled(&mut w); let _ = w.%s;
        let mut w = stylish::%s(W(o)); let e = stylish::write!(w, "a{:(fg=red)s}b", Bad("x")).is_err(); let _ = w.%s; core::write!(o, "{e}").unwrap();""" % (b, end, b, end)
    ITEMS[b + "_format_fn"] = "let f: fn(stylish::Arguments<'_>) -> AString = stylish::%s::format; let _ = f; o.write_str(\"ok\").unwrap();" % b
    ITEMS[b + "_format"] = """o.write_str(&stylish::%s::format!("{T:(fg=red)}{{{:(bold)s}", Val(2))).unwrap();
        o.write_str(&stylish::%s::format(stylish::format_args!("{:(bg=blue)}<", T))).unwrap();""" % (b, b)
    ITEMS["to_" + b] = "use stylish::To%sString as _; o.write_str(&Val(3).to_%s_string()).unwrap();" % (B, b)
    if b != "html":
        ITEMS["io_" + b] = """use stylish::io::Write as _; let mut w = stylish::io::%s(std::vec::Vec::new());
        for k in 0..24 { w.write_all(T.as_bytes(), st(k)).unwrap(); w.write_all(b"", st(k + 1)).unwrap(); let _ = w.write(b"x", st(k / 3)).unwrap(); }
        w.flush().unwrap(); let v = w.%s; let _ = stylish::io::%s::new(std::vec::Vec::<u8>::new());
        o.write_str(&std::string::String::from_utf8_lossy(&v)).unwrap();""" % (b, end, B)
        ITEMS["io_" + b + "_write"] = """use stylish::io::Write as _; let mut w = stylish::io::%s(std::vec::Vec::new());
        formatted!(w, |x: stylish::io::Result<()>| x.unwrap());
        let e = stylish::write!(w, "{:s}", Bad("x")).unwrap_err(); core::write!(o, "{:?}", e.kind()).unwrap();
        o.write_str(&std::string::String::from_utf8_lossy(&w.%s)).unwrap();""" % (b, end)

HOSTED = r"""
fn put(s: &str) {
    use std::io::Write as _;
    std::io::stdout().write_all(s.as_bytes()).unwrap();
}
fn main() { all(); }
"""

FREE = r"""
#[link(name = "c")]
extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}
fn put(s: &str) {
    let mut b = s.as_bytes();
    while !b.is_empty() {
        let n = unsafe { write(1, b.as_ptr(), b.len()) };
        if n <= 0 { unsafe { _exit(3) } }
        b = &b[n as usize..];
    }
}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! { unsafe { _exit(101) } }
#[no_mangle]
pub extern "C" fn rust_eh_personality() {}
#[no_mangle]
pub extern "C" fn main(_: i32, _: *const *const u8) -> i32 { all(); 0 }
"""

ALLOC = r"""
extern "C" { fn aligned_alloc(a: usize, n: usize) -> *mut u8; fn free(p: *mut u8); }
struct A;
unsafe impl core::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, l: core::alloc::Layout) -> *mut u8 {
        let a = l.align().max(16);
        aligned_alloc(a, (l.size() + a - 1) / a * a)
    }
    unsafe fn dealloc(&self, p: *mut u8, _: core::alloc::Layout) { free(p) }
}
#[global_allocator]
static GLOBAL: A = A;
"""

PUT = r"""
struct Esc;
impl fmt::Write for Esc {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut b = [0; 4];
        for c in s.chars() {
            for d in c.escape_default() {
                put(d.encode_utf8(&mut b));
            }
        }
        Ok(())
    }
}
"""


def source(feats, items):
    free = "std" not in feats
    out = "#![allow(unused)]\n" + ("#![no_std]\n#![no_main]\n" if free else "")
    if "alloc" in feats:
        out += "extern crate alloc;\nuse alloc::string::String as AString;\n"
    out += COMMON + PUT + (FREE if free else HOSTED) + (ALLOC if free and "alloc" in feats else "")
    for i in items:
        out += "fn item_%s(o: O<'_>) {\n        %s\n}\n" % (i, ITEMS[i].replace("Rec(o)", "Rec(&mut *o, None)").replace("W(o)", "W(&mut *o)").replace("Short(o,", "Short(&mut *o,"))
    out += "fn all() {\n%s}\n" % "".join('    put("%s\\t"); item_%s(&mut Esc); put("\\n");\n' % (i, i) for i in items)
    return out


def name(feats):
    return "_".join(sorted(feats)) or "none"


def make(tmp, feats, items):
    d = fresh(os.path.join(tmp, "items-" + name(feats)))
    os.makedirs(os.path.join(d, "src"))
    dep = sorted(f for f in feats if not (f == "alloc" and "std" in feats))
    open(os.path.join(d, "Cargo.toml"), "w").write("""[package]
name = "items"
version = "0.0.0"
edition = "2021"
[dependencies]
stylish = { path = "%s", default-features = false, features = [%s] }
[profile.dev]
debug = 0
incremental = false
overflow-checks = true
panic = "abort"
[workspace]
""" % (REPO, ", ".join('"%s"' % f for f in dep)))
    open(os.path.join(d, "src", "main.rs"), "w", encoding="utf-8").write(source(feats, items))
    return d


def run(tmp, plan, sessions, jobs=CORES):
    """plan: [(feats, items)]; sessions(binary, feats) gives [(name, digest)] recorded with a harness built for feats.
    Gives one record per set of features."""
    lanes = [plan[i::jobs] for i in range(jobs)]

    def lane(k):
        res = []
        target = os.path.join(BUILD, "features", str(k))
        for feats, items, withses in lanes[k]:
            rec = {"feats": sorted(feats), "built": "yes", "out": {}, "ses": {}}
            d = make(tmp, feats, items)
            r = cargo(["build"], d, target, timeout=400)
            if r.returncode != 0:
                rec.update(built="no", msg=r.stderr.decode(errors="replace")[-3000:])
                res.append(rec)
                continue
            try:
                p = subprocess.run([os.path.join(target, "debug", "items")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
                for l in p.stdout.decode("utf-8", errors="replace").split("\n")[:-1]:
                    i, _, t = l.partition("\t")
                    rec["out"][i] = t
                if p.returncode != 0:
                    rec["out"]["exit"] = str(p.returncode)
            except subprocess.TimeoutExpired:
                rec["out"]["exit"] = "timeout"
            if withses:
                args = [f for f in feats if not (f == "alloc" and "std" in feats)]
                rec["ses"] = sessions(args, os.path.join(BUILD, "features", str(k)))
            res.append(rec)
        return res

    with ThreadPoolExecutor(jobs) as ex:
        return [r for rs in ex.map(lane, range(len(lanes))) for r in rs]
