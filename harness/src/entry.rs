//! The same formatted data through every entry point of every backend. No expectations in here.
use crate::{
    json::{obj, J},
    lex,
    session::{self, guarded, nested::run},
    sinks::{self, Recorder},
};
use stylish::{Formatter, Style};

/// Displays segments one after the other.
struct Seq<'a>(&'a [&'a [J]]);
impl stylish::Display for Seq<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        self.0.iter().try_for_each(|s| run(s, f))
    }
}
struct Seg<'a>(&'a [J]);
impl stylish::Display for Seg<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        run(self.0, f)
    }
}

/// What a value consists of, as the library hands it to a writer.
fn runs(v: &dyn stylish::Display) -> Option<Vec<(String, Style)>> {
    let mut rec = Recorder::new();
    let ok = stylish::Write::write_fmt(&mut rec, stylish::format_args!("{:s}", v)).is_ok();
    ok.then(|| sinks::with(|o| o.chans[rec.0].chunks.clone()))
}

/// `segs` of an event: indices of segments (from 1), and 0 for line ends.
struct Log {
    ev: Vec<J>,
}
impl Log {
    fn say(&mut self, be: &str, via: &str, segs: Vec<i64>, got: Result<Option<Vec<u8>>, String>) {
        let e = obj([("be", be.into()), ("via", via.into()), ("segs", J::Arr(segs.into_iter().map(J::Num).collect()))]);
        self.ev.push(match got {
            Ok(Some(b)) => e
                .with("res", "ok")
                .with("raw", String::from_utf8_lossy(&b).into_owned())
                .with(
                    "out",
                    J::Arr(match be {
                        "ansi" | "ioansi" => lex::ansi(&b, None),
                        "html" => lex::html(&b),
                        _ => lex::plain(&b),
                    }),
                ),
            Ok(None) => e.with("res", "err").with("raw", "").with("out", J::Arr(vec![])),
            Err(m) => e.with("res", "panic").with("raw", m).with("out", J::Arr(vec![])),
        });
    }
    fn chunks(&mut self, via: &str, segs: Vec<i64>, got: Result<Option<Vec<(String, Style)>>, String>) {
        let e = obj([("be", "rec".into()), ("via", via.into()), ("segs", J::Arr(segs.into_iter().map(J::Num).collect()))]);
        self.ev.push(match got {
            Ok(Some(c)) => e.with("res", "ok").with("raw", "").with("out", J::Arr(lex::chunks(&c))),
            Ok(None) => e.with("res", "err").with("raw", "").with("out", J::Arr(vec![])),
            Err(m) => e.with("res", "panic").with("raw", m).with("out", J::Arr(vec![])),
        });
    }
}
fn all(n: usize) -> Vec<i64> {
    (1..=n as i64).collect()
}

/// Runs with panics caught.
fn attempt<T>(f: impl FnOnce() -> Option<T>) -> Result<Option<T>, String> {
    let mut res = None;
    let p = guarded(|| res = f());
    session::clear();
    match p {
        None => Ok(res),
        Some(m) => Err(m),
    }
}

pub const WAYS: usize = 16;
/// Writes a segment in one of several ways. What was written goes to `segs`.
fn put<W: stylish::Write>(w: &mut W, i: usize, seg: &[J], way: usize, segs: &mut Vec<i64>) -> bool {
    fn pass(w: &mut impl stylish::Write, args: stylish::Arguments<'_>) -> stylish::Result {
        w.write_fmt(args)
    }
    let n = Seg(seg);
    let k = i as i64 + 1;
    let nl = matches!(way % WAYS, 1 | 4 | 6 | 11);
    segs.push(k);
    if nl {
        segs.push(0);
    }
    match way % WAYS {
        0 => stylish::write!(w, "{:s}", n),
        1 => stylish::writeln!(w, "{:s}", n),
        2 => w.write_fmt(stylish::format_args!("{:s}", n)),
        3 => stylish::Write::write_fmt(&mut &mut *w, stylish::format_args!("{0:s}", n)),
        4 => {
            let d: &mut dyn stylish::Write = w;
            stylish::writeln!(d, "{n:s}",)
        }
        5 => {
            let d: &mut dyn stylish::Write = &mut &mut &mut *w;
            stylish::write!(d, "{}{:s}{}", "", &n, "")
        }
        6 => stylish::write!(w, "{:s}", &&n).and_then(|()| stylish::writeln!(w)),
        7 => match runs(&n) {
            Some(r) => r.iter().try_for_each(|(t, s)| w.write_str(t, *s)),
            None => Err(stylish::Error),
        },
        8 => match runs(&n) {
            Some(r) => r.iter().try_for_each(|(t, s)| t.chars().try_for_each(|c| w.write_char(c, *s))),
            None => Err(stylish::Error),
        },
        9 => stylish::write!(w, "{:s}", stylish::format_args!("{a:s}", a = n)),
        10 => pass(w, stylish::format_args!("{:s}", n)),
        11 => {
            let mut s = stylish::String::new();
            stylish::Write::write_fmt(&mut s, stylish::format_args!("{:s}\n", n)).and_then(|()| stylish::write!(w, "{s:s}"))
        }
        12 => {
            let d: &dyn stylish::Display = &n;
            stylish::write!(&mut *w, "{:s}", d)
        }
        13 => match runs(&n) {
            Some(r) => r.iter().try_for_each(|(t, s)| {
                let d: &mut dyn stylish::Write = &mut &mut *w;
                d.write_str("", Style::default())?;
                t.chars().try_for_each(|c| d.write_char(c, *s))
            }),
            None => Err(stylish::Error),
        },
        14 => {
            // a formatter is a writer itself
            struct Inner<'a>(&'a [J]);
            impl stylish::Display for Inner<'_> {
                fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
                    for (t, s) in runs(&Seg(self.0)).ok_or(stylish::Error)? {
                        stylish::Write::write_str(f, &t, s)?;
                    }
                    Ok(())
                }
            }
            stylish::write!(w, "{:s}", Inner(seg))
        }
        _ => {
            let s = stylish::ToStylishString::to_stylish_string(&n);
            w.write_fmt(stylish::format_args!("{:s}", s))
        }
    }
    .is_ok()
}

pub const IO_WAYS: usize = 14;
fn put_io<W: stylish::io::Write>(w: &mut W, i: usize, seg: &[J], way: usize, segs: &mut Vec<i64>) -> bool {
    fn pass(w: &mut impl stylish::io::Write, args: stylish::Arguments<'_>) -> std::io::Result<()> {
        w.write_fmt(args)
    }
    fn bad<T>() -> std::io::Result<T> {
        Err(std::io::Error::new(std::io::ErrorKind::Other, "no runs"))
    }
    let n = Seg(seg);
    let nl = matches!(way % IO_WAYS, 1 | 4 | 6 | 11);
    segs.push(i as i64 + 1);
    if nl {
        segs.push(0);
    }
    match way % IO_WAYS {
        0 => stylish::write!(w, "{:s}", n),
        1 => stylish::writeln!(w, "{:s}", n),
        2 => w.write_fmt(stylish::format_args!("{:s}", n)),
        3 => stylish::io::Write::write_fmt(&mut &mut *w, stylish::format_args!("{0:s}", n)),
        4 => {
            let d: &mut dyn stylish::io::Write = w;
            stylish::writeln!(d, "{n:s}",)
        }
        5 => {
            let d: &mut dyn stylish::io::Write = &mut &mut &mut *w;
            stylish::write!(d, "{}{:s}{}", "", &n, "")
        }
        6 => stylish::write!(w, "{:s}", &&n).and_then(|()| stylish::writeln!(w)),
        7 => match runs(&n) {
            Some(r) => r.iter().try_for_each(|(t, s)| w.write_all(t.as_bytes(), *s)),
            None => bad(),
        },
        8 => match runs(&n) {
            // bytes of characters on their own as well
            Some(r) => r.iter().try_for_each(|(t, s)| t.as_bytes().chunks(1).try_for_each(|c| w.write_all(c, *s))),
            None => bad(),
        },
        9 => stylish::write!(w.by_ref(), "{:s}", stylish::format_args!("{a:s}", a = n)),
        10 => pass(w, stylish::format_args!("{:s}", n)),
        11 => stylish::write!(w, "{:s}", stylish::format!("{:s}\n", n)),
        12 => match runs(&n) {
            Some(r) => r.iter().try_for_each(|(t, s)| {
                let mut b = t.as_bytes();
                let d: &mut dyn stylish::io::Write = &mut &mut *w;
                while !b.is_empty() {
                    let k = d.write(b, *s)?;
                    b = &b[k..];
                }
                d.flush()
            }),
            None => bad(),
        },
        _ => match runs(&n) {
            Some(r) => r.iter().try_for_each(|(t, s)| {
                w.write_all(b"", Style::default())?;
                w.by_ref().write_all(t.as_bytes(), *s)
            }),
            None => bad(),
        },
    }
    .is_ok()
}

/// Without any of the traits imported, as in the documentation.
mod inherent {
    use super::{Seg, J};
    macro_rules! inherent {
        ($name:ident, $t:ty) => {
            pub fn $name(w: &mut $t, i: usize, seg: &[J], way: usize, segs: &mut Vec<i64>) -> bool {
                let n = Seg(seg);
                segs.push(i as i64 + 1);
                if way % 3 != 0 {
                    segs.push(0);
                }
                match way % 3 {
                    0 => w.write_fmt(stylish::format_args!("{:s}", n)).is_ok(),
                    1 => stylish::writeln!(w, "{:s}", n).is_ok(),
                    _ => stylish::write!(w, "{:s}", n).is_ok() && stylish::writeln!(w).is_ok(),
                }
            }
        };
    }
    inherent!(ansi, stylish::Ansi<String>);
    inherent!(html, stylish::Html<String>);
    inherent!(plain, stylish::Plain<String>);
    inherent!(ioansi, stylish::io::Ansi<Vec<u8>>);
    inherent!(ioplain, stylish::io::Plain<Vec<u8>>);
}

trait Fin: Sized {
    type Sink;
    fn fin(self) -> Option<Self::Sink>;
}
impl<T: std::fmt::Write> Fin for stylish::Ansi<T> {
    type Sink = T;
    fn fin(self) -> Option<T> {
        self.finish().ok()
    }
}
impl<T: std::fmt::Write> Fin for stylish::Html<T> {
    type Sink = T;
    fn fin(self) -> Option<T> {
        self.finish().ok()
    }
}
impl<T: std::fmt::Write> Fin for stylish::Plain<T> {
    type Sink = T;
    fn fin(self) -> Option<T> {
        Some(self.into_inner())
    }
}
impl<T: std::io::Write> Fin for stylish::io::Ansi<T> {
    type Sink = T;
    fn fin(self) -> Option<T> {
        self.finish().ok()
    }
}
impl<T: std::io::Write> Fin for stylish::io::Plain<T> {
    type Sink = T;
    fn fin(self) -> Option<T> {
        Some(self.into_inner())
    }
}

fn fill<W: stylish::Write>(w: &mut W, segs: &[&[J]], way: usize, done: &mut Vec<i64>) -> Option<()> {
    segs.iter().enumerate().all(|(i, s)| put(w, i, s, way + i * 5, done)).then_some(())
}
fn fill_io<W: stylish::io::Write>(w: &mut W, segs: &[&[J]], way: usize, done: &mut Vec<i64>) -> Option<()> {
    segs.iter().enumerate().all(|(i, s)| put_io(w, i, s, way + i * 5, done)).then_some(())
}

macro_rules! fmt_family {
    ($be:ident, $name:literal, $writer:ident, $tr:ident, $to:ident) => {
        fn $be(l: &mut Log, segs: &[&[J]], k: usize) {
            let v = Seq(segs);
            let n = segs.len();
            let s = |x: String| Some(x.into_bytes());
            // to strings at once
            l.say($name, "macro", all(n), attempt(|| s(stylish::$be::format!("{:s}", v))));
            l.say($name, "function", all(n), attempt(|| s(stylish::$be::format(stylish::format_args!("{:s}", v)))));
            l.say($name, "nested", all(n), attempt(|| s(stylish::$be::format!("{0:s}", stylish::format_args!("{v:s}")))));
            l.say($name, "to_string", all(n), attempt(|| s(stylish::$tr::$to(&v))));
            l.say($name, "to_string ref", all(n), attempt(|| s(stylish::$tr::$to(&&&v))));
            l.say($name, "to_string dyn", all(n), attempt(|| {
                let d: &dyn stylish::Display = &v;
                s(stylish::$tr::$to(d))
            }));
            l.say($name, "to_string arguments", all(n), attempt(|| s(stylish::$tr::$to(&stylish::format_args!("{:s}", v)))));
            // through an attributed string
            l.say($name, "string macro", all(n), attempt(|| s(stylish::$be::format!("{:s}", stylish::format!("{:s}", v)))));
            l.say($name, "string function", all(n), attempt(|| {
                s(stylish::$be::format(stylish::format_args!("{:s}", stylish::format(stylish::format_args!("{:s}", v)))))
            }));
            l.say($name, "string to_string", all(n), attempt(|| {
                let x = stylish::ToStylishString::to_stylish_string(&v);
                s(stylish::$tr::$to(&x.clone()))
            }));
            // two of them in a row
            let mut twice = all(n);
            twice.push(0);
            twice.extend(all(n));
            l.say($name, "macro twice", twice, attempt(|| s(stylish::$be::format!("{0:s}\n{0:s}", v))));
            // writers
            for (via, way) in [("writer", k), ("writer", k + 1), ("writer", k + 2)] {
                let mut done = vec![];
                let r = attempt(|| {
                    let mut w = stylish::$be(String::new());
                    fill(&mut w, segs, way, &mut done)?;
                    w.fin().and_then(s)
                });
                l.say($name, &format!("{via} {}", way % WAYS), done, r);
            }
            let mut done = vec![];
            let r = attempt(|| {
                let mut w = stylish::$writer::new(String::new());
                segs.iter().enumerate().all(|(i, x)| inherent::$be(&mut w, i, x, k + i, &mut done)).then_some(())?;
                w.fin().and_then(s)
            });
            l.say($name, &format!("inherent {}", k % 3), done, r);
            // other sinks
            let mut done = vec![];
            let r = attempt(|| {
                let mut out = String::new();
                let mut w = stylish::$be(&mut out);
                fill(&mut w, segs, k + 3, &mut done)?;
                w.fin()?;
                s(out)
            });
            l.say($name, "borrowed sink", done, r);
            let mut done = vec![];
            let r = attempt(|| {
                let mut out = String::new();
                {
                    let d: &mut dyn std::fmt::Write = &mut out;
                    let mut w = stylish::$writer::new(d);
                    fill(&mut w, segs, k + 4, &mut done)?;
                    w.fin()?;
                }
                s(out)
            });
            l.say($name, "dyn sink", done, r);
            let mut done = vec![];
            let r = attempt(|| {
                let mut w = stylish::$writer::<String>::default();
                fill(&mut w, segs, k + 5, &mut done)?;
                w.fin().and_then(s)
            });
            l.say($name, "default", done, r);
            l.say($name, "std formatter", all(n), attempt(|| {
                struct Std<'a>(&'a Seq<'a>);
                impl std::fmt::Display for Std<'_> {
                    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                        let mut w = stylish::$be(f);
                        w.write_fmt(stylish::format_args!("{:s}", self.0))?;
                        w.fin().map(|_| ()).ok_or(std::fmt::Error)
                    }
                }
                use std::fmt::Write;
                let mut out = String::new();
                write!(out, "{}", Std(&v)).ok()?;
                s(out)
            }));
            // clones go on independently
            if n > 1 {
                let mut done = vec![];
                let mut twin = vec![];
                let mut second = None;
                let r = attempt(|| {
                    let mut w = stylish::$be(String::new());
                    put(&mut w, 0, segs[0], k, &mut done).then_some(())?;
                    let mut c = if k % 2 == 0 {
                        w.clone()
                    } else {
                        let mut used = stylish::$be(String::new());
                        stylish::Write::write_str(&mut used, "used", session::used()).ok()?;
                        used.clone_from(&w);
                        used
                    };
                    twin = done.clone();
                    for i in 1..n {
                        put(&mut w, i, segs[i], k + i, &mut done).then_some(())?;
                        // if it fails, it is this that is reported
                        std::mem::swap(&mut done, &mut twin);
                        put(&mut c, n - i, segs[n - i], k + i + 3, &mut done).then_some(())?;
                        std::mem::swap(&mut done, &mut twin);
                    }
                    let w = std::convert::identity(w);
                    second = Some(c.fin().and_then(s));
                    w.fin().and_then(s)
                });
                l.say($name, "original", done, r);
                if let Some(x) = second {
                    l.say($name, "clone", twin, Ok(x));
                }
            }
        }
    };
}
fmt_family!(ansi, "ansi", Ansi, ToAnsiString, to_ansi_string);
fmt_family!(html, "html", Html, ToHtmlString, to_html_string);
fmt_family!(plain, "plain", Plain, ToPlainString, to_plain_string);

macro_rules! io_family {
    ($f:ident, $be:ident, $name:literal, $writer:ident) => {
        fn $f(l: &mut Log, segs: &[&[J]], k: usize) {
            let n = segs.len();
            for way in [k, k + 1, k + 2] {
                let mut done = vec![];
                let r = attempt(|| {
                    let mut w = stylish::io::$be(Vec::new());
                    fill_io(&mut w, segs, way, &mut done)?;
                    w.fin()
                });
                l.say($name, &format!("writer {}", way % IO_WAYS), done, r);
            }
            let mut done = vec![];
            let r = attempt(|| {
                let mut w = stylish::io::$writer::new(Vec::new());
                segs.iter().enumerate().all(|(i, x)| inherent::$f(&mut w, i, x, k + i, &mut done)).then_some(())?;
                w.fin()
            });
            l.say($name, &format!("inherent {}", k % 3), done, r);
            let mut done = vec![];
            let r = attempt(|| {
                let mut out = Vec::new();
                let mut w = stylish::io::$be(&mut out);
                fill_io(&mut w, segs, k + 3, &mut done)?;
                w.fin()?;
                Some(out)
            });
            l.say($name, "borrowed sink", done, r);
            let mut done = vec![];
            let r = attempt(|| {
                let mut out = Vec::new();
                {
                    let d: Box<dyn std::io::Write + '_> = Box::new(&mut out);
                    let mut w = stylish::io::$writer::new(d);
                    fill_io(&mut w, segs, k + 4, &mut done)?;
                    w.fin()?;
                }
                Some(out)
            });
            l.say($name, "boxed sink", done, r);
            let mut done = vec![];
            let r = attempt(|| {
                let mut w = stylish::io::$be(std::io::BufWriter::with_capacity(7, Vec::new()));
                fill_io(&mut w, segs, k + 5, &mut done)?;
                w.fin()?.into_inner().ok()
            });
            l.say($name, "buffered sink", done, r);
            let mut done = vec![];
            let r = attempt(|| {
                let mut w = stylish::io::$be(std::io::LineWriter::with_capacity(5, Vec::new()));
                fill_io(&mut w, segs, k + 6, &mut done)?;
                w.fin()?.into_inner().ok()
            });
            l.say($name, "line sink", done, r);
            let mut done = vec![];
            let r = attempt(|| {
                let mut w = stylish::io::$writer::<std::io::Cursor<Vec<u8>>>::default();
                fill_io(&mut w, segs, k + 7, &mut done)?;
                w.fin().map(std::io::Cursor::into_inner)
            });
            l.say($name, "default", done, r);
            if n > 1 {
                let mut done = vec![];
                let mut twin = vec![];
                let mut second = None;
                let r = attempt(|| {
                    let mut w = stylish::io::$be(Vec::new());
                    put_io(&mut w, 0, segs[0], k, &mut done).then_some(())?;
                    let mut c = if k % 2 == 0 {
                        w.clone()
                    } else {
                        let mut used = stylish::io::$be(Vec::new());
                        stylish::io::Write::write_all(&mut used, b"used", session::used()).ok()?;
                        used.clone_from(&w);
                        used
                    };
                    twin = done.clone();
                    for i in 1..n {
                        put_io(&mut w, i, segs[i], k + i, &mut done).then_some(())?;
                        // if it fails, it is this that is reported
                        std::mem::swap(&mut done, &mut twin);
                        put_io(&mut c, n - i, segs[n - i], k + i + 3, &mut done).then_some(())?;
                        std::mem::swap(&mut done, &mut twin);
                    }
                    second = Some(c.fin());
                    w.fin()
                });
                l.say($name, "original", done, r);
                if let Some(x) = second {
                    l.say($name, "clone", twin, Ok(x));
                }
            }
        }
    };
}
io_family!(ioansi, ansi, "ioansi", Ansi);
io_family!(ioplain, plain, "ioplain", Plain);

fn string(l: &mut Log, segs: &[&[J]], k: usize) {
    let v = Seq(segs);
    let n = segs.len();
    let s = |x: stylish::String| runs(&x);
    l.chunks("macro", all(n), attempt(|| s(stylish::format!("{:s}", v))));
    l.chunks("function", all(n), attempt(|| s(stylish::format(stylish::format_args!("{:s}", v)))));
    l.chunks("to_string", all(n), attempt(|| s(stylish::ToStylishString::to_stylish_string(&v))));
    l.chunks("to_string dyn", all(n), attempt(|| {
        let d: &dyn stylish::Display = &v;
        s(stylish::ToStylishString::to_stylish_string(d))
    }));
    l.chunks("direct", all(n), attempt(|| runs(&v)));
    let mut done = vec![];
    let r = attempt(|| {
        let mut w = stylish::String::new();
        fill(&mut w, segs, k, &mut done)?;
        s(w)
    });
    l.chunks(&format!("writer {}", k % WAYS), done, r);
    let mut done = vec![];
    let r = attempt(|| {
        let mut w = Recorder::new();
        fill(&mut w, segs, k + 1, &mut done)?;
        sinks::with(|o| Some(o.chans[w.0].chunks.clone()))
    });
    l.chunks(&format!("recorder {}", (k + 1) % WAYS), done, r);
    if n > 1 {
        let mut done = vec![];
        let mut twin = vec![];
        let mut second = None;
        let r = attempt(|| {
            let mut w = stylish::String::default();
            put(&mut w, 0, segs[0], k, &mut done).then_some(())?;
            let mut c = if k % 2 == 0 {
                w.clone()
            } else {
                let mut used = stylish::String::default();
                stylish::Write::write_str(&mut used, "used", session::used()).ok()?;
                used.clone_from(&w);
                used
            };
            twin = done.clone();
            for i in 1..n {
                put(&mut w, i, segs[i], k + i, &mut done).then_some(())?;
                // if it fails, it is this that is reported
                        std::mem::swap(&mut done, &mut twin);
                        put(&mut c, n - i, segs[n - i], k + i + 3, &mut done).then_some(())?;
                        std::mem::swap(&mut done, &mut twin);
            }
            second = Some(s(c));
            s(w)
        });
        l.chunks("original", done, r);
        if let Some(x) = second {
            l.chunks("clone", twin, Ok(x));
        }
    }
}

pub fn entry(line: &J) -> J {
    let bodies: Vec<&[J]> = line.at("segs").arr().iter().map(|b| b.arr()).collect();
    let k = line.at("k").num() as usize;
    let mut l = Log { ev: vec![] };
    sinks::reset();
    session::clear();
    ansi(&mut l, &bodies, k);
    html(&mut l, &bodies, k);
    plain(&mut l, &bodies, k);
    ioansi(&mut l, &bodies, k);
    ioplain(&mut l, &bodies, k);
    string(&mut l, &bodies, k);
    obj([("id", line.at("id").clone()), ("be", "all".into()), ("segs", line.at("segs").clone()), ("ev", J::Arr(l.ev))])
}

/// Everything that an invocation became.
pub struct Everywhere(Log);
impl Everywhere {
    pub fn raw(&mut self, be: &str, via: &str, nl: bool, f: &dyn Fn() -> Result<Vec<u8>, stylish::Error>) {
        session::clear();
        let mut evals = J::Arr(vec![]);
        let r = Self::go(&mut evals, f);
        self.0.say(be, via, if nl { vec![1, 0] } else { vec![1] }, r);
        self.evals(evals);
    }
    pub fn string(&mut self, via: &str, nl: bool, f: &dyn Fn() -> Result<stylish::String, stylish::Error>) {
        session::clear();
        let mut evals = J::Arr(vec![]);
        let r = Self::go(&mut evals, f);
        let r = r.map(|s| s.and_then(|s| runs(&s)));
        session::clear();
        self.0.chunks(via, if nl { vec![1, 0] } else { vec![1] }, r);
        self.evals(evals);
    }
    fn go<T>(evals: &mut J, f: &dyn Fn() -> Result<T, stylish::Error>) -> Result<Option<T>, String> {
        let mut res = None;
        let p = guarded(|| res = f().ok());
        let names = session::events().arr().iter().filter(|e| e.at("o").str() == "eval").map(|e| e.at("a").clone()).collect();
        *evals = J::Arr(names);
        p.map_or(Ok(res), Err)
    }
    fn evals(&mut self, evals: J) {
        let e = self.0.ev.pop().unwrap();
        self.0.ev.push(e.with("evals", evals));
    }
}
pub fn group(id: &str, f: &dyn Fn(&mut Everywhere)) {
    sinks::reset();
    session::clear();
    let mut e = Everywhere(Log { ev: vec![] });
    f(&mut e);
    println!("{}", obj([("id", id.into()), ("be", "all".into()), ("ev", J::Arr(e.0.ev))]));
}

/// The invocation through every macro and function.
#[macro_export]
macro_rules! everywhere {
    ($log:ident; $($t:tt)*) => {
        $crate::everywhere_in!($log ansi Ansi ToAnsiString to_ansi_string finish "ansi"; $($t)*);
        $crate::everywhere_in!($log html Html ToHtmlString to_html_string finish "html"; $($t)*);
        $crate::everywhere_in!($log plain Plain ToPlainString to_plain_string into_inner "plain"; $($t)*);
        $crate::everywhere_io!($log ansi finish "ioansi"; $($t)*);
        $crate::everywhere_io!($log plain into_inner "ioplain"; $($t)*);
        $log.string("macro", false, &|| Ok(stylish::format!($($t)*)));
        $log.string("function", false, &|| Ok(stylish::format(stylish::format_args!($($t)*))));
        $log.string("write", false, &|| {
            let mut w = stylish::String::new();
            stylish::write!(w, $($t)*)?;
            Ok(w)
        });
        $log.string("writeln", true, &|| {
            let mut w = stylish::String::new();
            stylish::writeln!(&mut w, $($t)*)?;
            Ok(w)
        });
    };
}
#[macro_export]
macro_rules! everywhere_in {
    ($log:ident $be:ident $W:ident $T:ident $to:ident $fin:ident $name:literal; $($t:tt)*) => {
        $log.raw($name, "macro", false, &|| Ok(stylish::$be::format!($($t)*).into_bytes()));
        $log.raw($name, "function", false, &|| Ok(stylish::$be::format(stylish::format_args!($($t)*)).into_bytes()));
        $log.raw($name, "to_string", false, &|| Ok(stylish::$T::$to(&stylish::format_args!($($t)*)).into_bytes()));
        $log.raw($name, "nested", false, &|| Ok(stylish::$be::format!("{:s}", stylish::format_args!($($t)*)).into_bytes()));
        $log.raw($name, "string", false, &|| Ok(stylish::$be::format!("{:s}", stylish::format!($($t)*)).into_bytes()));
        $log.raw($name, "write", false, &|| {
            let mut w = stylish::$be(String::new());
            stylish::write!(w, $($t)*)?;
            $crate::entry::Out::out(w.$fin())
        });
        $log.raw($name, "writeln", true, &|| {
            let mut w = stylish::$W::new(String::new());
            stylish::writeln!(w, $($t)*)?;
            $crate::entry::Out::out(w.$fin())
        });
        $log.raw($name, "dyn", true, &|| {
            let mut w = stylish::$W::new(String::new());
            {
                let w: &mut dyn stylish::Write = &mut w;
                stylish::write!(w, $($t)*)?;
                stylish::writeln!(w)?;
            }
            $crate::entry::Out::out(w.$fin())
        });
    };
}
#[macro_export]
macro_rules! everywhere_io {
    ($log:ident $be:ident $fin:ident $name:literal; $($t:tt)*) => {
        $log.raw($name, "write", false, &|| {
            let mut w = stylish::io::$be(Vec::new());
            stylish::write!(w, $($t)*).map_err(|_| stylish::Error)?;
            $crate::entry::Out::out(w.$fin())
        });
        $log.raw($name, "writeln", true, &|| {
            let mut w = stylish::io::$be(Vec::new());
            stylish::writeln!(&mut w, $($t)*).map_err(|_| stylish::Error)?;
            $crate::entry::Out::out(w.$fin())
        });
        $log.raw($name, "dyn", true, &|| {
            use stylish::io::Write as _;
            let mut w = stylish::io::$be(Vec::new());
            {
                let w: &mut dyn stylish::io::Write = &mut w;
                stylish::writeln!(w, $($t)*).map_err(|_| stylish::Error)?;
            }
            $crate::entry::Out::out(w.$fin())
        });
    };
}
pub trait Out {
    fn out(self) -> Result<Vec<u8>, stylish::Error>;
}
impl Out for String {
    fn out(self) -> Result<Vec<u8>, stylish::Error> {
        Ok(self.into_bytes())
    }
}
impl Out for Vec<u8> {
    fn out(self) -> Result<Vec<u8>, stylish::Error> {
        Ok(self)
    }
}
impl<T: Out, E> Out for Result<T, E> {
    fn out(self) -> Result<Vec<u8>, stylish::Error> {
        self.map_err(|_| stylish::Error).and_then(T::out)
    }
}
