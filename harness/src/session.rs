//! Replays a session (a list of operations on one writer) and records one event per operation with
//! its result and what reached the sink because of it. No expectations in here.
use crate::{
    json::{obj, J},
    lex, sinks,
    sinks::{ByteSink, Recorder, StrSink},
    style,
};
use std::{
    cell::{Cell, RefCell},
    panic::{catch_unwind, AssertUnwindSafe},
};
use stylish::Style;

type Lexer = fn(&sinks::Chan, Option<&str>) -> Vec<J>;

thread_local! {
    static EV: RefCell<Vec<J>> = RefCell::default();
    static VIEW: Cell<(usize, Lexer)> = const { Cell::new((usize::MAX, lex_none)) };
}

pub(crate) fn touch() {
    EV.with(|_| VIEW.with(|_| ()));
    weave::touch();
}

fn lex_none(_: &sinks::Chan, _: Option<&str>) -> Vec<J> {
    vec![]
}
fn lex_ansi(c: &sinks::Chan, t: Option<&str>) -> Vec<J> {
    lex::ansi(&c.bytes[c.seen_bytes..], t)
}
fn lex_html(c: &sinks::Chan, _: Option<&str>) -> Vec<J> {
    lex::html(&c.bytes[c.seen_bytes..])
}
fn lex_plain(c: &sinks::Chan, _: Option<&str>) -> Vec<J> {
    lex::plain(&c.bytes[c.seen_bytes..])
}
fn lex_chunks(c: &sinks::Chan, _: Option<&str>) -> Vec<J> {
    lex::chunks(&c.chunks[c.seen_chunks..])
}

/// What reached the current channel since the last event.
fn delta(text: Option<&str>) -> Vec<J> {
    let (i, lexer) = VIEW.get();
    sinks::with(|o| match o.chans.get_mut(i) {
        Some(c) => {
            let v = lexer(c, text);
            c.seen_bytes = c.bytes.len();
            c.seen_chunks = c.chunks.len();
            v
        }
        None => vec![],
    })
}

fn emit(op: J, ok: bool, text: Option<&str>) {
    emit_res(op, if ok { "ok" } else { "err" }, text)
}
fn emit_res(op: J, res: &str, text: Option<&str>) {
    let sf = sinks::with(|o| std::mem::take(&mut o.failed));
    let mut e = op
        .with("res", res)
        .with("sf", sf)
        .with("out", J::Arr(delta(text)));
    if let Some(h) = sinks::with(|o| o.heard.take()) {
        e = e.with("heard", h);
    }
    EV.with(|v| v.borrow_mut().push(e));
    weave::point();
}

/// An event with the output since the last one.
pub fn emit_event(e: J) {
    let e = e.with("out", J::Arr(delta(None)));
    EV.with(|v| v.borrow_mut().push(e));
}
pub fn events() -> J {
    J::Arr(EV.take())
}
/// Which channel the output is taken from, and how it is read.
pub fn view(chan: usize, be: &str) {
    VIEW.set((chan, match be {
        "ansi" | "ioansi" => lex_ansi,
        "html" => lex_html,
        "plain" | "ioplain" => lex_plain,
        "rec" => lex_chunks,
        _ => lex_none,
    }));
}

/// The style of what was written to a writer that is used again.
pub fn used() -> Style {
    style::mk_style(stylish::Color::Green, stylish::Color::Blue, stylish::Intensity::Bold)
}

/// The operation without its body.
fn head(op: &J) -> J {
    match op {
        J::Obj(f) => J::Obj(f.iter().filter(|(k, _)| k != "b").cloned().collect()),
        _ => op.clone(),
    }
}
fn mark(o: &str, ok: bool) {
    emit(obj([("o", o.into())]), ok, None);
}

/// The panic of a displayed value.
pub struct Boom;

/// Runs f; a value's panic (and no other) is caught, and then there is no result.
fn catching<T>(f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) if e.is::<Boom>() => {
            emit_res(obj([("o", "caught".into())]), "panic", None);
            None
        }
        Err(e) => std::panic::resume_unwind(e),
    }
}
fn boom(op: &J) -> ! {
    emit_res(op.clone(), "panic", None);
    std::panic::panic_any(Boom)
}

#[cfg(feature = "macros")]
pub mod nested {
    use super::*;
    use stylish::{Formatter, Write as _};

    /// A value whose display runs a list of operations.
    pub struct Node<'a> {
        pub open: Option<&'a J>,
        pub ops: &'a [J],
    }
    /// The same through a standard formatting trait (texts and failures only).
    pub struct StdNode<'a>(pub Node<'a>);
    pub struct Txt<'a>(pub &'a str);

    impl stylish::Display for Txt<'_> {
        fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
            f.write_str(self.0)
        }
    }

    impl stylish::Display for Node<'_> {
        fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
            if let Some(op) = self.open {
                emit(head(op), true, None);
            }
            run(self.ops, f)
        }
    }

    macro_rules! std_node {
        ($($t:ident)*) => { $(impl std::fmt::$t for StdNode<'_> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                run_std(&self.0, f)
            }
        })* };
    }
    std_node!(Display Debug LowerHex UpperExp);

    fn run_std(n: &Node<'_>, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        use std::fmt::Write;
        if let Some(op) = n.open {
            emit(head(op), true, None);
        }
        for op in n.ops {
            let r = match op.at("o").str() {
                "t" => {
                    let t = op.at("t").str();
                    let r = match op.at("m").num() % 3 {
                        0 => f.write_str(t),
                        1 => f.write_fmt(format_args!("{}", t)),
                        _ => t.chars().try_for_each(|c| f.write_char(c)),
                    };
                    emit(op.clone(), r.is_ok(), Some(t));
                    r
                }
                "fail" => {
                    emit(op.clone(), false, None);
                    Err(std::fmt::Error)
                }
                "try" => {
                    emit(head(op), true, None);
                    let r = run_std(&Node { open: None, ops: op.at("b").arr() }, f);
                    mark("end", r.is_ok());
                    Ok(())
                }
                "boom" => boom(op),
                "guard" => {
                    emit(head(op), true, None);
                    match catching(|| run_std(&Node { open: None, ops: op.at("b").arr() }, f)) {
                        Some(r) => {
                            mark("end", r.is_ok());
                            r
                        }
                        None => Ok(()),
                    }
                }
                o => panic!("harness: std op {o}"),
            };
            r?;
        }
        Ok(())
    }

    macro_rules! attr_table {
        ($f:ident $key:expr, $k:expr, $op:expr, $ops:expr; $($a:literal)*) => {
            match $key {
                $($a => match $k {
                    0 => $f.write_fmt(stylish::format_args!(concat!("{:(", $a, ")s}"), Node { open: Some($op), ops: $ops })),
                    1 => $f.write_fmt(stylish::format_args!(concat!("[{:(", $a, ")s}]"), Node { open: Some($op), ops: $ops })),
                    2 => $f.write_fmt(stylish::format_args!(concat!("{:(", $a, ")}"), StdNode(Node { open: Some($op), ops: $ops }))),
                    3 => $f.write_fmt(stylish::format_args!(concat!("[{0:(", $a, ")?}]"), StdNode(Node { open: Some($op), ops: $ops }))),
                    4 => stylish::Write::write_fmt($f, stylish::format_args!(concat!("{node:>20(", $a, ")s}"), node = Node { open: Some($op), ops: $ops })),
                    5 => $f.write_fmt(stylish::format_args!(concat!("{:+#09.2(", $a, ")s}"), Node { open: Some($op), ops: $ops })),
                    6 => $f.write_fmt(stylish::format_args!(concat!("{:^7(", $a, ")s}"), Node { open: Some($op), ops: $ops })),
                    7 => $f.write_fmt(stylish::format_args!(concat!("{:-.0(", $a, ")s}"), Node { open: Some($op), ops: $ops })),
                    8 => $f.write_fmt(stylish::format_args!(concat!("{:+#0.3(", $a, ")}"), StdNode(Node { open: Some($op), ops: $ops }))),
                    _ => $f.write_fmt(stylish::format_args!(concat!("{:<12(", $a, ")X?}"), StdNode(Node { open: Some($op), ops: $ops }))),
                })*
                a => panic!("harness: attribute list {a}"),
            }
        };
    }

    pub fn run(ops: &[J], f: &mut Formatter<'_>) -> stylish::Result {
        for op in ops {
            step(op, f)?;
        }
        Ok(())
    }

    fn step(op: &J, f: &mut Formatter<'_>) -> stylish::Result {
        let body = || op.at("b").arr();
        match op.at("o").str() {
            "t" => {
                let t = op.at("t").str();
                let r = match op.at("m").num() {
                    0 => f.write_str(t),
                    1 => f.write_fmt(stylish::format_args!("{}", t)),
                    2 => std::fmt::Write::write_str(f, t),
                    3 => {
                        fn go(w: &mut dyn std::fmt::Write, t: &str) -> std::fmt::Result {
                            write!(w, "{}", t)
                        }
                        go(f, t)
                    }
                    4 => t.chars().try_for_each(|c| std::fmt::Write::write_char(f, c)),
                    5 => f.write_fmt(stylish::format_args!("{:s}", Txt(t))),
                    6 => stylish::write!(f, "{:s}", &&Txt(t)),
                    8 => f.write_fmt(stylish::format_args!("{:+#0}", t)),
                    9 => f.write_fmt(stylish::format_args!("{:>5.1s}", Txt(t))),
                    _ => f.with(()).write_str(t),
                };
                emit(op.clone(), r.is_ok(), Some(t));
                r
            }
            "sw" => {
                let t = op.at("t").str();
                let s = style::style(op.at("s"));
                let r = match op.at("m").num() {
                    0 => stylish::Write::write_str(f, t, s),
                    1 => t.chars().try_for_each(|c| stylish::Write::write_char(f, c, s)),
                    _ => {
                        let mut g: &mut Formatter<'_> = f;
                        let d: &mut dyn stylish::Write = &mut g;
                        d.write_str(t, s)
                    }
                };
                emit(op.clone(), r.is_ok(), Some(t));
                r
            }
            "with" => {
                emit(head(op), true, None);
                let r = run(body(), &mut f.with(style::restyle(op.at("r"))));
                mark("end", r.is_ok());
                r
            }
            "attr" => {
                let key = op.at("key").str();
                let k = op.at("k").num();
                let ops = body();
                let events = || EV.with(|v| v.borrow().len());
                let before = events();
                let r = attr_table!(f key, k, op, ops;
                    "" "fg=red" "fg=green" "fg=default" "bg=blue" "bg=default" "bg=brightcyan" "bold" "faint"
                    "normal" "fg=red,bold" "bold,fg=brightwhite" "fg=red,fg=blue" "bg=yellow,fg=magenta,faint"
                    "fg=default,bg=default,normal" "bold,faint,normal,bold" "fg=black,bg=white,");
                if r.is_err() && events() == before {
                    // it failed before the value was displayed
                    emit(head(op), false, None);
                }
                mark("end", r.is_ok());
                r
            }
            "args" => {
                let n = Node { open: Some(op), ops: body() };
                let r = match op.at("m").num() {
                    0 => f.write_fmt(stylish::format_args!("{:s}", n)),
                    1 => stylish::write!(f, "{0:s}", n),
                    2 => stylish::Write::write_fmt(f, stylish::format_args!("{:s}", stylish::format_args!("{:s}", n))),
                    3 => f.write_fmt(stylish::format_args!("{n:8.3s}")),
                    4 => f.write_fmt(stylish::format_args!("{n:#s}")),
                    5 => f.write_fmt(stylish::format_args!("{n:0s}")),
                    6 => f.write_fmt(stylish::format_args!("{n:7s}")),
                    7 => f.write_fmt(stylish::format_args!("{:<+01.0s}", n)),
                    _ => f.write_fmt(stylish::format_args!("{:-300s}", stylish::format_args!("{:>s}", n))),
                };
                mark("end", r.is_ok());
                r
            }
            #[cfg(feature = "alloc")]
            "str" => {
                let mut s = stylish::String::new();
                let n = Node { open: Some(op), ops: body() };
                let r = stylish::write!(s, "{:s}", n);
                mark("built", r.is_ok());
                let r = r.and_then(|()| match op.at("m").num() {
                    0 => f.write_fmt(stylish::format_args!("{:s}", s)),
                    1 => stylish::Display::fmt(&s, f),
                    _ => f.write_fmt(stylish::format_args!("{:s}", &s.clone())),
                });
                mark("end", r.is_ok());
                r
            }
            "try" => {
                emit(head(op), true, None);
                let r = run(body(), f);
                mark("end", r.is_ok());
                Ok(())
            }
            "fail" => {
                emit(op.clone(), false, None);
                Err(stylish::Error)
            }
            "boom" => boom(op),
            "guard" => {
                emit(head(op), true, None);
                match catching(|| run(body(), f)) {
                    Some(r) => {
                        mark("end", r.is_ok());
                        r
                    }
                    None => Ok(()),
                }
            }
            o => panic!("harness: nested op {o}"),
        }
    }
}
#[cfg(feature = "macros")]
use nested::Node;

pub trait Back: Clone {
    fn make() -> Self;
    fn lexer() -> Lexer;
    fn w(&mut self, t: &str, s: Style) -> bool;
    fn c(&mut self, c: char, s: Style) -> bool;
    #[cfg(feature = "macros")]
    fn fmt(&mut self, via: i64, n: Node<'_>) -> bool;
    fn dup(&self) -> Self;
    /// The channel of the sink that was handed back.
    fn finish(self) -> Option<usize>;
    fn flush(&mut self) -> bool {
        true
    }
    #[cfg(feature = "macros")]
    fn show(&self, _: &J) -> bool {
        panic!("harness: show")
    }
}

/// Writers are made in every way there is, in turn.
fn nth() -> usize {
    thread_local!(static MADE: Cell<usize> = const { Cell::new(0) });
    MADE.set(MADE.get() + 1);
    MADE.get()
}
#[allow(unused)]
macro_rules! made {
    ($short:path, $writer:path, $sink:ident) => {{
        use $writer as Writer;
        match nth() % 4 {
            0 => Writer::<$sink>::default(),
            1 => Writer::new($sink::new()),
            2 => std::mem::take(&mut $short($sink::new())),
            _ => $short($sink::new()),
        }
    }};
}

macro_rules! fmt_calls {
    () => {
        fn w(&mut self, t: &str, s: Style) -> bool {
            stylish::Write::write_str(self, t, s).is_ok()
        }
        fn c(&mut self, c: char, s: Style) -> bool {
            stylish::Write::write_char(self, c, s).is_ok()
        }
        #[cfg(feature = "macros")]
        fn fmt(&mut self, via: i64, n: Node<'_>) -> bool {
            #[allow(unused)]
            use stylish::Write as _;
            match via {
                0 => self.write_fmt(stylish::format_args!("{:s}", n)),
                1 => stylish::write!(self, "{:s}", n),
                2 => stylish::writeln!(self, "{:s}", n),
                3 => stylish::Write::write_fmt(&mut &mut *self, stylish::format_args!("{:s}", n)),
                4 => {
                    let d: &mut dyn stylish::Write = self;
                    stylish::write!(d, "{:s}", n)
                }
                5 => {
                    let d: &mut dyn stylish::Write = &mut &mut *self;
                    stylish::writeln!(d, "{n:s}")
                }
                _ => panic!("harness: via"),
            }
            .is_ok()
        }
        fn dup(&self) -> Self {
            self.clone()
        }
    };
}

impl Back for Recorder {
    fn make() -> Self {
        Recorder::new()
    }
    fn lexer() -> Lexer {
        lex_chunks
    }
    fmt_calls!();
    fn finish(self) -> Option<usize> {
        Some(self.0)
    }
}
#[cfg(feature = "ansi")]
impl Back for stylish::Ansi<StrSink> {
    fn make() -> Self {
        made!(stylish::ansi, stylish::Ansi, StrSink)
    }
    fn lexer() -> Lexer {
        lex_ansi
    }
    fmt_calls!();
    fn finish(self) -> Option<usize> {
        self.finish().ok().map(|s| s.0)
    }
}
#[cfg(feature = "html")]
impl Back for stylish::Html<StrSink> {
    fn make() -> Self {
        made!(stylish::html, stylish::Html, StrSink)
    }
    fn lexer() -> Lexer {
        lex_html
    }
    fmt_calls!();
    fn finish(self) -> Option<usize> {
        self.finish().ok().map(|s| s.0)
    }
}
#[cfg(feature = "plain")]
impl Back for stylish::Plain<StrSink> {
    fn make() -> Self {
        made!(stylish::plain, stylish::Plain, StrSink)
    }
    fn lexer() -> Lexer {
        lex_plain
    }
    fmt_calls!();
    fn finish(self) -> Option<usize> {
        Some(self.into_inner().0)
    }
}
#[cfg(feature = "alloc")]
impl Back for stylish::String {
    fn make() -> Self {
        match nth() % 3 {
            0 => stylish::String::default(),
            1 => stylish::String::default().clone(),
            _ => stylish::String::new(),
        }
    }
    fn lexer() -> Lexer {
        lex_none
    }
    fmt_calls!();
    fn finish(self) -> Option<usize> {
        Some(0)
    }
    #[cfg(feature = "macros")]
    fn show(&self, op: &J) -> bool {
        let mut rec = Recorder::new();
        VIEW.set((rec.0, lex_chunks));
        let args = stylish::format_args!("{:s}", self);
        let r = style::restyle(op.at("r"));
        struct In<'a>(&'a stylish::String, style::R, i64);
        impl stylish::Display for In<'_> {
            fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
                let mut f = f.with(&self.1);
                match self.2 {
                    0 => f.write_fmt(stylish::format_args!("{:s}", self.0)),
                    1 => self.0.fmt(&mut f),
                    _ => f.write_fmt(stylish::format_args!("{:(fg=red,bg=blue,bold)s}", self.0)),
                }
            }
        }
        match op.at("m").num() {
            9 => stylish::Write::write_fmt(&mut rec, args),
            m => stylish::Write::write_fmt(&mut rec, stylish::format_args!("{:s}", In(self, r, m))),
        }
        .is_ok()
    }
}

#[cfg(all(feature = "std", any(feature = "ansi", feature = "plain")))]
macro_rules! io_calls {
    () => {
        fn w(&mut self, t: &str, s: Style) -> bool {
            if t.is_empty() {
                // write_all has nothing to do
                return sinks::hear(stylish::io::Write::write(self, b"", s)).is_ok_and(|n| n == 0);
            }
            sinks::hear(stylish::io::Write::write_all(self, t.as_bytes(), s)).is_ok()
        }
        fn c(&mut self, c: char, s: Style) -> bool {
            sinks::hear(stylish::io::Write::write_all(self, c.to_string().as_bytes(), s)).is_ok()
        }
        #[cfg(feature = "macros")]
        fn fmt(&mut self, via: i64, n: Node<'_>) -> bool {
            use stylish::io::Write as _;
            sinks::hear(match via {
                0 => self.write_fmt(stylish::format_args!("{:s}", n)),
                1 => stylish::write!(self, "{:s}", n),
                2 => stylish::writeln!(self, "{:s}", n),
                3 => stylish::io::Write::write_fmt(&mut self.by_ref(), stylish::format_args!("{:s}", n)),
                4 => {
                    let d: &mut dyn stylish::io::Write = self;
                    stylish::write!(d, "{:s}", n)
                }
                5 => {
                    let d: &mut dyn stylish::io::Write = &mut &mut *self;
                    stylish::writeln!(d, "{n:s}")
                }
                _ => panic!("harness: via"),
            })
            .is_ok()
        }
        fn dup(&self) -> Self {
            self.clone()
        }
        fn flush(&mut self) -> bool {
            sinks::hear(stylish::io::Write::flush(self)).is_ok()
        }
    };
}
#[cfg(all(feature = "std", feature = "ansi"))]
impl Back for stylish::io::Ansi<ByteSink> {
    fn make() -> Self {
        made!(stylish::io::ansi, stylish::io::Ansi, ByteSink)
    }
    fn lexer() -> Lexer {
        lex_ansi
    }
    io_calls!();
    fn finish(self) -> Option<usize> {
        sinks::hear(self.finish()).ok().map(|s| s.0)
    }
}
#[cfg(all(feature = "std", feature = "plain"))]
impl Back for stylish::io::Plain<ByteSink> {
    fn make() -> Self {
        made!(stylish::io::plain, stylish::io::Plain, ByteSink)
    }
    fn lexer() -> Lexer {
        lex_plain
    }
    io_calls!();
    fn finish(self) -> Option<usize> {
        Some(self.into_inner().0)
    }
}

/// Strings made by the entry points; what was made is seen when finished.
#[cfg(all(feature = "macros", feature = "alloc"))]
#[derive(Clone)]
struct Made<const K: usize>(std::string::String);
#[cfg(all(feature = "macros", feature = "alloc"))]
impl<const K: usize> Back for Made<K> {
    fn make() -> Self {
        Made(Default::default())
    }
    fn lexer() -> Lexer {
        [lex_ansi as Lexer, lex_html, lex_plain][K]
    }
    fn w(&mut self, _: &str, _: Style) -> bool {
        panic!("harness: only formatting")
    }
    fn c(&mut self, _: char, _: Style) -> bool {
        panic!("harness: only formatting")
    }
    #[allow(unused)]
    fn fmt(&mut self, via: i64, n: Node<'_>) -> bool {
        let nl = matches!(via, 2 | 5);
        self.0 = match (K, nl) {
            #[cfg(feature = "ansi")]
            (0, false) => stylish::ansi::format!("{:s}", n),
            #[cfg(feature = "ansi")]
            (0, true) => stylish::ansi::format(stylish::format_args!("{n:s}\n")),
            #[cfg(feature = "html")]
            (1, false) => stylish::html::format!("{:s}", n),
            #[cfg(feature = "html")]
            (1, true) => stylish::html::format(stylish::format_args!("{n:s}\n")),
            #[cfg(feature = "plain")]
            (2, false) => stylish::plain::format!("{:s}", n),
            #[cfg(feature = "plain")]
            (2, true) => stylish::plain::format(stylish::format_args!("{n:s}\n")),
            _ => panic!("harness: not there"),
        };
        true
    }
    fn dup(&self) -> Self {
        self.clone()
    }
    fn finish(self) -> Option<usize> {
        let mut s = ByteSink::new();
        std::io::Write::write_all(&mut s, self.0.as_bytes()).unwrap();
        VIEW.set((s.0, Self::lexer()));
        Some(0)
    }
}

/// A session that goes on operation by operation.
pub trait Steps {
    /// Carries out the next operation; false: that was all.
    fn step(&mut self) -> bool;
}
struct Driver<'a, B> {
    w: Option<B>,
    chan: usize,
    ops: &'a [J],
}
impl<B: Back> Steps for Driver<'_, B> {
    fn step(&mut self) -> bool {
        let lexer = B::lexer();
        let mut w = match self.w.take() {
            Some(w) => w,
            None => B::make(),
        };
        let mut chan = self.chan;
        let Some((op, rest)) = self.ops.split_first() else { return false };
        self.ops = rest;
        VIEW.set((chan, lexer));
        let ok = match op.at("o").str() {
            "w" => {
                let t = op.at("t").str();
                let ok = w.w(t, style::style(op.at("s")));
                emit(op.clone(), ok, Some(t));
                ok
            }
            "c" => {
                let t = op.at("t").str();
                let ok = w.c(t.chars().next().unwrap(), style::style(op.at("s")));
                emit(op.clone(), ok, Some(t));
                ok
            }
            #[cfg(feature = "macros")]
            "fmt" => {
                let n = Node { open: Some(op), ops: op.at("b").arr() };
                match catching(|| w.fmt(op.at("via").num(), n)) {
                    Some(ok) => {
                        mark("end", ok);
                        ok
                    }
                    None => true,
                }
            }
            // go on with a clone, while the original is written to and dropped
            "clone" => {
                let mut old = match op.get("m") {
                    // into a writer that was used before
                    Some(_) => {
                        let mut other = B::make();
                        let s = style::mk_style(stylish::Color::Green, stylish::Color::Blue, stylish::Intensity::Bold);
                        other.w("used", s);
                        other.clone_from(&w);
                        other
                    }
                    None => w.dup(),
                };
                std::mem::swap(&mut old, &mut w);
                let next = sinks::with(|o| o.last_cloned);
                if !sinks::with(|o| o.chans.is_empty()) {
                    chan = next;
                }
                VIEW.set((chan, lexer));
                let s = style::mk_style(stylish::Color::Cyan, stylish::Color::Default, stylish::Intensity::Bold);
                old.w("noise", s);
                old.w("more", Style::default());
                emit(op.clone(), true, None);
                true
            }
            // go on with the original, while a clone is written to and dropped
            "fork" => {
                let mut new = w.dup();
                let s = style::mk_style(stylish::Color::Red, stylish::Color::White, stylish::Intensity::Faint);
                new.w("noise", s);
                new.finish();
                emit(op.clone(), true, None);
                true
            }
            #[cfg(feature = "macros")]
            "show" => {
                let before = sinks::with(|o| o.chans.len());
                let ok = w.show(op);
                emit(op.clone(), ok, None);
                assert!(sinks::with(|o| o.chans.len()) > before);
                ok
            }
            "flush" => {
                let ok = w.flush();
                emit(op.clone(), ok, None);
                ok
            }
            "finish" => {
                let sink = w.finish();
                let back = sink == Some(chan) || sinks::with(|o| o.chans.is_empty());
                emit(op.clone().with("back", back), sink.is_some(), None);
                return false;
            }
            o => panic!("harness: op {o}"),
        };
        if !ok && sinks::with(|o| o.calls > 0 && !(o.fail_at.is_empty() && o.dead_at.is_none())) {
            return false;
        }
        self.w = Some(w);
        self.chan = chan;
        !self.ops.is_empty()
    }
}
fn start<'a, B: Back + 'a>(ops: &'a [J]) -> Box<dyn Steps + 'a> {
    Box::new(Driver::<B> { w: None, chan: 0, ops })
}

pub fn drive_backend(be: &str, ops: &[J]) {
    let mut d = driver(be, ops);
    while d.step() {}
}
pub fn driver<'a>(be: &str, ops: &'a [J]) -> Box<dyn Steps + 'a> {
    match be {
        "rec" => start::<Recorder>(ops),
        #[cfg(feature = "ansi")]
        "ansi" => start::<stylish::Ansi<StrSink>>(ops),
        #[cfg(feature = "html")]
        "html" => start::<stylish::Html<StrSink>>(ops),
        #[cfg(feature = "plain")]
        "plain" => start::<stylish::Plain<StrSink>>(ops),
        #[cfg(feature = "alloc")]
        "string" => start::<stylish::String>(ops),
        #[cfg(all(feature = "std", feature = "ansi"))]
        "ioansi" => start::<stylish::io::Ansi<ByteSink>>(ops),
        #[cfg(all(feature = "std", feature = "plain"))]
        "ioplain" => start::<stylish::io::Plain<ByteSink>>(ops),
        #[cfg(all(feature = "macros", feature = "alloc", feature = "ansi"))]
        "fansi" => start::<Made<0>>(ops),
        #[cfg(all(feature = "macros", feature = "alloc", feature = "html"))]
        "fhtml" => start::<Made<1>>(ops),
        #[cfg(all(feature = "macros", feature = "alloc", feature = "plain"))]
        "fplain" => start::<Made<2>>(ops),
        be => panic!("harness: backend {be}"),
    }
}

/// Runs with panics caught; the panic becomes an event, unless it is the harness's own.
pub fn guarded(f: impl FnOnce()) -> Option<String> {
    catch_unwind(AssertUnwindSafe(f)).err().map(|e| {
        let m = e
            .downcast_ref::<String>()
            .map(String::as_str)
            .or(e.downcast_ref::<&str>().copied())
            .unwrap_or("?")
            .to_owned();
        if m.starts_with("harness: ") {
            eprintln!("{m}");
            std::process::exit(3);
        }
        m
    })
}

pub fn clear() {
    EV.with(|v| v.borrow_mut().clear());
    VIEW.set((usize::MAX, lex_none));
}

fn once(be: &str, ops: &[J], fail_at: &[usize], dead_at: Option<usize>) -> (Vec<J>, Vec<u8>, Vec<(String, Style)>) {
    sinks::reset();
    sinks::with(|o| {
        o.fail_at = fail_at.to_vec();
        o.dead_at = dead_at;
    });
    clear();
    if let Some(m) = guarded(|| drive_backend(be, ops)) {
        EV.with(|v| {
            v.borrow_mut()
                .push(obj([("o", "panic".into()), ("msg", m.into())]))
        });
    }
    let chan = match VIEW.get().0 {
        usize::MAX => 0,
        c => c,
    };
    let (b, c) = sinks::with(|o| o.chans.get(chan).map(|c| (c.bytes.clone(), c.chunks.clone())).unwrap_or_default());
    (EV.take(), b, c)
}

fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

pub fn session(line: &J) -> J {
    let be = line.at("be").str();
    let ops = line.at("ops").arr();
    let fail: Vec<usize> = line
        .get("fail")
        .map_or(vec![], |f| f.arr().iter().map(|n| n.num() as usize).collect());
    let dead = line.get("dead").map(|d| d.num() as usize);
    let (ev, raw, chunks) = once(be, ops, &fail, dead);
    let mut res = obj([
        ("id", line.at("id").clone()),
        ("be", be.into()),
        ("ev", J::Arr(ev)),
    ]);
    let rec = be == "rec" || be == "string";
    if line.get("raw").is_some() {
        res = res.with("raw", if rec { J::Str(cells(&chunks)) } else { J::Str(text(&raw)) });
    }
    if !fail.is_empty() || dead.is_some() || line.get("cmp").is_some() {
        // the same without the failures, to compare with
        let ops = match line.get("cmp") {
            Some(ops) => ops.arr(),
            None => ops,
        };
        let (_, ref_raw, ref_chunks) = once(be, ops, &[], None);
        let (a, b) = if rec {
            (cells(&chunks), cells(&ref_chunks))
        } else {
            (text(&raw), text(&ref_raw))
        };
        res = res.with("raw", a).with("ref", b);
    }
    res
}

/// One character of text after one character standing for its style, for each character.
fn cells(chunks: &[(String, Style)]) -> String {
    let all = style::all_styles();
    let mut s = String::new();
    for (t, st) in chunks {
        let n = all.iter().position(|x| x == st).unwrap() as u32;
        for c in t.chars() {
            s.push(char::from_u32(0x4e00 + n).unwrap());
            s.push(c);
        }
    }
    s
}

/// What a session knows.
#[derive(Default)]
struct World {
    ev: Vec<J>,
    view: Option<(usize, Lexer)>,
    out: sinks::Out,
}
/// Exchanges the current session's knowledge for another one's.
fn exchange(w: &mut World) {
    EV.with(|v| std::mem::swap(&mut *v.borrow_mut(), &mut w.ev));
    let now = VIEW.replace(w.view.unwrap_or((usize::MAX, lex_none)));
    w.view = Some(now);
    sinks::with(|o| std::mem::swap(o, &mut w.out));
}

/// Several sessions at once: a schedule says which one goes on at every event and every call of a sink. In
/// one thread, a session goes on inside of another one (a value that uses the library while it is displayed,
/// a sink that uses it while it is written to); with a thread for each of them they interleave freely.
pub mod weave {
    use super::*;
    use std::sync::{Arc, Condvar, Mutex};

    thread_local!(static MODE: RefCell<Mode> = const { RefCell::new(Mode::Alone) });
    pub(crate) fn touch() {
        MODE.with(|_| ());
    }
    enum Mode {
        Alone,
        Nested(Nested),
        Threads(Arc<Turns>, usize, bool),
    }
    struct Nested {
        slots: Vec<Slot>,
        /// 0: go on; k: session k takes its next step
        sched: std::vec::IntoIter<usize>,
        sinks: bool,
    }
    #[derive(Default)]
    struct Slot {
        d: Option<Box<dyn Steps>>,
        world: World,
    }
    struct Turns {
        state: Mutex<Turn>,
        changed: Condvar,
    }
    struct Turn {
        now: usize,
        done: Vec<bool>,
        sched: std::vec::IntoIter<usize>,
    }

    /// What goes from one thread to another. Nothing else looks at it meanwhile.
    struct Mobile(Slot);
    unsafe impl Send for Mobile {}

    impl Slot {
        fn advance(self) -> Slot {
            let (mut d, mut world) = (self.d, self.world);
            exchange(&mut world);
            let mut more = false;
            if let Some(m) = guarded(|| more = d.as_mut().unwrap().step()) {
                EV.with(|v| v.borrow_mut().push(obj([("o", "panic".into()), ("msg", m.into())])));
            }
            if !more {
                d = None;
            }
            exchange(&mut world);
            Slot { d, world }
        }
    }

    /// Every step in a thread of its own (or in this one, after a 0): the writers travel.
    fn hop(mut slots: Vec<Slot>, sched: Vec<usize>) -> Vec<Vec<J>> {
        let mut sched = sched.into_iter();
        let mut here = false;
        loop {
            let k = match sched.next() {
                Some(0) => {
                    here = true;
                    continue;
                }
                Some(k) if slots[k - 1].d.is_some() => k - 1,
                Some(_) => continue,
                None => match slots.iter().position(|s| s.d.is_some()) {
                    Some(k) => k,
                    None => break,
                },
            };
            let slot = Mobile(std::mem::take(&mut slots[k]));
            slots[k] = if std::mem::take(&mut here) {
                slot.0.advance()
            } else {
                let there = std::thread::spawn(move || {
                    let slot = slot;
                    Mobile(slot.0.advance())
                });
                there.join().unwrap().0
            };
        }
        slots.into_iter().map(|s| s.world.ev).collect()
    }

    fn advance(k: usize) {
        let slot = MODE.with_borrow_mut(|m| match m {
            Mode::Nested(n) => {
                let s = &mut n.slots[k];
                s.d.take().map(|d| (d, std::mem::take(&mut s.world)))
            }
            _ => None,
        });
        // not one that is going on or has ended
        let Some((d, world)) = slot else { return };
        let slot = Slot { d: Some(d), world }.advance();
        MODE.with_borrow_mut(|m| {
            if let Mode::Nested(n) = m {
                n.slots[k] = slot;
            }
        });
    }

    pub fn point() {
        at(false)
    }
    pub fn sink_point() {
        at(true)
    }
    fn at(sink: bool) {
        // not while the thread is unwinding (a writer that is dropped because of it)
        if std::thread::panicking() {
            return;
        }
        let turns = MODE.with_borrow(|m| match m {
            Mode::Threads(t, me, s) if *s || !sink => Some((t.clone(), *me)),
            _ => None,
        });
        if let Some((t, me)) = turns {
            return t.pass(me);
        }
        loop {
            let k = MODE.with_borrow_mut(|m| match m {
                Mode::Nested(n) if n.sinks || !sink => n.sched.next().unwrap_or(0),
                _ => 0,
            });
            if k == 0 {
                return;
            }
            advance(k - 1);
        }
    }

    impl Turns {
        fn pass(&self, me: usize) {
            let mut t = self.state.lock().unwrap();
            match t.sched.next() {
                Some(k) if k > 0 && !t.done[k - 1] => t.now = k - 1,
                _ => return,
            }
            self.changed.notify_all();
            drop(self.changed.wait_while(t, |t| t.now != me).unwrap());
        }
        fn begin(&self, me: usize) {
            drop(self.changed.wait_while(self.state.lock().unwrap(), |t| t.now != me).unwrap());
        }
        fn end(&self, me: usize) {
            let mut t = self.state.lock().unwrap();
            t.done[me] = true;
            t.now = t.done.iter().position(|d| !d).unwrap_or(usize::MAX);
            self.changed.notify_all();
        }
    }

    pub fn weave(line: &J) -> J {
        let sessions: &'static [J] = Box::leak(Box::new(line.at("sessions").clone())).arr();
        let sched: Vec<usize> = line.at("sched").arr().iter().map(|n| n.num() as usize).collect();
        let in_sinks = line.get("sinks").is_some();
        let (be, ops) = (|s: &'static J| s.at("be").str(), |s: &'static J| s.at("ops").arr());
        let out = |k: usize| sinks::Out {
            fail_at: sessions[k].get("fail").map_or(vec![], |f| f.arr().iter().map(|n| n.num() as usize).collect()),
            dead_at: sessions[k].get("dead").map(|d| d.num() as usize),
            owner: k + 1,
            ..Default::default()
        };
        // what happened in this process before
        if let Some(b) = line.get("before") {
            let b: &'static J = Box::leak(Box::new(b.clone()));
            for _ in 0..b.at("n").num() {
                sinks::reset();
                let _ = guarded(|| drive_backend(be(b), ops(b)));
            }
        }
        sinks::reset();
        clear();
        let slots = || {
            sessions
                .iter()
                .enumerate()
                .map(|(k, s)| Slot { d: Some(driver(be(s), ops(s))), world: World { out: out(k), ..World::default() } })
                .collect::<Vec<_>>()
        };
        let evs: Vec<Vec<J>> = if line.at("mode").str() == "hop" {
            hop(slots(), sched)
        } else if line.at("mode").str() == "nest" {
            MODE.set(Mode::Nested(Nested { slots: slots(), sched: vec![].into_iter(), sinks: in_sinks }));
            let with = |f: &mut dyn FnMut(&mut Nested)| {
                MODE.with_borrow_mut(|m| match m {
                    Mode::Nested(n) => f(n),
                    _ => unreachable!(),
                })
            };
            with(&mut |n| n.sched = sched.clone().into_iter());
            loop {
                let mut next = 0;
                with(&mut |n| {
                    next = match n.sched.next() {
                        Some(k) => k,
                        None => n.slots.iter().position(|s| s.d.is_some()).map_or(usize::MAX, |k| k + 1),
                    }
                });
                match next {
                    usize::MAX => break,
                    0 => {}
                    k => advance(k - 1),
                }
            }
            match MODE.replace(Mode::Alone) {
                Mode::Nested(n) => n.slots.into_iter().map(|s| s.world.ev).collect(),
                _ => unreachable!(),
            }
        } else {
            let mut it = sched.into_iter();
            let now = it.next().map_or(0, |k| k.saturating_sub(1));
            let turns = Arc::new(Turns {
                state: Mutex::new(Turn { now, done: vec![false; sessions.len()], sched: it }),
                changed: Condvar::new(),
            });
            let free = line.at("mode").str() == "free";
            std::thread::scope(|sc| {
                let threads: Vec<_> = (0..sessions.len())
                    .map(|k| {
                        let turns = turns.clone();
                        sc.spawn(move || {
                            if !free {
                                turns.begin(k);
                                MODE.set(Mode::Threads(turns.clone(), k, in_sinks));
                            }
                            let s = &sessions[k];
                            sinks::with(|o| *o = out(k));
                            if let Some(m) = guarded(|| drive_backend(be(s), ops(s))) {
                                EV.with(|v| v.borrow_mut().push(obj([("o", "panic".into()), ("msg", m.into())])));
                            }
                            if !free {
                                MODE.set(Mode::Alone);
                                turns.end(k);
                            }
                            EV.take()
                        })
                    })
                    .collect();
                threads.into_iter().map(|t| t.join().unwrap()).collect()
            })
        };
        obj([
            ("id", line.at("id").clone()),
            ("be", "".into()),
            (
                "all",
                J::Arr(
                    evs.into_iter()
                        .zip(sessions)
                        .map(|(ev, s)| obj([("be", be(s).into()), ("ev", J::Arr(ev))]))
                        .collect(),
                ),
            ),
        ])
    }
}
