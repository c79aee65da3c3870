//! Calls methods of user-implemented writers through references, by_ref and trait objects, and
//! records which of the writer's own methods were reached, with what, and what they returned.
use crate::{json::{obj, J}, style};
use std::cell::RefCell;
use stylish::Style;

thread_local! {
    static LOG: RefCell<Vec<J>> = RefCell::default();
    static SCRIPT: RefCell<Vec<J>> = RefCell::default();
}

pub(crate) fn touch() {
    LOG.with(|_| SCRIPT.with(|_| ()));
}

fn run(t: &str, s: Style) -> J {
    J::Arr(vec![J::Arr(vec![t.into(), style::style_json(s)])])
}
fn result(k: &str, n: i64) -> J {
    obj([("k", k.into()), ("n", n.into())])
}
/// Records a call, and gives the scripted result (or the default).
fn called(m: &str, runs: J, default: J) -> J {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        if l.len() > 1000 {
            panic!("runaway number of calls");
        }
        let res = SCRIPT.with(|s| s.borrow().get(l.len()).cloned()).unwrap_or_else(|| default.clone());
        // results that the called method does not have
        let res = match (res.at("k").str(), default.at("k").str()) {
            ("ok", "n") | ("n", "ok") => default,
            ("n", "n") if res.at("n").num() > default.at("n").num() => default,
            _ => res,
        };
        l.push(obj([("m", m.into()), ("runs", runs), ("res", res.clone())]));
        res
    })
}

#[derive(Debug)]
struct Tag(i64);
impl std::fmt::Display for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("tag")
    }
}
impl std::error::Error for Tag {}

#[derive(Default)]
struct Cap(Vec<J>);
impl stylish::Write for Cap {
    fn write_str(&mut self, s: &str, style: Style) -> stylish::Result {
        self.0.extend_from_slice(run(s, style).arr());
        Ok(())
    }
}
fn content(args: stylish::Arguments<'_>) -> J {
    let mut c = Cap::default();
    stylish::Write::write_fmt(&mut c, args).unwrap();
    J::Arr(c.0)
}

fn fmt_result(j: &J) -> stylish::Result {
    if j.at("k").str() == "ok" {
        Ok(())
    } else {
        Err(stylish::Error)
    }
}
static INTERRUPTS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn io_error(j: &J) -> std::io::Error {
    match j.at("k").str() {
        // as sinks of the system say it, and others
        "int" if INTERRUPTS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 2 == 0 => std::io::Error::from_raw_os_error(4),
        "int" => std::io::ErrorKind::Interrupted.into(),
        "err" => std::io::Error::new(std::io::ErrorKind::Other, Tag(j.at("n").num())),
        k => panic!("harness: result {k}"),
    }
}
fn io_result(j: &J) -> std::io::Result<()> {
    if j.at("k").str() == "ok" {
        Ok(())
    } else {
        Err(io_error(j))
    }
}
fn told(e: std::io::Error) -> J {
    if let Some(t) = e.get_ref().and_then(|e| e.downcast_ref::<Tag>()) {
        return result("err", t.0);
    }
    match e.kind() {
        std::io::ErrorKind::Interrupted => result("int", 0),
        std::io::ErrorKind::WriteZero => result("zero", 0),
        _ => result("other", 0),
    }
}

macro_rules! spies {
    ($($name:ident ($($char:ident)?) ($($fmt:ident)?);)*) => { $(
        struct $name;
        impl stylish::Write for $name {
            fn write_str(&mut self, s: &str, style: Style) -> stylish::Result {
                fmt_result(&called("write_str", run(s, style), result("ok", 0)))
            }
            $(fn $char(&mut self, c: char, style: Style) -> stylish::Result {
                fmt_result(&called("write_char", run(c.encode_utf8(&mut [0; 4]), style), result("ok", 0)))
            })?
            $(fn $fmt(&mut self, args: stylish::Arguments<'_>) -> stylish::Result {
                fmt_result(&called("write_fmt", content(args), result("ok", 0)))
            })?
        }
    )* };
}
spies! {
    S0 () ();
    S1 (write_char) ();
    S2 () (write_fmt);
    S3 (write_char) (write_fmt);
}

fn bytes(b: &[u8], s: Style) -> J {
    run(std::str::from_utf8(b).unwrap_or("not text"), s)
}
macro_rules! io_spies {
    ($($name:ident ($($all:ident)?) ($($fmt:ident)?);)*) => { $(
        struct $name;
        impl stylish::io::Write for $name {
            fn write(&mut self, b: &[u8], style: Style) -> std::io::Result<usize> {
                let r = called("write", bytes(b, style), result("n", b.len() as i64));
                match r.at("k").str() {
                    "n" => Ok((r.at("n").num() as usize).min(b.len())),
                    _ => Err(io_error(&r)),
                }
            }
            fn flush(&mut self) -> std::io::Result<()> {
                io_result(&called("flush", J::Arr(vec![]), result("ok", 0)))
            }
            $(fn $all(&mut self, b: &[u8], style: Style) -> std::io::Result<()> {
                io_result(&called("write_all", bytes(b, style), result("ok", 0)))
            })?
            $(fn $fmt(&mut self, args: stylish::Arguments<'_>) -> std::io::Result<()> {
                io_result(&called("write_fmt", content(args), result("ok", 0)))
            })?
        }
    )* };
}
io_spies! {
    I0 () ();
    I1 (write_all) ();
    I2 () (write_fmt);
    I3 (write_all) (write_fmt);
}

/// Displays runs.
struct Runs<'a>(&'a [J]);
impl stylish::Display for Runs<'_> {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        self.0
            .iter()
            .try_for_each(|r| f.with(style::style(&r.arr()[1])).write_str(r.arr()[0].str()))
    }
}

fn one(c: &J) -> (&str, Style) {
    let r = c.at("runs").arr()[0].arr();
    (r[0].str(), style::style(&r[1]))
}

fn fmt_call<W: stylish::Write + ?Sized>(w: &mut W, c: &J, how: i64) -> J {
    let r = match c.at("m").str() {
        "write_str" => {
            let (t, s) = one(c);
            w.write_str(t, s)
        }
        "write_char" => {
            let (t, s) = one(c);
            w.write_char(t.chars().next().unwrap(), s)
        }
        _ => {
            let runs = Runs(c.at("runs").arr());
            match how {
                0 => w.write_fmt(stylish::format_args!("{:s}", runs)),
                _ => stylish::write!(w, "{runs:s}"),
            }
        }
    };
    result(if r.is_ok() { "ok" } else { "err" }, 0)
}
fn by_value(mut w: impl stylish::Write, c: &J, how: i64) -> J {
    fmt_call(&mut w, c, how)
}
fn fmt_route<W: stylish::Write>(mut w: W, route: i64, c: &J, how: i64) -> J {
    match route {
        0 => fmt_call(&mut w, c, how),
        1 => fmt_call(&mut &mut w, c, how),
        2 => fmt_call(&mut &mut &mut w, c, how),
        3 => fmt_call::<dyn stylish::Write>(&mut w, c, how),
        4 => fmt_call(&mut (&mut w as &mut dyn stylish::Write), c, how),
        5 => fmt_call::<dyn stylish::Write>(&mut &mut w, c, how),
        6 => by_value(&mut w, c, how),
        7 => by_value(&mut w as &mut dyn stylish::Write, c, how),
        _ => by_value(w, c, how),
    }
}

fn io_call<W: stylish::io::Write + ?Sized>(w: &mut W, c: &J, how: i64) -> J {
    let r = match c.at("m").str() {
        "write" => {
            let (t, s) = one(c);
            return match w.write(t.as_bytes(), s) {
                Ok(n) => result("n", n as i64),
                Err(e) => told(e),
            };
        }
        "flush" => w.flush(),
        "write_all" => {
            let (t, s) = one(c);
            w.write_all(t.as_bytes(), s)
        }
        _ => {
            let runs = Runs(c.at("runs").arr());
            match how {
                0 => w.write_fmt(stylish::format_args!("{:s}", runs)),
                _ => stylish::write!(w, "{runs:s}"),
            }
        }
    };
    match r {
        Ok(()) => result("ok", 0),
        Err(e) => told(e),
    }
}
fn io_by_value(mut w: impl stylish::io::Write, c: &J, how: i64) -> J {
    io_call(&mut w, c, how)
}
fn io_route<W: stylish::io::Write>(mut w: W, route: i64, c: &J, how: i64) -> J {
    use stylish::io::Write;
    match route {
        0 => io_call(&mut w, c, how),
        1 => io_call(&mut &mut w, c, how),
        2 => io_call(&mut &mut &mut w, c, how),
        3 => io_call::<dyn Write>(&mut w, c, how),
        4 => io_call(&mut (&mut w as &mut dyn Write), c, how),
        5 => io_call::<dyn Write>(&mut &mut w, c, how),
        6 => io_by_value(w.by_ref(), c, how),
        7 => io_by_value(&mut w as &mut dyn Write, c, how),
        8 => io_by_value(w.by_ref().by_ref(), c, how),
        _ => io_by_value(w, c, how),
    }
}

pub fn forward(line: &J) -> J {
    LOG.take();
    SCRIPT.set(line.at("script").arr().to_vec());
    let (c, route, how) = (line.at("call"), line.at("route").num(), line.at("how").num());
    let has = |m: &str| line.at("over").arr().iter().any(|x| x.str() == m);
    let mut res = result("panic", 0);
    let died = crate::session::guarded(|| {
        res = if line.at("kind").str() == "fmt" {
            match (has("write_char"), has("write_fmt")) {
                (false, false) => fmt_route(S0, route, c, how),
                (true, false) => fmt_route(S1, route, c, how),
                (false, true) => fmt_route(S2, route, c, how),
                (true, true) => fmt_route(S3, route, c, how),
            }
        } else {
            match (has("write_all"), has("write_fmt")) {
                (false, false) => io_route(I0, route, c, how),
                (true, false) => io_route(I1, route, c, how),
                (false, true) => io_route(I2, route, c, how),
                (true, true) => io_route(I3, route, c, how),
            }
        }
    });
    line.clone()
        .with("log", J::Arr(LOG.take()))
        .with("res", res)
        .with("msg", died.unwrap_or_default())
}
