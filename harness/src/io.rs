//! Byte-sink writers over sinks with scripted results. Records every call of the caller and every
//! call of the sink, in order. No expectations in here.
use crate::{
    json::{obj, J},
    session::guarded,
    style,
};
use std::{cell::RefCell, io, io::ErrorKind};
use stylish::Style;

#[derive(Default)]
struct World {
    script: Vec<J>,
    flushes: Vec<J>,
    pos: usize,
    fpos: usize,
    got: Vec<u8>,
    ev: Vec<J>,
    calls: usize,
}
thread_local!(static W: RefCell<World> = RefCell::default());
pub(crate) fn touch() {
    W.with(|_| ());
}
fn world<T>(f: impl FnOnce(&mut World) -> T) -> T {
    W.with(|w| f(&mut w.borrow_mut()))
}
fn log(j: J) {
    world(|w| w.ev.push(j));
}

/// Bytes as characters of the same number; escape characters as '~' (which texts don't contain).
fn latin(b: &[u8]) -> J {
    J::Str(b.iter().map(|&b| if b == 0x1b { '~' } else { b as char }).collect())
}

#[derive(Debug)]
struct Payload(i64);
impl std::fmt::Display for Payload {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "scripted error {}", self.0)
    }
}
impl std::error::Error for Payload {}

fn kind(name: &str) -> ErrorKind {
    macro_rules! kinds {
        ($($k:ident)*) => {
            match name {
                $(stringify!($k) => ErrorKind::$k,)*
                k => panic!("harness: kind {k}"),
            }
        };
    }
    kinds!(
        AddrInUse
        AddrNotAvailable
        AlreadyExists
        ArgumentListTooLong
        BrokenPipe
        ConnectionAborted
        ConnectionRefused
        ConnectionReset
        CrossesDevices
        Deadlock
        DirectoryNotEmpty
        ExecutableFileBusy
        FileTooLarge
        HostUnreachable
        InvalidData
        InvalidFilename
        InvalidInput
        IsADirectory
        NetworkDown
        NetworkUnreachable
        NotADirectory
        NotConnected
        NotFound
        NotSeekable
        OutOfMemory
        Other
        PermissionDenied
        QuotaExceeded
        ReadOnlyFilesystem
        ResourceBusy
        StaleNetworkFileHandle
        StorageFull
        TimedOut
        TooManyLinks
        UnexpectedEof
        Unsupported
        WouldBlock
        WriteZero
        Interrupted
    )
}
/// ["err", kind, id] with a payload, ["kind", kind] without, ["os", code]
fn error(a: &J) -> Option<io::Error> {
    let a = match a {
        J::Arr(a) => a,
        _ => return None,
    };
    let num = |j: &J| match j {
        J::Str(s) => s.parse().unwrap(),
        j => j.num(),
    };
    Some(match a[0].str() {
        "err" => io::Error::new(kind(a[1].str()), Payload(num(&a[2]))),
        "kind" => kind(a[1].str()).into(),
        "os" => io::Error::from_raw_os_error(num(&a[1]) as i32),
        _ => return None,
    })
}
/// What identifies an error.
fn describe(e: &io::Error) -> (J, J) {
    let id = if let Some(p) = e.get_ref().and_then(|p| p.downcast_ref::<Payload>()) {
        p.0
    } else if let Some(c) = e.raw_os_error() {
        -i64::from(c)
    } else {
        0
    };
    (J::Str(format!("{:?}", e.kind())), J::Num(id))
}

fn sink_write(buf: &[u8], s: Option<Style>) -> io::Result<usize> {
    let r = world(|w| {
        w.calls += 1;
        if w.calls > 200_000 {
            panic!("runaway number of sink calls");
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let act = w.script.get(w.pos).cloned().unwrap_or(J::Str("full".into()));
        w.pos += 1;
        if let Some(e) = error(&act) {
            return Err(e);
        }
        let act = match &act {
            J::Arr(a) => a[0].clone(),
            a => a.clone(),
        };
        let n = match &act {
            J::Str(k) if k == "one" => 1,
            J::Str(k) if k == "full" => buf.len(),
            J::Str(k) if k == "zero" => 0,
            // all but one
            J::Str(k) if k == "most" => (buf.len() - 1).max(1),
            J::Str(k) if k == "half" => (buf.len() / 2).max(1),
            J::Num(n) => buf.len().min((*n).max(1) as usize),
            a => panic!("harness: script {a:?}"),
        };
        w.got.extend_from_slice(&buf[..n]);
        Ok(n)
    });
    let (n, (k, id)) = match &r {
        Ok(n) => (J::Num(*n as i64), ("".into(), J::Num(0))),
        Err(e) => (J::Num(-1), describe(e)),
    };
    let e = obj([("o", "sink".into()), ("off", latin(buf)), ("n", n), ("kind", k), ("id", id)]);
    log(match s {
        Some(s) => e.with("s", style::style_json(s)),
        None => e,
    });
    r
}
fn sink_flush() -> io::Result<()> {
    let act = world(|w| {
        w.fpos += 1;
        w.flushes.get(w.fpos - 1).cloned().unwrap_or(J::Str("ok".into()))
    });
    let r = error(&act).map_or(Ok(()), Err);
    let (k, id) = r.as_ref().err().map_or(("".into(), J::Num(0)), describe);
    log(obj([("o", "sinkflush".into()), ("kind", k), ("id", id)]));
    r
}

#[derive(Debug)]
pub struct Sink(());
impl io::Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        sink_write(buf, None)
    }
    fn flush(&mut self) -> io::Result<()> {
        sink_flush()
    }
}
/// A writer of the caller's own, for the provided methods of the trait.
#[derive(Debug)]
pub struct User(());
impl stylish::io::Write for User {
    fn write(&mut self, buf: &[u8], s: Style) -> io::Result<usize> {
        sink_write(buf, Some(s))
    }
    fn flush(&mut self) -> io::Result<()> {
        sink_flush()
    }
}

trait Io: stylish::io::Write + Sized {
    fn end(self) -> io::Result<()>;
}
#[cfg(feature = "ansi")]
impl Io for stylish::io::Ansi<Sink> {
    fn end(self) -> io::Result<()> {
        self.finish().map(|_| ())
    }
}
#[cfg(feature = "plain")]
impl Io for stylish::io::Plain<Sink> {
    fn end(self) -> io::Result<()> {
        self.into_inner();
        Ok(())
    }
}
impl Io for User {
    fn end(self) -> io::Result<()> {
        Ok(())
    }
}

fn call(i: usize, c: &str, t: &str, s: Style, refs: Option<&[(Vec<u8>, bool)]>) {
    let e = obj([
        ("o", "call".into()),
        ("op", J::Num(i as i64)),
        ("c", c.into()),
        ("t", latin(t.as_bytes())),
        ("s", style::style_json(s)),
    ]);
    log(match refs.and_then(|r| r.get(i)) {
        Some((b, ok)) => e.with("ref", latin(b)).with("fails", !ok),
        None => e.with("ref", "").with("fails", false),
    });
}
fn ret<T: Copy + TryInto<i64>>(r: &io::Result<T>) {
    let (n, (k, id)) = match r {
        Ok(n) => ((*n).try_into().unwrap_or(-2), ("".into(), J::Num(0))),
        Err(e) => (-1, describe(e)),
    };
    log(obj([("o", "ret".into()), ("n", n.into()), ("kind", k), ("id", id)]));
}

fn drive<I: Io>(mut w: I, ops: &[J], refs: Option<&[(Vec<u8>, bool)]>) -> Vec<(Vec<u8>, bool)> {
    let mut per_op = Vec::new();
    for (i, op) in ops.iter().enumerate() {
        let via = op.get("via").map_or(0, |v| v.num());
        let before = world(|w| w.got.len());
        let s = op.get("s").map_or(Style::default(), style::style);
        let t = op.get("t").map_or("", |t| t.str());
        let ok = match op.at("o").str() {
            "all" => {
                call(i, "all", t, s, refs);
                let r = match via {
                    0 => w.write_all(t.as_bytes(), s),
                    1 => w.by_ref().write_all(t.as_bytes(), s),
                    2 => {
                        let d: &mut dyn stylish::io::Write = &mut w;
                        d.write_all(t.as_bytes(), s)
                    }
                    _ => stylish::io::Write::write_all(&mut &mut w, t.as_bytes(), s),
                };
                ret(&r.as_ref().map(|()| 0i64).map_err(clone_err));
                r.is_ok()
            }
            // the caller's own loop, repeating the call with the same arguments when it fails
            "wr" => {
                let mut rest = t.as_bytes();
                let mut tries = 0;
                loop {
                    let e = std::mem::take(&mut tries);
                    call(i, "write", "", s, refs);
                    world(|w| {
                        let last = w.ev.len() - 1;
                        w.ev[last] = w.ev[last].clone().with("t", latin(rest));
                    });
                    let r = match via {
                        0 => w.write(rest, s),
                        1 => w.by_ref().write(rest, s),
                        2 => {
                            let d: &mut dyn stylish::io::Write = &mut w;
                            d.write(rest, s)
                        }
                        _ => stylish::io::Write::write(&mut &mut w, rest, s),
                    };
                    ret(&r.as_ref().map(|n| *n as i64).map_err(clone_err));
                    let n = r.unwrap_or(0);
                    rest = &rest[n.min(rest.len())..];
                    tries = if n == 0 { e + 1 } else { 0 };
                    if rest.is_empty() || tries > 60 || (n > 0 && op.get("once").is_some()) {
                        break;
                    }
                }
                true
            }
            #[cfg(feature = "macros")]
            "fmt" => {
                let n = crate::session::nested::Node { open: None, ops: op.at("b").arr() };
                call(i, "fmt", "", s, refs);
                let r = match via {
                    0 => w.write_fmt(stylish::format_args!("{:s}", n)),
                    1 => stylish::write!(w, "{:s}", n),
                    2 => stylish::writeln!(w, "{:s}", n),
                    3 => stylish::io::Write::write_fmt(&mut w.by_ref(), stylish::format_args!("{:s}", n)),
                    4 => {
                        let d: &mut dyn stylish::io::Write = &mut w;
                        stylish::write!(d, "{:s}", n)
                    }
                    _ => {
                        let d: &mut dyn stylish::io::Write = &mut &mut w;
                        stylish::writeln!(d, "{n:s}")
                    }
                };
                ret(&r.as_ref().map(|()| 0i64).map_err(clone_err));
                r.is_ok()
            }
            "flush" => {
                call(i, "flush", "", s, refs);
                let r = match via {
                    0 => w.flush(),
                    1 => w.by_ref().flush(),
                    2 => {
                        let d: &mut dyn stylish::io::Write = &mut w;
                        d.flush()
                    }
                    _ => stylish::io::Write::flush(&mut &mut w),
                };
                ret(&r.as_ref().map(|()| 0i64).map_err(clone_err));
                true
            }
            "finish" => {
                call(i, "finish", "", s, refs);
                let r = w.end();
                ret(&r.as_ref().map(|()| 0i64).map_err(clone_err));
                per_op.push((world(|w| w.got[before..].to_vec()), r.is_ok()));
                return per_op;
            }
            o => panic!("harness: io op {o}"),
        };
        per_op.push((world(|w| w.got[before..].to_vec()), ok));
        if !ok {
            break;
        }
    }
    per_op
}

/// Keeps what describe() looks at.
fn clone_err(e: &io::Error) -> io::Error {
    if let Some(p) = e.get_ref().and_then(|p| p.downcast_ref::<Payload>()) {
        io::Error::new(e.kind(), Payload(p.0))
    } else if let Some(c) = e.raw_os_error() {
        io::Error::from_raw_os_error(c)
    } else {
        e.kind().into()
    }
}

fn once(be: &str, ops: &[J], script: &[J], flushes: &[J], refs: Option<&[(Vec<u8>, bool)]>) -> (Vec<J>, Vec<(Vec<u8>, bool)>) {
    W.with(|w| {
        *w.borrow_mut() = World {
            script: script.to_vec(),
            flushes: flushes.to_vec(),
            ..World::default()
        }
    });
    crate::sinks::reset();
    crate::session::clear();
    let mut per_op = Vec::new();
    let p = guarded(|| {
        per_op = match be {
            #[cfg(feature = "ansi")]
            "ioansi" => drive(stylish::io::ansi(Sink(())), ops, refs),
            #[cfg(feature = "plain")]
            "ioplain" => drive(stylish::io::plain(Sink(())), ops, refs),
            "iouser" => drive(User(()), ops, refs),
            be => panic!("harness: backend {be}"),
        }
    });
    // the sink may be in the middle of being used
    let mut ev = W.with(|w| std::mem::take(&mut w.borrow_mut().ev));
    if let Some(m) = p {
        ev.push(obj([("o", "panic".into()), ("msg", m.into())]));
    }
    (ev, per_op)
}

pub fn io(line: &J) -> J {
    let be = line.at("be").str();
    let ops = line.at("ops").arr();
    let list = |k: &str| line.get(k).map_or(vec![], |l| l.arr().to_vec());
    let (_, refs) = once(be, ops, &[], &[], None);
    let (ev, _) = once(be, ops, &list("script"), &list("flush"), Some(&refs));
    obj([("id", line.at("id").clone()), ("be", be.into()), ("ev", J::Arr(ev))])
}
