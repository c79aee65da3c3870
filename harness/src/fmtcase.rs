//! Running generated format macro invocations. The arguments are probes, which record that they
//! were evaluated and how they were asked to be shown. No expectations in here.
use crate::{
    json::{obj, J},
    session::{self, emit_event},
    sinks::{self, ByteSink, Recorder, StrSink},
    style,
};
use std::{
    alloc::{GlobalAlloc, Layout, System},
    fmt,
    sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed},
};
use stylish::{Formatter, Style};

/// Counts allocations.
struct Counting;
static COUNT: AtomicUsize = AtomicUsize::new(0);
/// Nothing is recorded, so that all that happens is the library's doing.
static QUIET: AtomicBool = AtomicBool::new(false);
fn quietly() -> bool {
    QUIET.load(Relaxed)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        COUNT.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        COUNT.fetch_add(1, Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;

/// A writer of the user's that needs no memory.
struct Sum(usize);
impl stylish::Write for Sum {
    fn write_str(&mut self, s: &str, _: Style) -> stylish::Result {
        self.0 += s.len();
        Ok(())
    }
}

/// The same for text and for bytes.
impl fmt::Write for Sum {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
impl std::io::Write for Sum {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        // (not everything at once)
        let n = b.len().min(7);
        self.0 += n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Displays a value in other ways, too.
struct Over<'a>(&'a In<'a>, &'a stylish::String);
impl stylish::Display for Over<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        use stylish::{Background, Color, Foreground, Intensity, Write as _};
        fmt::Write::write_char(f, 'é')?;
        fmt::Write::write_char(f, '&')?;
        f.write_str("<\"&'>\x1b[1mé\u{1f980}\n")?;
        fmt::Write::write_fmt(f, format_args!("{:>5}{:?}", 1, "x"))?;
        f.write_char('c', Style::default())?;
        (&mut &mut *f).write_fmt(stylish::format_args!("{:(bold)s}{0:(fg=red,faint)s}", self.0))?;
        let mut g = f.with((Foreground(Color::Red), Some(Background(Color::Blue)), &[Intensity::Bold][..]));
        g.write_str("with")?;
        self.1.fmt(&mut g)?;
        self.0.fmt(&mut g)?;
        stylish::write!(f, "{:>5(bold)s}{}", &self.1, 'x')?;
        (&&self.0).fmt(&mut f.with(&Intensity::Faint))
    }
}

fn over(w: &mut dyn stylish::Write, v: &Over<'_>) -> bool {
    w.write_fmt(stylish::format_args!("{:>+5(bold)}{:s}", 1, v)).is_ok()
}

/// The same through the library's writers.
fn written(v: &Over<'_>) -> bool {
    use stylish::{io::Write as _, Write as _};
    let style = stylish::Style::default().with(stylish::Foreground(stylish::Color::Green));
    let mut ansi = stylish::ansi(Sum(0));
    let mut html = stylish::html(Sum(0));
    let mut plain = stylish::plain(Sum(0));
    let mut ioansi = stylish::io::ansi(Sum(0));
    let mut ioplain = stylish::io::plain(Sum(0));
    over(&mut ansi, v)
        && over(&mut html, v)
        && over(&mut plain, v)
        && ansi.write_char('<', style).is_ok()
        && html.write_char('<', style).is_ok()
        && plain.write_char('<', style).is_ok()
        && ioansi.write_fmt(stylish::format_args!("{:>+5(bold)}{:s}", 1, v)).is_ok()
        && ioplain.write_fmt(stylish::format_args!("{:>+5(bold)}{:s}", 1, v)).is_ok()
        && ioansi.write_all("<é".as_bytes(), style).is_ok()
        && ioplain.write_all("<é".as_bytes(), style).is_ok()
        && matches!(ioansi.write(b"x", Style::default()), Ok(1))
        && ioansi.flush().is_ok()
        && ioplain.flush().is_ok()
        && ansi.finish().is_ok()
        && html.finish().is_ok()
        && ioansi.finish().is_ok()
}

/// How often displaying the value allocates.
fn allocations(v: &In<'_>) -> i64 {
    QUIET.store(true, Relaxed);
    // (what it takes to make a string is not counted)
    let mut string = stylish::String::new();
    let made = show(&mut string, v) && stylish::Write::write_fmt(&mut string, stylish::format_args!("a{:(fg=red)}{}", "<b", 'é')).is_ok();
    let over_v = Over(v, &string);
    let mut sum = Sum(0);
    let before = COUNT.load(Relaxed);
    let ok = made && show(&mut sum, v) && show(&mut &mut sum, v) && over(&mut sum, &over_v) && written(&over_v);
    let n = COUNT.load(Relaxed) - before;
    QUIET.store(false, Relaxed);
    // (what is displayed is not the matter here)
    if ok { n as i64 } else { -1 }
}

/// Shows itself by recording the request.
#[derive(Clone, Copy)]
pub struct Probe(pub &'static str);

/// An argument expression is being evaluated.
pub fn ev(name: &'static str) -> Probe {
    if !quietly() {
        emit_event(obj([("o", "eval".into()), ("a", name.into())]));
    }
    Probe(name)
}
pub fn var(name: &'static str) -> Probe {
    Probe(name)
}
pub fn res(p: Probe) -> Result<Probe, stylish::Error> {
    Ok(p)
}
#[macro_export]
macro_rules! ident {
    ($e:expr) => {
        $e
    };
}
pub struct Holder {
    pub p: Probe,
}
impl Probe {
    pub fn me(self) -> Self {
        self
    }
    pub fn opt(self) -> Option<Self> {
        Some(self)
    }
}

macro_rules! ops {
    ($($t:ident $f:ident),*) => { $(impl std::ops::$t<i32> for Probe {
        type Output = Probe;
        fn $f(self, _: i32) -> Probe {
            self
        }
    })* };
}
ops!(Add add, Sub sub, Mul mul, Div div, Rem rem, BitAnd bitand, BitOr bitor, BitXor bitxor, Shl shl, Shr shr);
impl std::ops::Neg for Probe {
    type Output = Probe;
    fn neg(self) -> Probe {
        self
    }
}
impl std::ops::Not for Probe {
    type Output = Probe;
    fn not(self) -> Probe {
        self
    }
}
impl std::ops::Deref for Holder {
    type Target = Probe;
    fn deref(&self) -> &Probe {
        &self.p
    }
}

fn call(name: &str, tr: &str, p: impl FnOnce() -> J) {
    if !quietly() {
        emit_event(obj([("o", "call".into()), ("a", name.into()), ("trait", tr.into()), ("p", p())]));
    }
}

fn params(f: &fmt::Formatter<'_>) -> J {
    let n = |n: Option<usize>| J::Num(n.map_or(-1, |n| n as i64));
    let align = match f.align() {
        None => "",
        Some(fmt::Alignment::Left) => "<",
        Some(fmt::Alignment::Center) => "^",
        Some(fmt::Alignment::Right) => ">",
    };
    obj([
        ("fill", f.fill().to_string().into()),
        ("align", align.into()),
        ("sign", if f.sign_plus() { "+" } else if f.sign_minus() { "-" } else { "" }.into()),
        ("alt", f.alternate().into()),
        ("zero", f.sign_aware_zero_pad().into()),
        ("width", n(f.width())),
        ("prec", n(f.precision())),
    ])
}

macro_rules! probe {
    ($($t:ident)*) => { $(impl fmt::$t for Probe {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            call(self.0, stringify!($t), || params(f));
            f.write_str(self.0)?;
            f.pad_integral(true, "0t", "42")
        }
    })* };
}
probe!(Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp);
impl fmt::Display for Probe {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        call(self.0, "Display", || params(f));
        f.pad(self.0)
    }
}
impl fmt::Debug for Probe {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        call(self.0, "Debug", || params(f));
        f.write_str(self.0)?;
        fmt::Debug::fmt(&171u8, f)
    }
}
impl stylish::Display for Probe {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        call(self.0, "Stylish", || obj([]));
        f.write_str(self.0)?;
        f.write_fmt(stylish::format_args!("{}", *self))?;
        f.write_str("/")
    }
}

pub type Body<'a> = &'a dyn Fn(&mut Formatter<'_>) -> stylish::Result;

/// Displays an invocation in a scope with the style.
struct In<'a>(Style, Body<'a>);
impl stylish::Display for In<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        self.1(&mut f.with(self.0))
    }
}

fn show(w: &mut dyn stylish::Write, v: &In<'_>) -> bool {
    w.write_fmt(stylish::format_args!("{:s}", v)).is_ok()
}

/// One invocation: backend, style of the scope it is in.
pub fn run(id: &str, be: &str, base: usize, body: Body<'_>) {
    QUIET.store(false, Relaxed);
    sinks::reset();
    session::clear();
    let base = style::all_styles()[base];
    let v = In(base, body);
    let panic = session::guarded(|| {
        session::view(0, be);
        let ok = match be {
            "rec" => show(&mut Recorder::new(), &v),
            "ansi" => show(&mut stylish::ansi(StrSink::new()), &v),
            "html" => show(&mut stylish::html(StrSink::new()), &v),
            "plain" => show(&mut stylish::plain(StrSink::new()), &v),
            "ioansi" => {
                stylish::io::Write::write_fmt(&mut stylish::io::ansi(ByteSink::new()), stylish::format_args!("{:s}", v)).is_ok()
            }
            b => panic!("harness: backend {b}"),
        };
        let n = if be == "rec" { allocations(&v) } else { -1 };
        emit_event(obj([("o", "end".into()), ("res", if ok { "ok" } else { "err" }.into()), ("allocs", J::Num(n))]));
    });
    if let Some(m) = panic {
        emit_event(obj([("o", "panic".into()), ("msg", m.into())]));
    }
    println!("{}", obj([("id", id.into()), ("be", be.into()), ("base", style::style_json(base)), ("ev", session::events())]));
}

/// The text of an invocation and that of the standard library's for the same.
pub fn parity(id: &str, be: &str, std: &dyn Fn() -> String, body: Body<'_>) {
    sinks::reset();
    session::clear();
    let v = In(Style::default(), body);
    let mut e = obj([("o", "parity".into()), ("std", std().into())]);
    let mut got = String::new();
    let panic = session::guarded(|| {
        let mut w = stylish::plain(&mut got);
        e = e.clone().with("ok", show(&mut w, &v));
    });
    let ev = match panic {
        Some(m) => obj([("o", "panic".into()), ("msg", m.into())]),
        None => e.with("got", got),
    };
    println!("{}", obj([("id", id.into()), ("be", be.into()), ("ev", J::Arr(vec![ev]))]));
}

pub fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}
