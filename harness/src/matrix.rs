//! Exhaustive tables over all pairs of styles. Outcomes (token lists) are interned.
use crate::{
    json::{obj, J},
    lex,
    session::guarded,
    sinks,
    sinks::{ByteSink, StrSink},
    style,
    style::{all_styles, mk_style},
};
use std::collections::HashMap;
use stylish::{Background, Foreground, Restyle, Style, StyleDiff};

trait Wr: Clone {
    fn make() -> Self;
    fn put(&mut self, t: &str, s: Style) -> bool;
    fn end(self) -> bool;
    fn lex(b: &[u8]) -> Vec<J>;
}
macro_rules! wr {
    ($t:ty, $make:expr, $put:expr, $lex:expr) => {
        impl Wr for $t {
            fn make() -> Self {
                $make
            }
            fn put(&mut self, t: &str, s: Style) -> bool {
                let f: fn(&mut Self, &str, Style) -> bool = $put;
                f(self, t, s)
            }
            fn end(self) -> bool {
                self.finish().is_ok()
            }
            fn lex(b: &[u8]) -> Vec<J> {
                $lex(b)
            }
        }
    };
}
#[cfg(feature = "ansi")]
wr!(
    stylish::Ansi<StrSink>,
    stylish::ansi(StrSink::new()),
    |w, t, s| stylish::Write::write_str(w, t, s).is_ok(),
    |b| lex::ansi(b, None)
);
#[cfg(feature = "html")]
wr!(
    stylish::Html<StrSink>,
    stylish::html(StrSink::new()),
    |w, t, s| stylish::Write::write_str(w, t, s).is_ok(),
    |b| lex::html(b)
);
#[cfg(all(feature = "std", feature = "ansi"))]
wr!(
    stylish::io::Ansi<ByteSink>,
    stylish::io::ansi(ByteSink::new()),
    |w, t, s| stylish::io::Write::write_all(w, t.as_bytes(), s).is_ok(),
    |b| lex::ansi(b, None)
);

#[derive(Default)]
struct Intern(HashMap<Vec<u8>, usize>, Vec<J>);
impl Intern {
    fn get<W: Wr>(&mut self, ok: bool, bytes: &[u8]) -> i64 {
        let mut key = bytes.to_vec();
        key.push(ok as u8);
        if let Some(&i) = self.0.get(&key) {
            return i as i64;
        }
        let mut toks = W::lex(bytes);
        if !ok {
            toks.push(obj([("k", "bad".into()), ("t", "error".into())]));
        }
        self.1.push(J::Arr(toks));
        self.0.insert(key, self.1.len());
        self.1.len() as i64
    }
}

fn transitions<W: Wr>(be: &str, out: &mut dyn FnMut(J)) {
    let all = all_styles();
    let mut tab = Intern::default();
    let mut rows = Vec::new();
    let bytes = || sinks::with(|o| o.chans.last().unwrap().bytes.clone());
    for (n, &a) in all.iter().enumerate() {
        sinks::reset();
        let mut w = W::make();
        let ok = w.put("x", a);
        let before = bytes();
        let first = tab.get::<W>(ok, &before);
        let mut row = Vec::new();
        for &b in &all {
            let mut v = w.clone();
            let ok = v.put("x", b);
            row.push(J::Num(tab.get::<W>(ok, &bytes()[before.len()..])));
            sinks::with(|o| o.chans.pop());
        }
        let v = w.clone();
        let ok = v.end();
        let fin = tab.get::<W>(ok, &bytes()[before.len()..]);
        rows.push(obj([
            ("kind", "row".into()),
            ("n", n.into()),
            ("first", first.into()),
            ("fin", fin.into()),
            ("row", J::Arr(row)),
        ]));
    }
    out(obj([("kind", "table".into()), ("be", be.into()), ("table", J::Arr(tab.1))]));
    rows.into_iter().for_each(out);
}

fn number(s: Style) -> i64 {
    all_styles().iter().position(|&t| t == s).map_or(-1, |n| n as i64)
}

fn diff_code(d: StyleDiff) -> i64 {
    let c = |c: Option<stylish::Color>| {
        c.map_or(0, |c| 1 + style::COLORS.iter().position(|x| x.1 == c).unwrap() as i64)
    };
    let i = d.intensity.map_or(0, |i| {
        1 + style::INTENSITIES.iter().position(|x| x.1 == i).unwrap() as i64
    });
    (c(d.foreground) * 18 + c(d.background)) * 4 + i
}

fn all_diffs() -> Vec<StyleDiff> {
    let mut v = Vec::new();
    let cs: Vec<_> = std::iter::once(None).chain(style::COLORS.iter().map(|c| Some(c.1))).collect();
    for &f in &cs {
        for &b in &cs {
            for i in std::iter::once(None).chain(style::INTENSITIES.iter().map(|c| Some(c.1))) {
                let mut d = StyleDiff::default();
                d.foreground = f;
                d.background = b;
                d.intensity = i;
                v.push(d);
            }
        }
    }
    v
}

fn algebra(out: &mut dyn FnMut(J)) {
    let all = all_styles();
    let index: HashMap<String, i64> = all.iter().enumerate().map(|(n, s)| (style::style_json(*s).to_string(), n as i64)).collect();
    let num = |s: Style| index.get(&style::style_json(s).to_string()).copied().unwrap_or(-1);
    let diffs = all_diffs();
    for (n, &a) in all.iter().enumerate() {
        // the difference from a to b, and where it leads from a
        let (mut row, mut to) = (Vec::new(), Vec::new());
        for &b in &all {
            let d = b.diff_from(a);
            row.push(J::Num(diff_code(d)));
            to.push(J::Num(num(a.with(d))));
        }
        // every difference, every single component, a whole style
        let app = diffs.iter().map(|d| J::Num(num(d.apply(a)))).collect();
        let fg = style::COLORS.iter().map(|c| J::Num(num(a.with(Foreground(c.1))))).collect();
        let bg = style::COLORS.iter().map(|c| J::Num(num(a.with(Background(c.1))))).collect();
        let int = style::INTENSITIES.iter().map(|c| J::Num(num(a.with(c.1)))).collect();
        let whole = all.iter().map(|&b| J::Num(num(a.with(b)))).collect();
        out(obj([
            ("kind", "algebra".into()),
            ("n", n.into()),
            ("row", J::Arr(row)),
            ("to", J::Arr(to)),
            ("app", J::Arr(app)),
            ("fg", J::Arr(fg)),
            ("bg", J::Arr(bg)),
            ("int", J::Arr(int)),
            ("whole", J::Arr(whole)),
            ("self", J::Num(number(mk_style(a.foreground, a.background, a.intensity)))),
        ]));
    }
}

/// One restyling tree applied to one style.
pub fn restyle(line: &J) -> J {
    let r = style::restyle(line.at("r"));
    let s = style::style(line.at("s"));
    let mut res = line.clone();
    let mut got = [J::Bool(false), J::Bool(false), J::Bool(false)];
    if guarded(|| {
        got[0] = style::style_json(s.with(&r));
        got[1] = style::style_json(r.apply(s));
        got[2] = style::style_json(s.with(s.with(&r).diff_from(s)));
    })
    .is_some()
    {
        return res.with("o", "panic");
    }
    let [a, b, c] = got;
    res = res.with("with", a).with("apply", b).with("viadiff", c);
    res
}

pub fn matrix(what: &str, out: &mut dyn FnMut(J)) {
    let what_ = what.to_owned();
    let mut lines = Vec::new();
    let r = guarded(|| {
        let out: &mut dyn FnMut(J) = &mut |j| lines.push(j);
        match what_.as_str() {
            #[cfg(feature = "ansi")]
            "ansi" => transitions::<stylish::Ansi<StrSink>>("ansi", out),
            #[cfg(feature = "html")]
            "html" => transitions::<stylish::Html<StrSink>>("html", out),
            #[cfg(all(feature = "std", feature = "ansi"))]
            "ioansi" => transitions::<stylish::io::Ansi<ByteSink>>("ioansi", out),
            "algebra" => algebra(out),
            w => panic!("harness: matrix {w}"),
        }
    });
    lines.into_iter().for_each(&mut *out);
    if let Some(m) = r {
        out(obj([("kind", "panic".into()), ("msg", m.into())]));
    }
}
