//! Conversions between JSON and the library's style vocabulary.
use crate::json::J;
use stylish::{Background, Color, Foreground, Intensity, Restyle, Style, StyleDiff};

pub const COLORS: [(&str, Color); 17] = [
    ("default", Color::Default),
    ("black", Color::Black),
    ("red", Color::Red),
    ("green", Color::Green),
    ("yellow", Color::Yellow),
    ("blue", Color::Blue),
    ("magenta", Color::Magenta),
    ("cyan", Color::Cyan),
    ("white", Color::White),
    ("brightblack", Color::BrightBlack),
    ("brightred", Color::BrightRed),
    ("brightgreen", Color::BrightGreen),
    ("brightyellow", Color::BrightYellow),
    ("brightblue", Color::BrightBlue),
    ("brightmagenta", Color::BrightMagenta),
    ("brightcyan", Color::BrightCyan),
    ("brightwhite", Color::BrightWhite),
];
pub const INTENSITIES: [(&str, Intensity); 3] = [
    ("normal", Intensity::Normal),
    ("bold", Intensity::Bold),
    ("faint", Intensity::Faint),
];

pub fn color(name: &str) -> Color {
    COLORS
        .iter()
        .find(|(n, _)| *n == name)
        .unwrap_or_else(|| panic!("harness: color {name}"))
        .1
}
pub fn color_name(c: Color) -> &'static str {
    COLORS.iter().find(|(_, k)| *k == c).map_or("?", |(n, _)| n)
}
pub fn intensity(name: &str) -> Intensity {
    INTENSITIES
        .iter()
        .find(|(n, _)| *n == name)
        .unwrap_or_else(|| panic!("harness: intensity {name}"))
        .1
}
pub fn intensity_name(i: Intensity) -> &'static str {
    INTENSITIES
        .iter()
        .find(|(_, k)| *k == i)
        .map_or("?", |(n, _)| n)
}

/// Built by field assignment, so that it does not depend on the restyling code.
pub fn mk_style(f: Color, b: Color, i: Intensity) -> Style {
    let mut s = Style::default();
    s.foreground = f;
    s.background = b;
    s.intensity = i;
    s
}
pub fn style(j: &J) -> Style {
    let a = j.arr();
    mk_style(color(a[0].str()), color(a[1].str()), intensity(a[2].str()))
}
pub fn style_json(s: Style) -> J {
    J::Arr(vec![
        color_name(s.foreground).into(),
        color_name(s.background).into(),
        intensity_name(s.intensity).into(),
    ])
}
/// All styles, in the order StyleOf(n) of Styles.tla.
pub fn all_styles() -> Vec<Style> {
    let mut v = Vec::new();
    for (_, f) in COLORS {
        for (_, b) in COLORS {
            for (_, i) in INTENSITIES {
                v.push(mk_style(f, b, i));
            }
        }
    }
    v
}
pub fn diff(j: &J) -> StyleDiff {
    let a = j.arr();
    let mut d = StyleDiff::default();
    if a[0].str() != "none" {
        d.foreground = Some(color(a[0].str()));
    }
    if a[1].str() != "none" {
        d.background = Some(color(a[1].str()));
    }
    if a[2].str() != "none" {
        d.intensity = Some(intensity(a[2].str()));
    }
    d
}
pub fn diff_json(d: StyleDiff) -> J {
    J::Arr(vec![
        d.foreground.map_or("none", color_name).into(),
        d.background.map_or("none", color_name).into(),
        d.intensity.map_or("none", intensity_name).into(),
    ])
}

/// A restyling tree whose nodes are applied through the library's own impls.
#[derive(Clone, Debug)]
pub enum R {
    Fg(Color),
    Bg(Color),
    Int(Intensity),
    Style(Style),
    Diff(StyleDiff),
    Unit,
    None,
    Some(Box<R>),
    Pair(Box<R>, Box<R>),
    Triple(Box<R>, Box<R>, Box<R>),
    Seq(Vec<R>),
    Ref(Box<R>),
    Boxed(Box<R>),
    User(Vec<R>),
    /// The difference from one style to another, computed by the library.
    DiffOf(Style, Style),
}

pub fn restyle(j: &J) -> R {
    let sub = |k: &str| Box::new(restyle(j.at(k)));
    let list = || j.at("rs").arr().iter().map(restyle).collect::<Vec<_>>();
    match j.at("k").str() {
        "fg" => R::Fg(color(j.at("c").str())),
        "bg" => R::Bg(color(j.at("c").str())),
        "int" => R::Int(intensity(j.at("i").str())),
        "style" => R::Style(style(j.at("s"))),
        "diff" => R::Diff(diff(j.at("d"))),
        "unit" => R::Unit,
        "none" => R::None,
        "some" => R::Some(sub("r")),
        "pair" => R::Pair(sub("a"), sub("b")),
        "triple" => R::Triple(sub("a"), sub("b"), sub("c")),
        "seq" => R::Seq(list()),
        "ref" => R::Ref(sub("r")),
        "box" => R::Boxed(sub("r")),
        "user" => R::User(list()),
        "diffof" => R::DiffOf(style(j.at("from")), style(j.at("to"))),
        k => panic!("harness: restyle {k}"),
    }
}

impl Restyle for R {
    fn apply(&self, s: Style) -> Style {
        match self {
            R::Fg(c) => Foreground(*c).apply(s),
            R::Bg(c) => s.with(Background(*c)),
            R::Int(i) => s.with(*i),
            R::Style(t) => t.apply(s),
            R::Diff(d) => s.with(*d),
            R::Unit => s.with(()),
            R::None => s.with(None::<R>),
            R::Some(r) => s.with(Some(&**r)),
            R::Pair(a, b) => s.with((&**a, &**b)),
            R::Triple(a, b, c) => (&**a, &**b, &**c).apply(s),
            R::Seq(v) => s.with(v.as_slice()),
            R::Ref(r) => {
                let d: &dyn Restyle = &**r;
                s.with(&d)
            }
            // the style crate's own feature, which nothing else turns on
            #[cfg(feature = "boxed")]
            R::Boxed(r) => {
                let b: Box<dyn Restyle> = Box::new((**r).clone());
                s.with(b)
            }
            #[cfg(not(feature = "boxed"))]
            R::Boxed(r) => s.with(&**r),
            R::User(v) => v.iter().fold(s, |s, r| s.with(r)),
            R::DiffOf(a, b) => s.with(b.diff_from(*a)),
        }
    }
}
