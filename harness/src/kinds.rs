//! What may go to other threads, and what may be used from several: asked of the compiler, for every public type.
use crate::json::{obj, J};
use core::marker::PhantomData;

struct Of<T: ?Sized>(PhantomData<T>);
struct SyncOf<T: ?Sized>(PhantomData<T>);
trait Not {
    const YES: bool = false;
}
impl<T: ?Sized> Not for Of<T> {}
impl<T: ?Sized> Not for SyncOf<T> {}
#[allow(dead_code)]
impl<T: ?Sized + Send> Of<T> {
    const YES: bool = true;
}
#[allow(dead_code)]
impl<T: ?Sized + Sync> SyncOf<T> {
    const YES: bool = true;
}

/// Sinks that may be sent and shared, only sent, or neither.
#[derive(Default)]
struct Sink<M>(#[allow(dead_code)] M);
impl<M> core::fmt::Write for Sink<M> {
    fn write_str(&mut self, _: &str) -> core::fmt::Result {
        Ok(())
    }
}
#[cfg(feature = "std")]
impl<M> std::io::Write for Sink<M> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
type Free = Sink<()>;
type Sent = Sink<core::cell::Cell<u8>>;
type Stuck = Sink<std::rc::Rc<()>>;

pub fn kinds(line: &J) -> J {
    let mut ev = Vec::new();
    macro_rules! ask {
        ($($name:literal $sink:literal $t:ty;)*) => {$(
            ev.push(obj([("t", $name.into()), ("sink", $sink.into()),
                ("send", <Of<$t>>::YES.into()), ("sync", <SyncOf<$t>>::YES.into())]));
        )*};
        (@writer $($name:literal $($w:ident)::+;)*) => {$(
            ask! { $name "free" $($w)::+<Free>; $name "sent" $($w)::+<Sent>; $name "stuck" $($w)::+<Stuck>; }
        )*};
    }
    ask! {
        "Style" "" stylish::Style;
        "StyleDiff" "" stylish::StyleDiff;
        "Color" "" stylish::Color;
        "Intensity" "" stylish::Intensity;
        "Foreground" "" stylish::Foreground;
        "Background" "" stylish::Background;
    }
    #[cfg(feature = "alloc")]
    ask! { "String" "" stylish::String; }
    #[cfg(feature = "ansi")]
    ask! { @writer "Ansi" stylish::Ansi; }
    #[cfg(feature = "html")]
    ask! { @writer "Html" stylish::Html; }
    #[cfg(feature = "plain")]
    ask! { @writer "Plain" stylish::Plain; }
    #[cfg(all(feature = "std", feature = "ansi"))]
    ask! { @writer "io::Ansi" stylish::io::Ansi; }
    #[cfg(all(feature = "std", feature = "plain"))]
    ask! { @writer "io::Plain" stylish::io::Plain; }
    obj([("id", line.at("id").clone()), ("be", "".into()), ("ev", J::Arr(ev))])
}
