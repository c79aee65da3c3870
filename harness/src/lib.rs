#[cfg(all(feature = "std", feature = "macros", feature = "ansi", feature = "html", feature = "plain"))]
pub mod entry;
#[cfg(feature = "cases")]
pub mod fmtcase;
#[cfg(all(feature = "std", feature = "macros"))]
pub mod forward;
#[cfg(feature = "std")]
pub mod io;
pub mod json;
pub mod kinds;
pub mod lex;
pub mod matrix;
pub mod places;
pub mod session;
pub mod sinks;
pub mod style;

/// The driver's own thread locals exist from now on.
pub(crate) fn touch() {
    session::touch();
    #[cfg(feature = "std")]
    io::touch();
    #[cfg(all(feature = "std", feature = "macros"))]
    forward::touch();
}
