//! Sinks that record what the library delivers to them. Everything they learn is kept in thread
//! local state, so that it can be inspected while the library owns (or has lost) the sink.
use std::cell::RefCell;
use stylish::Style;

#[derive(Clone, Default)]
pub struct Chan {
    pub bytes: Vec<u8>,
    pub chunks: Vec<(String, Style)>,
    pub seen_bytes: usize,
    pub seen_chunks: usize,
}

#[derive(Default)]
pub struct Out {
    pub chans: Vec<Chan>,
    pub last_cloned: usize,
    /// Indices of the sink calls that have to fail.
    pub fail_at: Vec<usize>,
    /// From this sink call on everything fails.
    pub dead_at: Option<usize>,
    pub calls: usize,
    /// A call failed since this was last cleared.
    pub failed: bool,
    /// Tells the sinks of one session from those of another one.
    pub owner: usize,
    /// Whose error a byte writer's last failure was, as its caller heard it.
    pub heard: Option<&'static str>,
}

/// What sinks fail with.
#[derive(Debug)]
pub struct Scripted {
    owner: usize,
}
impl std::fmt::Display for Scripted {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("scripted")
    }
}
impl std::error::Error for Scripted {}

/// Looks at an error that was returned by a byte writer.
pub fn hear<T>(r: std::io::Result<T>) -> std::io::Result<T> {
    if let Err(e) = &r {
        let by = e.get_ref().and_then(|e| e.downcast_ref::<Scripted>()).map(|s| s.owner);
        with(|o| {
            o.heard = Some(match by {
                Some(n) if n == o.owner => "own",
                Some(_) => "foreign",
                None => "none",
            })
        });
    }
    r
}

thread_local!(pub static OUT: RefCell<Out> = RefCell::default());

pub fn reset() {
    OUT.with(|o| *o.borrow_mut() = Out::default());
}
pub fn with<T>(f: impl FnOnce(&mut Out) -> T) -> T {
    OUT.with(|o| f(&mut o.borrow_mut()))
}

impl Out {
    fn call(&mut self) -> bool {
        let n = self.calls;
        self.calls += 1;
        if self.calls > 12_000_000 {
            panic!("runaway number of sink calls");
        }
        let fail = self.fail_at.contains(&n) || self.dead_at.map_or(false, |d| n >= d);
        self.failed |= fail;
        fail
    }
    fn new_chan(&mut self) -> usize {
        self.chans.push(Chan::default());
        self.chans.len() - 1
    }
    fn clone_chan(&mut self, from: usize) -> usize {
        let c = self.chans[from].clone();
        self.chans.push(c);
        self.last_cloned = self.chans.len() - 1;
        self.last_cloned
    }
}

macro_rules! sink {
    ($name:ident) => {
        #[derive(Debug)]
        pub struct $name(pub usize);
        impl $name {
            pub fn new() -> Self {
                $name(with(|o| o.new_chan()))
            }
        }
        impl Default for $name {
            fn default() -> Self {
                Self::new()
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                $name(with(|o| o.clone_chan(self.0)))
            }
        }
    };
}

sink!(StrSink);
sink!(ByteSink);
sink!(Recorder);

impl std::fmt::Write for StrSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        crate::session::weave::sink_point();
        with(|o| {
            if o.call() {
                return Err(std::fmt::Error);
            }
            o.chans[self.0].bytes.extend_from_slice(s.as_bytes());
            Ok(())
        })
    }
}

impl std::io::Write for ByteSink {
    fn write(&mut self, s: &[u8]) -> std::io::Result<usize> {
        crate::session::weave::sink_point();
        with(|o| {
            if o.call() {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, Scripted { owner: o.owner }));
            }
            o.chans[self.0].bytes.extend_from_slice(s);
            Ok(s.len())
        })
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl stylish::Write for Recorder {
    fn write_str(&mut self, s: &str, style: Style) -> stylish::Result {
        crate::session::weave::sink_point();
        with(|o| {
            if o.call() {
                return Err(stylish::Error);
            }
            o.chans[self.0].chunks.push((s.to_owned(), style));
            Ok(())
        })
    }
}
