//! Where in a program the library is used: SV_WHERE says.
use std::cell::RefCell;

type Job = Box<dyn FnOnce() + Send>;

thread_local!(static LAST: RefCell<Option<Guard>> = const { RefCell::new(None) });

struct Guard(Option<Job>);
impl Drop for Guard {
    fn drop(&mut self) {
        (self.0.take().unwrap())()
    }
}

fn in_thread(f: impl FnOnce() + Send + 'static) {
    // (as much room as a main thread has)
    let t = std::thread::Builder::new().name("elsewhere".into()).stack_size(64 << 20);
    if t.spawn(f).unwrap().join().is_err() {
        std::process::exit(101);
    }
}

/// Runs the job; what has been done before it, where that matters, is the warm-up.
pub fn somewhere(warmup: impl FnOnce() + Send + 'static, job: impl FnOnce() + Send + 'static) {
    match std::env::var("SV_WHERE").as_deref() {
        Ok("thread") => in_thread(job),
        // while a panic is under way
        Ok("unwind") => {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _g = Guard(Some(Box::new(job)));
                panic!("on purpose");
            }));
        }
        // when a thread has ended and what belongs to it is being dropped: what the driver needs last,
        // whatever has come with the warm-up first
        Ok("end") => in_thread(|| {
            crate::sinks::reset();
            crate::touch();
            LAST.set(Some(Guard(Some(Box::new(job)))));
            warmup();
        }),
        _ => job(),
    }
}
