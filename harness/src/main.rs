use std::io::{BufRead, BufWriter, Write};
use sv::json::J;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let per_line: fn(&J) -> J = match cmd.as_str() {
        "matrix" => return matrix(),
        "session" => sv::session::session,
        "kinds" => sv::kinds::kinds,
        "weave" => sv::session::weave::weave,
        #[cfg(feature = "std")]
        "io" => sv::io::io,
        #[cfg(all(feature = "std", feature = "macros", feature = "ansi", feature = "html", feature = "plain"))]
        "entry" => sv::entry::entry,
        #[cfg(all(feature = "std", feature = "macros"))]
        "forward" => sv::forward::forward,
        "restyle" => sv::matrix::restyle,
        c => panic!("harness: command {c}"),
    };
    let lines: Vec<J> = std::io::stdin().lock().lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).map(|l| J::parse(&l)).collect();
    let first: Vec<J> = lines.iter().take(3).cloned().collect();
    let run = move || {
        let mut out = std::io::stdout().lock();
        for line in lines {
            writeln!(out, "{}", per_line(&line)).unwrap();
            // what was recorded has to survive a crash
            out.flush().unwrap();
        }
    };
    sv::places::somewhere(move || first.iter().for_each(|l| drop(per_line(l))), run);
}

fn matrix() {
    sv::places::somewhere(|| (), || {
        let what = std::env::args().nth(2).unwrap();
        let mut out = BufWriter::new(std::io::stdout().lock());
        sv::matrix::matrix(&what, &mut |j| writeln!(out, "{j}").unwrap());
    });
}
