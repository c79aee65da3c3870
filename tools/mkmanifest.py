#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SESSION = ("TLC model checks the design exhaustively over small alphabets; its behaviours and seeded random histories are replayed "
           "into the real code, and TLC validates every recorded trace against the specification. Trusted: TLC, the harness's "
           "lexers and recording sinks; texts and histories beyond the enumerated and sampled ones are covered only through the "
           "uniformity of the code.")
MATRIX = "All 867x867 style transitions of the real code are checked against the specification, exhaustively. "
FMT = ("TLC evaluates the TLA+ specification of the format string language (parser, argument resolution, standard formatting "
       "model) on every generated invocation; the invocations are compiled with the working tree's macros and run, and what the "
       "compiler and the program did has to agree. Grammar forms are enumerated, longer combinations are seeded samples. "
       "Trusted: TLC, rustc, the generator's rendering of invocations as Rust source.")
IO = ("TLC model checks the byte-sink contract against all schedules of short writes, interruptions and errors up to a bound, emits "
      "the schedules, they are replayed into the real writers through a scripted sink, and TLC validates the recorded calls. "
      "Longer schedules are seeded samples. Trusted: TLC and the scripted sink.")
T_S = "TLA+ model checking with trace validation (TLC) of replayed histories"
T_F = "TLA+ specification of the format language, compiled invocations validated by TLC"
T_I = "TLA+ model checking of sink schedules, replayed and trace-validated (TLC)"

CHECKS = {
    "C01": (T_S, SESSION), "C02": (T_S, MATRIX + SESSION), "C03": (T_S, MATRIX + SESSION), "C04": (T_S, MATRIX + SESSION),
    "C05": ("TLA+ HTML tokenizer reading back recorded output, trace validation (TLC)", SESSION),
    "C06": ("TLA+ style algebra, exhaustive tables and recorded restylings validated by TLC", MATRIX.replace("transitions", "differences") +
            "Restyling trees are seeded samples. Trusted: TLC and the harness's encoding of styles."),
    "C07": (T_S, SESSION), "C08": (T_S, SESSION), "C09": (T_I, IO), "C10": (T_I, IO), "C11": (T_I, IO),
    "C12": (T_F, FMT), "C13": (T_F, FMT), "C14": (T_F, FMT), "C15": (T_F, FMT),
    "C16": ("TLA+ trace validation of all entry points against one meaning (TLC)", SESSION),
    "C17": (T_S, SESSION), "C18": (T_F, FMT), "C19": (T_S, MATRIX + SESSION),
    "C20": ("TLA+ trace validation (TLC) of the same histories under every feature set", SESSION),
    "C21": (T_S, SESSION),
    "C22": ("TLA+ model checking of calls on user-implemented writers, replayed and trace-validated (TLC)",
            "TLC enumerates every call, set of overridden methods and sequence of results up to a bound; each is made on a real "
            "user-implemented writer through ten routes, and TLC validates the recorded calls and results. Trusted: TLC and the recording writer."),
    "C24": ("TLA+ model checking of interleaved and nested uses, schedules replayed and trace-validated (TLC)",
            "TLC enumerates all interleavings and nestings of small sessions and checks that each is where it would be on its own; the "
            "schedules are replayed into real writers (coroutine-like in one thread, by passing a turn between threads), random sessions "
            "under random schedules as well, switching at every event and sink call, and every session's trace is validated by TLC. "
            "Free-running threads are a sample. Trusted: TLC, the harness's scheduler and sinks."),
    "C25": (T_F, FMT + " Allocations are counted by the program's global allocator."),
    "C26": ("TLA+ trace validation (TLC) of replayed histories, and self-composition over surroundings",
            "The same histories, invocations and tables are run in builds of three profiles, with many environments (stand-ins for getenv "
            "and isatty), in several places of a program and in different orders; TLC validates one run against the specification and "
            "compares all others with it. Surroundings other than these are not explored. Trusted: TLC, the harness's sinks, digests of recordings."),
    "C23": (T_F + " in many kinds of places", FMT),
}

if __name__ == "__main__":
    import run
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8")]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in run.PROPS:
            checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 tools/run.py " + i,
                           "thorough_cmd": "VERIF_TIER=thorough python3 tools/run.py " + i, "evidence_file": "evidence/%s.json" % i,
                           "technique": CHECKS[i][0], "level": "model_checking", "level_note": CHECKS[i][1]})
        else:
            na.append({"property": i, "reason": "check under construction"})
    m = {"version": 1, "setup_cmd": "python3 tools/run.py setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks: everything is checked through the public API. See DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
