#!/usr/bin/env python3
"""run.py PROPERTY : decides one property against the repository's working tree.

Exit status 0: held on everything explored; 1: violated (with a VIOLATION line); 2: could not be decided.
"""
import copy, hashlib, itertools, json, os, random, re, shutil, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import features, fmtgen, gen
from svlib import *

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
THOROUGH = TIER == "thorough"


def pick(quick, thorough):
    return thorough if THOROUGH else quick


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.stats = Stats()
        self.tmp = fresh(os.path.join(BUILD, "work", prop))
        self.assumptions = []
        self.known = known_findings(prop)
        try:
            os.remove(os.path.join(BUILD, "replay", prop + ".json"))
        except FileNotFoundError:
            pass
        self.samples = []
        self._bin = None

    @property
    def bin(self):
        if self._bin is None:
            self._bin = build_harness()
        return self._bin

    def note(self, k, v):
        self.stats.notes[k] = v

    def rejected(self, kind, scenario, trace, why):
        key = hashlib.sha256(json.dumps([kind, scenario], sort_keys=True).encode()).hexdigest()[:16]
        data = {"property": self.prop, "kind": kind, "key": key, "scenario": scenario, "trace": trace, "why": why}
        if key in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[key]))
            return
        raise Violation("%s rejected" % kind, data)


def known_findings(prop):
    """known-findings.txt: `known: property=<id> key=<key> <what fails>`; fixed: lines suppress nothing."""
    res = {}
    try:
        for line in open(os.path.join(ROOT, "known-findings.txt"), encoding="utf-8"):
            w = line.split()
            if len(w) > 2 and w[0] == "known:" and w[1] == "property=" + prop and w[2].startswith("key="):
                res[w[2][4:]] = " ".join(w[3:])
    except FileNotFoundError:
        pass
    return res


def jl(xs):
    return [json.dumps(x, ensure_ascii=False) for x in xs]


def sample(xs, n, seed=SEED):
    if len(xs) <= n:
        return list(xs)
    r = random.Random(seed)
    return [xs[i] for i in sorted(r.sample(range(len(xs)), n))]


# ------------------------------------------------------------------------------------------------
# Sessions

MC_INV = ["TextPreserved", "StylesShown", "FinishClean", "NothingExtra", "MeansWhatItSays", "Scopes", "Stuck", "Unwound", "EmitDone"]
DESIGNS = {"core": (4, 5), "nest": (6, 8), "err": (7, 8), "unwind": (8, 9)}


def scenarios(c, alphabets, sizes=None):
    """Model checks the design and gives its finished behaviours, by alphabet."""
    res = {}
    for a in alphabets:
        n = (sizes or DESIGNS)[a][1 if THOROUGH else 0]
        res[a] = design("MC_Stylish", "%s%d" % (a, n), {"MaxOps": n, "Alphabet": '"%s"' % a, "Emit": "TRUE"}, MC_INV,
                        c.tmp, c.stats)
        log("design", a, n, len(res[a]), "behaviours")
        c.note("behaviours_%s" % a, len(res[a]))
    return res


def strip_for(be, ops):
    """Operations that the backend has."""
    if be == "string":
        out = []
        for o in ops:
            if o["o"] == "flush":
                continue
            if o["o"] == "finish":
                out.append({"o": "show", "r": {"k": "fg", "c": "blue"}, "m": 0})
                out.append({"o": "show", "r": {"k": "unit"}, "m": 9})
            out.append(o)
        return out
    return ops


def session_lines(name, opslist, backends, raw=False, spread=True):
    out = []
    for i, ops in enumerate(opslist):
        for be in ([backends[i % len(backends)]] if spread else backends):
            line = {"id": "%s%d" % (name, i), "be": be, "ops": strip_for(be, ops)}
            if raw:
                line["raw"] = True
            out.append(line)
    return out


def check_sessions(c, lines, gates, label, module="T_Session", max_reject=1):
    logs = drive(c.bin, ["session"], jl(lines), c.tmp)
    log("recorded", len(logs), "sessions for", label)
    if c.samples is not None and logs and len(c.samples) < 2:
        c.samples.append(json.loads(min((l for l in logs if len(l) > 300), key=len, default=logs[0])))
    n = 1 + len(c.known)
    for line, why in validate(module, {"Gates": tlaset(gates)}, logs, c.tmp, c.stats, ["Complete"], label=label, max_reject=n):
        tr = json.loads(line)
        sc = next((l for l in lines if l["id"] == tr["id"] and l["be"] == tr["be"]), None)
        c.rejected("session", sc, tr, why)
    log("validated", label)
    return logs


def self_test(c, logs, gates):
    """Corrupted logs have to be rejected."""
    r = random.Random(SEED)
    usable = [l for l in logs if '"t":"' in l and '"panic"' not in l]
    done = tried = 0
    for l in sample(usable, 40, SEED + 1):
        t = json.loads(l)
        spots = [(i, k) for i, e in enumerate(t["ev"]) for k, tok in enumerate(e.get("out", [])) if tok.get("t")
                 and not e.get("sf")]
        if not spots or t["be"] == "string":
            continue
        i, k = r.choice(spots)
        what = r.choice(["text", "style"] if "text" in gates else ["style"])
        tok = t["ev"][i]["out"][k]
        if what == "text" or not (("s" in tok)):
            if "text" not in gates:
                continue
            tok["t"] = tok["t"] + "?"
        else:
            if "style" not in gates:
                continue
            tok["s"] = ["brightwhite", "brightwhite", "faint"]
        tried += 1
        local = Stats()
        if not validate("T_Session", {"Gates": tlaset(gates)}, [json.dumps(t, ensure_ascii=False)], c.tmp, local,
                        ["Complete"], label="selftest%d" % tried):
            raise ToolError("self test: a corrupted log was accepted")
        done += 1
        if done >= pick(2, 12):
            break
    c.note("corrupted_logs_rejected", done)


def check_matrix(c, backends, gates):
    seen = set()
    for be, (exe, env) in itertools.product(backends, variants(c.bin)[:4]):
        path = os.path.join(c.tmp, "matrix-%s.ndjson" % be)
        with open(path, "wb") as f:
            run, cwd = launch([exe, "matrix", be], env)
            p = subprocess.run(run, cwd=cwd, stdout=f, stderr=subprocess.PIPE, timeout=300, env=env)
        if p.returncode == 3:
            raise ToolError("harness: " + p.stderr.decode())
        tail = open(path, encoding="utf-8").read().rstrip("\n").rsplit("\n", 1)[-1]
        if p.returncode != 0 or '"panic"' in tail[:40]:
            raise Violation("matrix", {"property": c.prop, "kind": "matrix " + be, "why": "died: " + tail[:300]})
        with open(path, "rb") as f:
            sum_ = hashlib.sha256(f.read()).hexdigest()
        if (be, sum_) in seen:
            # the same in these surroundings
            continue
        seen.add((be, sum_))
        cfg = os.path.join(c.tmp, "matrix-%s.cfg" % be)
        consts = {"Lanes": 16}
        mod = "T_Algebra"
        if be != "algebra":
            consts["Gates"] = tlaset(gates)
            mod = "T_Matrix"
        write_cfg(cfg, consts, ["RowOk"], deadlock=False)
        ok, out = tlc(mod, cfg, c.tmp, c.stats, trace=path, workers=CORES)
        if not ok:
            n = state_var(out, "n")
            rows = open(path, encoding="utf-8").read().split("\n")
            c.rejected("matrix " + be, {"row": n}, rows[n] if n and n < len(rows) else None, last_state(out))
        c.stats.traces += 867
        c.note("style_pairs_" + be, 867 * 867)
        log("matrix", be)


# ------------------------------------------------------------------------------------------------
# Properties

ALL = ["ansi", "html", "plain", "ioansi", "ioplain", "string"]
MARKUP = ["ansi", "html", "ioansi"]


def c01(c):
    gates = ["text", "res"]
    sc = scenarios(c, ["core", "nest"])
    logs = []
    for a in sc:
        logs += check_sessions(c, session_lines(a, sample(sc[a], pick(700, 9000)), ALL, spread=not THOROUGH), gates, a)
    logs += check_sessions(c, gen.sessions(SEED, pick(1500, 12000), ALL, long=0.05), gates, "random")
    logs += check_sessions(c, huge_lines(ALL), gates, "huge")
    logs += check_sessions(c, text_lines(ALL) + char_lines(ALL), gates, "texts")
    # bytes, cut anywhere, to sinks that take some at a time
    check_io(c, gen.io_runs(SEED + 3, pick(500, 5000), "soft"), ["exact", "success"], False, "bytes")
    check_io(c, gen.io_runs(SEED + 4, pick(500, 5000), "loop"), ["hand", "count"], True, "cut")
    self_test(c, logs, gates)


def text_lines(backends):
    """Every two of many kinds of characters next to one another: in one text, at its ends, in its middle, and
    in adjacent writes of the same and of different styles."""
    atoms = ["a", " ", "\r", "\n", "\r\n", "\t", "\0", "\x01", "\x08", "\x0b", "\x0c", "\x7f", "\u0085", "\u00a0", "\u00ad", "é", "e\u0301",
             "\u200b", "\u200d", "\u2028", "\ufeff", "漢", "\ufffd", "\uffff", "🦀", "\U0010ffff", "{", "}", "\\", "%", "\"", "&", "<", ".", "ß", "ﬁ", "İ"]
    pairs = [(a, b) for a in atoms for b in atoms]
    red = ["red", "default", "bold"]
    out, k = [], 0
    for i in range(0, len(pairs), 12):
        for be in backends if THOROUGH else [backends[i // 12 % len(backends)], backends[(i // 12 + 3) % len(backends)]]:
            ops = []
            for a, b in pairs[i:i + 12]:
                k += 1
                s = red if k % 2 else gen.DEFAULT
                m = k // 2 % 6
                if m == 0:
                    ops += [{"o": "w", "t": "x" + a + b + "y", "s": s}]
                elif m == 1:
                    ops += [{"o": "w", "t": a + b, "s": s}]
                elif m == 2:
                    ops += [{"o": "w", "t": "x" + a, "s": s}, {"o": "w", "t": b + "y", "s": s}]
                elif m == 3:
                    ops += [{"o": "c", "t": ch, "s": s} for ch in a + b]
                elif m == 4:
                    ops += [{"o": "fmt", "via": k % 6, "b": [{"o": "t", "t": "x" + a + b + a + "y", "m": k % 8}]}]
                else:
                    ops += [{"o": "w", "t": "x" + a, "s": red}, {"o": "w", "t": b + "y", "s": gen.DEFAULT}]
            ops.append({"o": "finish"})
            out.append({"id": "tx%d" % i, "be": be, "ops": strip_for(be, ops)})
    return out


def char_lines(backends):
    """Every one of many characters on its own, in many styles."""
    chars = [chr(i) for i in range(0x100)] + list("\u2028\u2029\u200b\u200d\u202e\u3000\ufeff\ufffd\uffff漢ßİ🦀\U0010ffff\u0301\u2009\u20ac\ue000")
    out = []
    for k, be in enumerate(backends):
        for i in range(0, len(chars), 40):
            ops = []
            for j, ch in enumerate(chars[i:i + 40]):
                s = gen.DEFAULT if j % 2 else [gen.COLORS[(i + j + k) % 17], gen.COLORS[(i + 3 * j) % 17], gen.INTENS[(j // 2) % 3]]
                ops += [{"o": "c", "t": ch, "s": s}, {"o": "w", "t": ch, "s": s}]
                # where one component changes
                for n in range(3):
                    t = list(s)
                    t[n] = gen.INTENS[(gen.INTENS.index(s[2]) + 1) % 3] if n == 2 else gen.COLORS[(gen.COLORS.index(s[n]) + 5) % 17]
                    a, b = ("c", "w") if (j + n) % 2 else ("w", "c")
                    ops += [{"o": "c", "t": ch, "s": t}, {"o": a, "t": ch, "s": s}, {"o": b, "t": ch, "s": t}, {"o": "c", "t": ch, "s": s}]
            out.append({"id": "ch%s%d" % (be, i), "be": be, "ops": ops + [{"o": "finish"}]})
    return out


def many_lines(backends, sizes):
    """Very many changes of style, and very many writes."""
    out = []
    for be, n in itertools.product(backends, sizes):
        r = random.Random(n)
        styles = [[r.choice(gen.COLORS), r.choice(gen.COLORS), r.choice(gen.INTENS)] for _ in range(7)] + [gen.DEFAULT]
        ops = [{"o": "w", "t": "abcdefghijk<é"[i % 13], "s": styles[(i * i + i // 8) % 8 if i % 9 else (i + 5) % 8]} for i in range(n)]
        out.append({"id": "many%s%d" % (be, n), "be": be, "ops": ops + [{"o": "show", "r": {"k": "unit"}, "m": 0}] * (be == "string") + [{"o": "finish"}]})
    return out


def huge_lines(backends):
    """Very long texts, once per backend; also right after one another."""
    out = []
    for be in backends:
        for n in pick([4096, 65535, 65536, 65537, 70001, 131073], [16383, 16384, 32768, 65534, 65535, 65536, 65537, 131072, 262144, 1048577]):
            for u in pick(["a", "é"], ["a", "é", "漢", "<"]):
                t = (u * (n // len(u.encode()) + 1))[:n // len(u.encode()) + (0 if len(u.encode()) == 1 else 1)]
                if u == "a":
                    t = t[:-1] + ["z", "\n", " "][(n + len(out)) % 3]
                ops = [{"o": "w", "t": t, "s": ["red", "default", "bold"]},
                       {"o": "w", "t": "x", "s": ["default", "default", "normal"]},
                       {"o": "fmt", "via": 0, "b": [{"o": "t", "t": t, "m": 1}]}, {"o": "finish"}]
                out.append({"id": "huge%d%s" % (n, u), "be": be, "ops": strip_for(be, ops)})
        for i, end in enumerate(["\n\n", "\n\n\n", "\r\n", "  ", "\t", "\0", "\n é", " \n"]):
            t = "b" * pick(66001, 140001) + end
            ops = [{"o": "w", "t": t, "s": gen.DEFAULT}, {"o": "fmt", "via": 0, "b": [{"o": "t", "t": end + t, "m": i % 3}]}, {"o": "finish"}]
            out.append({"id": "hugeend%d" % i, "be": be, "ops": strip_for(be, ops)})
    return out


def c02(c):
    gates = ["style"]
    check_matrix(c, ["ansi", "ioansi"], gates)
    sc = scenarios(c, ["core", "nest"])
    logs = []
    for a in sc:
        logs += check_sessions(c, session_lines(a, sample(sc[a], pick(800, 9000)), ["ansi", "ioansi"], spread=not THOROUGH), gates, a)
    logs += check_sessions(c, gen.sessions(SEED, pick(1200, 10000), ["ansi", "ioansi"]) + char_lines(["ansi", "ioansi"]) + many_lines(["ansi", "ioansi"], pick([1100], [300, 5000])), gates, "random")
    io_styles(c, ["shown"])
    self_test(c, logs, gates + ["text"])


def io_styles(c, gates):
    """What the terminal behind a byte sink shows when the sink takes things in pieces."""
    check_io(c, [l for l in gen.io_runs(SEED, pick(1300, 15000), "loop") if l["be"] == "ioansi"], gates, True, "pieces")
    check_io(c, [l for l in gen.io_runs(SEED + 3, pick(900, 10000), "soft") if l["be"] == "ioansi"], gates, True, "interrupted")


def c03(c):
    gates = ["finish", "clean"]
    check_matrix(c, ["ansi", "ioansi"], gates)
    sc = scenarios(c, ["core", "nest"])
    for a in sc:
        check_sessions(c, session_lines(a, sample(sc[a], pick(1200, 9000)), ["ansi", "ioansi"], spread=not THOROUGH), gates, a)
    lines = gen.sessions(SEED, pick(1200, 10000), ["ansi", "ioansi"])
    # histories in the default style only
    for l in lines[::3]:
        unstyle(l["ops"])
    check_sessions(c, lines, gates, "random")
    io_styles(c, ["clean"])


def unstyle(ops):
    for o in ops:
        if "s" in o:
            o["s"] = list(gen.DEFAULT)
        if o["o"] == "with":
            o["r"] = {"k": "unit"}
        if o["o"] == "attr":
            o["key"] = random.Random(len(json.dumps(o))).choice(["", "normal", "fg=default", "bg=default"])
        if "b" in o:
            unstyle(o["b"])


def c04(c):
    gates = ["style", "struct", "finish", "clean"]
    check_matrix(c, ["html"], gates)
    sc = scenarios(c, ["core", "nest"])
    logs = []
    for a in sc:
        logs += check_sessions(c, session_lines(a, sample(sc[a], pick(1200, 9000)), ["html"]), gates, a)
    lines = gen.sessions(SEED, pick(1200, 10000), ["html"]) + char_lines(["html"]) + many_lines(["html"], pick([1100], [300, 5000]))
    logs += check_sessions(c, lines, gates, "random")
    self_test(c, logs, gates + ["text"])


def c05(c):
    gates = ["readback", "text", "res"]
    sc = scenarios(c, ["core"])
    for a in sc:
        check_sessions(c, session_lines(a, sample(sc[a], pick(300, 2000)), ["html"], raw=True), gates, a)
    check_sessions(c, special_lines(), gates, "arrangements")
    check_sessions(c, gen.sessions(SEED, pick(1000, 10000), ["html"], long=0.005, raw=True), gates, "random")


def special_lines():
    """All short arrangements of the special characters and of what they could combine to, in every
    splitting over two writes."""
    import itertools
    atoms = ["<", ">", "&", "\"", "'", "a", ";", "#", "/", "!", "-"]
    texts = ["".join(p) for n in (1, 2, 3) for p in itertools.product(atoms, repeat=n)]
    texts += ["&amp;", "&lt;", "&#60;", "&#x3C;", "&quot;", "</span>", "<span style=color:red>", "<!-- x -->", "]]>", "&ampamp;"]
    if not THOROUGH:
        texts = sample(texts, 600) + texts[-10:] + atoms
    out = []
    red = ["red", "default", "normal"]
    for i in range(0, len(texts), 4):
        ops = []
        for j, t in enumerate(texts[i:i + 4]):
            k = (i + j) % (len(t) + 1)
            s = red if (i + j) % 2 else gen.DEFAULT
            m = (i // 4 + j) % 4
            if m == 0:
                ops += [{"o": "w", "t": t[:k], "s": s}, {"o": "w", "t": t[k:], "s": s}]
            elif m == 1:
                ops += [{"o": "fmt", "via": j % 6, "b": [{"o": "t", "t": t, "m": (i + j) % 8}]}]
            elif m == 2:
                ops += [{"o": "c", "t": ch, "s": s} for ch in t]
            else:
                ops += [{"o": "w", "t": t[:k], "s": red}, {"o": "w", "t": t[k:], "s": gen.DEFAULT}]
            ops.append({"o": "w", "t": "|", "s": red if j % 2 else gen.DEFAULT})
        out.append({"id": "sp%d" % i, "be": "html", "ops": ops + [{"o": "finish"}], "raw": True})
    # every ASCII and some other characters on their own
    chars = [chr(k) for k in range(1, 128) if k not in (13,)] + ["\u0080", "\u00a0", "\u2028", "\ufeff", "\U0001f980"]
    for i in range(0, len(chars), 8):
        out.append({"id": "ch%d" % i, "be": "html", "raw": True,
                    "ops": [{"o": "c" if k % 2 else "w", "t": ch, "s": red if k % 3 == 0 else gen.DEFAULT}
                            for k, ch in enumerate(chars[i:i + 8])] + [{"o": "finish"}]})
    return out


def c06(c):
    cfg = os.path.join(c.tmp, "styles.cfg")
    check_matrix(c, ["algebra"], [])
    lines = []
    for i in range(pick(6000, 60000)):
        g = gen.Gen(SEED * 77003 + i)
        g.new_palette()
        lines.append({"id": "r%d" % i, "be": "", "r": g.restyle(), "s": g.style()})
    # deep ones
    for i in range(pick(300, 3000)):
        g = gen.Gen(SEED * 7717 + i)
        x = g.restyle(3)
        for _ in range(g.r.choice([5, 8, 9, 12, 17, 33])):
            k = g.r.choice(["some", "ref", "box", "user", "seq", "pair", "triple"])
            y = lambda: g.restyle(9) if g.r.random() < 0.3 else {"k": "unit"}
            x = {"k": k, "r": x} if k in ("some", "ref", "box") else {"k": k, "rs": [x]} if k in ("user", "seq") else \
                {"k": k, **dict(zip("abc" if k == "triple" else "ab", g.r.sample([x, y(), y()], 3) if k == "triple" else [x, y()][::g.r.choice([1, -1])]))}
        lines.append({"id": "d%d" % i, "be": "", "r": x, "s": g.style()})
    logs = drive(c.bin, ["restyle"], jl(lines), c.tmp)
    c.samples += [json.loads(l) for l in logs[:2]]
    for line, why in validate("T_Restyle", {}, logs, c.tmp, c.stats, label="restyle", view=None, tr="n"):
        c.rejected("restyle", json.loads(line), None, why)
    c.note("restyling_trees", len(logs))


def c07(c):
    gates = ["style", "scope", "text"]
    sc = scenarios(c, ["core", "nest"])
    logs = []
    for a in sc:
        logs += check_sessions(c, session_lines(a, sample(sc[a], pick(1400, 9000)), ["rec"]), gates, a)
    logs += check_sessions(c, gen.sessions(SEED, pick(1800, 15000), ["rec"]), gates, "random")
    deep = []
    for i in range(pick(12, 60)):
        g = gen.Gen(SEED * 31 + i)
        deep.append({"id": "deep%d" % i, "be": "rec", "ops": [
            {"o": "fmt", "via": i % 6, "b": g.spine(pick(40, 120))}, {"o": "w", "t": "x", "s": g.style()}, {"o": "finish"}]})
    logs += check_sessions(c, deep, gates, "deep")
    self_test(c, logs, gates)


def c08(c):
    gates = ["text", "style", "scope"]
    sc = scenarios(c, ["core", "nest"])
    logs = []
    for a in sc:
        logs += check_sessions(c, session_lines(a, sample(sc[a], pick(1400, 9000)), ["string"]), gates, a)
    logs += check_sessions(c, gen.sessions(SEED, pick(1500, 12000), ["string"], long=0.05), gates, "random")
    # attributed strings inside of formatted data
    lines = []
    for i in range(pick(500, 5000)):
        g = gen.Gen(SEED * 131 + i)
        g.new_palette()
        ops = []
        for _ in range(g.r.randint(1, 4)):
            b = [{"o": "str", "m": g.r.randint(0, 2), "b": g.body(g.r.randint(0, 3), g.r.randint(0, 5), 0, False, True)}]
            if g.r.random() < 0.6:
                b = [{"o": "with", "r": g.restyle(2), "b": b + [{"o": "t", "t": g.word(), "m": 0}]}]
            ops.append({"o": "fmt", "via": g.r.randint(0, 5), "b": b})
        lines.append({"id": "s%d" % i, "be": "rec", "ops": ops + [{"o": "finish"}]})
    logs += check_sessions(c, lines, gates, "inside")
    check_sessions(c, huge_lines(["string"]) + many_lines(["string"], pick([1100, 5000], [300, 5000, 17000])), gates, "huge")


def c17(c):
    gates = ["res", "prefix", "text", "scope"]
    bes = ["rec", "ansi", "html", "plain", "ioansi", "ioplain"]
    sc = scenarios(c, ["err"])["err"]
    check_sessions(c, session_lines("err", sample(sc, pick(600, 9000)), bes, spread=not THOROUGH), gates, "err")
    lines = []
    # every failing sink call of small programs
    small = sample([s for s in sc if any(o["o"] == "fmt" for o in s)], pick(60, 400), SEED + 3)
    for i, ops in enumerate(small):
        be = bes[i % len(bes)]
        ops = json.loads(json.dumps(ops))
        no_try(ops)
        for k in range(pick(10, 16)):
            lines.append({"id": "fault%d.%d" % (i, k), "be": be, "ops": ops, **({"fail": [k]} if (i // len(bes) + k) % 2 else {"dead": k})})
    for i in range(pick(900, 9000)):
        be = bes[i % len(bes)]
        g = gen.Gen(SEED * 613 + i, ansi=False)
        g.new_palette()
        ops = g.top(g.r.choice([1, 2, 4]), g.r.choice([2, 3, 5]), 0.12 if i % 3 else 0.05, clones=False, long=0.005) + [{"o": "finish"}]
        line = {"id": "e%d" % i, "be": be, "ops": ops}
        x = g.r.random()
        if x < 0.35:
            line["fail"] = [g.r.randrange(pick(12, 30))]
        elif x < 0.6:
            line["dead"] = g.r.randrange(pick(12, 30))
        elif x < 0.65:
            line["fail"] = sorted({g.r.randrange(10), g.r.randrange(20)})
        if "fail" in line or "dead" in line:
            no_try(ops)
        lines.append(line)
    # every failing sink call while something that takes several of them is displayed
    for i in range(pick(40, 400)):
        be = bes[i % len(bes)]
        g = gen.Gen(SEED * 947 + i)
        g.new_palette()
        runs = [{"o": "sw", "t": g.word(), "s": g.style(), "m": g.r.randint(0, 2)} for _ in range(g.r.choice([2, 3, 4]))]
        kind = i // len(bes) % 4
        body = [{"o": "str", "m": g.r.randint(0, 2), "b": runs}] if kind < 2 else \
            [{"o": "attr", "key": g.r.choice(gen.KEYS), "k": g.r.choice(range(10)),
              "b": [{"o": "t", "t": g.word(), "m": g.r.randint(0, 2)} for _ in range(3)]}] if kind == 2 else \
            [{"o": "args", "m": g.r.randint(0, 8), "b": runs}]
        if g.r.random() < 0.5:
            body = [{"o": "with", "r": g.restyle(2), "b": body}]
        ops = [{"o": "fmt", "via": g.r.randint(0, 5), "b": body}, {"o": "w", "t": g.word(), "s": g.style()}, {"o": "finish"}]
        for k in range(pick(9, 24)):
            lines.append({"id": "many%d.%d" % (i, k), "be": be, "ops": ops, "fail": [k]})
            if k % 4 == i % 4:
                lines.append({"id": "dead%d.%d" % (i, k), "be": be, "ops": ops, "dead": k})
    # every failing sink call while styles change from and to all kinds of styles
    change = [[a, b, "normal"] for a in ("default", "red") for b in ("default", "blue")] + [["red", "blue", "bold"], ["default", "default", "faint"]]
    for i, (a, b) in enumerate(itertools.product(change, change)):
        for be in ["ansi", "html", "ioansi"] if THOROUGH or i % 3 == SEED % 3 else [["ansi", "html"][i % 2]]:
            ops = [{"o": "w", "t": "x", "s": a}, {"o": "w", "t": "y", "s": b}, {"o": "finish"}]
            for k in range(pick(10, 16)):
                lines.append({"id": "change%d.%d" % (i, k), "be": be, "ops": ops, "fail": [k]})
    check_sessions(c, lines, gates, "faults")
    # through every entry point
    check_entries(c, entry_lines(SEED + 17, pick(220, 3000), 0.12), ["err", "res"], "entries")


def c21(c):
    gates = ["text", "style", "struct", "clean", "finish", "res", "scope"]
    bes = ["rec"] + ALL
    sc = scenarios(c, ["unwind"])["unwind"]
    sc = [s for s in sc if '"boom"' in json.dumps(s)]
    logs = check_sessions(c, session_lines("unwind", sample(sc, pick(1200, 12000)), bes, spread=not THOROUGH), gates, "unwind")
    lines = gen.sessions(SEED + 21, pick(2800, 20000), bes, fail=0.04, long=0.01, boom=0.12)
    lines = [l for l in lines if '"boom"' in json.dumps(l)]
    logs += check_sessions(c, lines, gates, "random")
    self_test(c, logs, gates)


def c22(c):
    scs = design("MC_Forward", "calls", {"MaxSteps": pick(4, 7)}, ["NeverStuck", "OkMeansAll", "EmitDone"], c.tmp, c.stats,
                 properties=["OnlyShrinks"])
    log("design", len(scs), "calls")
    c.note("calls", len(scs))
    lines = []
    r = random.Random(SEED * 37 + 22)
    for i, s in enumerate(scs):
        s["over"] = sorted(s["over"])
        if s["kind"] == "fmt" and r.random() < 0.6:
            # (the design's texts are short and plain, to keep it small)
            new = {c: r.choice("é漢z<&\n\0\u00ad\u0301\ufeff\u200b\ud7ff\ue000\uffff~\x7f\x80 \u0800\u07ff") for c in "abcdxyzq"}
            for run in s["call"]["runs"]:
                run[0] = "".join(new[c] for c in run[0])
        for route in range(10):
            for how in (0, 1) if s["call"]["m"] == "write_fmt" else (0,):
                lines.append(dict(s, id="%d.%d.%d" % (i, route, how), be=s["kind"], route=route, how=how))
    c.note("routes", 10)
    if not THOROUGH:
        # every method of every kind of writer by every route, and a sample of what else there is
        keep = {}
        for l in lines:
            keep.setdefault((l["kind"], tuple(l["over"]), l["call"]["m"], l["route"], l["how"]), []).append(l)
        r = random.Random(SEED)
        lines = [l for v in keep.values() for l in r.sample(v, min(len(v), 14))]
    logs = drive(c.bin, ["forward"], jl(lines), c.tmp)
    c.samples.append(json.loads(max(logs[:50], key=len)))
    for line, why in validate("T_Forward", {}, logs, c.tmp, c.stats, label="forward", max_reject=1 + len(c.known)):
        t = json.loads(line)
        c.rejected("forward", next(l for l in lines if l["id"] == t["id"]), t, why)
    # corrupted logs have to be rejected
    done = 0
    for l in sample(logs, 40, SEED + 1):
        t = json.loads(l)
        if not t["log"]:
            continue
        x = done % 3
        if x == 0:
            t["log"].append(t["log"][-1])
        elif x == 1:
            t["log"][-1]["m"] = "flush" if t["log"][-1]["m"] != "flush" else "write"
        else:
            t["res"] = {"k": "err", "n": 3} if t["res"]["k"] != "err" else {"k": "ok", "n": 0}
        if not validate("T_Forward", {}, jl([t]), c.tmp, Stats(), label="selftest%d" % done):
            raise ToolError("self test: a corrupted log was accepted")
        done += 1
        if done >= pick(3, 9):
            break
    c.note("corrupted_logs_rejected", done)


WOVEN = ["ansi", "html", "ioansi", "rec", "string", "plain", "ioplain"]
MADE = ["fansi", "fhtml", "fplain"]


def weave_lines(c, scs, mode, prefix):
    """Behaviours of several sessions with their schedule."""
    out = []
    for i, s in enumerate(scs):
        ses = []
        for k, ops in enumerate(s["all"]):
            be = WOVEN[(i + k * (i // 7 % 3)) % len(WOVEN)]
            if len(ops) == 2 and ops[0]["o"] == "fmt" and (i + k) % 3 == 0:
                be = MADE[i // 3 % 3]
            ses.append({"be": be, "ops": strip_for(be, ops) if be != "string" else ops[:-1] + [{"o": "show", "r": {"k": "unit"}, "m": 9}, ops[-1]]})
        out.append({"id": "%s%d" % (prefix, i), "mode": mode, "sessions": ses, "sched": s["sched"]})
    return out


def weave_random(n, mode, seed):
    out = []
    for i in range(n):
        g = gen.Gen(seed * 52711 + i)
        g.new_palette()
        r = g.r
        k = r.choice([2, 2, 3, 4] if mode != "hop" else [1, 1, 2, 3])
        ses = []
        kind = r.choice([WOVEN + MADE, WOVEN + MADE, MADE, ["ansi"], ["html"], ["ioansi", "ioplain"], ["ioansi"], ["string", "rec"]])
        own = r.random() < 0.4
        for _ in range(k):
            if own:
                g.new_palette()
            ses.append(weave_session(g, r.choice(kind)))
        stay = r.choice([0.2, 0.5, 0.8])
        sched = [0 if r.random() < stay else r.randint(1, k) for _ in range(r.choice([20, 60, 200]))]
        line = {"id": "%s%d" % (mode, i), "mode": mode, "sessions": ses, "sched": sched}
        if r.random() < 0.6:
            line["sinks"] = 1
        out.append(line)
    return out


def weave_tower(n, seed):
    """One use within another one within another one: through values, through sinks, or through both."""
    out = []
    for i in range(n):
        g = gen.Gen(seed * 9377 + i)
        g.new_palette()
        r = g.r
        k = r.choice([4, 5, 6, 8, 12])
        ses = [weave_session(g, r.choice(WOVEN + MADE)) for _ in range(k)]
        gap = r.choice([1, 3, 6])
        line = {"id": "tower%d" % i, "mode": "nest", "sessions": ses, "sched": sum(([j + 1] + [0] * r.randint(0, gap) for j in range(k)), [])}
        if i % 4:
            line["sinks"] = 1
        out.append(line)
    return out


def weave_session(g, be):
    r = g.r
    g.boom = 0.1 if r.random() < 0.15 else 0
    fail = 0.05 if r.random() < 0.15 else 0
    if be in MADE:
        g.boom = 0
        return {"be": be, "ops": [{"o": "fmt", "via": r.randint(0, 5), "b": g.body(r.randint(1, 4), r.randint(1, 4))}, {"o": "finish"}]}
    ops = g.top(r.choice([1, 2, 3, 5]), r.choice([1, 2, 3]), fail, long=0.01)
    if be == "string":
        ops = gen.with_shows(g, [o for o in ops if o["o"] != "flush"])
    s = {"be": be, "ops": ops + [{"o": "finish"}]}
    if be != "string" and r.random() < 0.3:
        s["ops"] = [o for o in s["ops"] if o["o"] not in ("clone", "fork")]
        no_try(s["ops"])
        s.update({"fail": [r.randrange(15)]} if r.random() < 0.5 else {"dead": r.randrange(15)})
    return s


def weave_after(n, seed):
    """After many other uses in the same process."""
    out = []
    for i in range(n):
        g = gen.Gen(seed * 3571 + i)
        g.new_palette()
        be = WOVEN[i % len(WOVEN)]
        end = [{"o": "finish"}]
        body = [[{"o": "fmt", "via": 0, "b": [{"o": "with", "r": {"k": "fg", "c": "red"}, "b": [{"o": "t", "t": "x", "m": 0}, {"o": k}]}]}] + end
                for k in ("fail", "boom")] + [g.top(2, 3, clones=False) + end, [{"o": "fmt", "via": 1, "b": g.spine(20)}] + end]
        ses = [weave_session(g, r) for r in ([be] if g.r.random() < 0.5 else [be, g.r.choice(WOVEN)])]
        out.append({"id": "after%d" % i, "mode": "nest", "sessions": ses, "sched": [1] * 5,
                    "before": {"n": g.r.choice([100, 1100, 3000]), "be": g.r.choice(WOVEN), "ops": body[i % 4]}})
    return out


def c24(c):
    gates = ["text", "style", "struct", "tight", "clean", "finish", "res", "scope", "heard"]
    inv = ["Independent", "MeansWhatItSays", "EmitDone"]
    lines = []
    for mode, n, k in pick([("nest", 7, 2), ("threads", 7, 2)], [("nest", 8, 2), ("threads", 8, 2), ("nest", 7, 3), ("threads", 7, 3)]):
        sc = design("MC_Weave", "%s%d.%d" % (mode, n, k), {"MaxOps": n, "Sessions": k, "Mode": '"%s"' % mode}, inv, c.tmp, c.stats,
                    properties=["Others"])
        log("design", mode, len(sc), "behaviours")
        c.note("behaviours_%s_%d" % (mode, k), len(sc))
        lines += weave_lines(c, sample(sc, pick(1200, 12000)), mode, "%s%d." % (mode, k))
    lines += weave_random(pick(900, 9000), "nest", SEED)
    lines += weave_random(pick(300, 3000), "threads", SEED + 1)
    lines += weave_random(pick(150, 1500), "free", SEED + 2)
    lines += weave_random(pick(240, 2000), "hop", SEED + 3)
    lines += weave_after(pick(24, 200), SEED)
    lines += weave_tower(pick(120, 1000), SEED + 4)
    check_weave(c, lines, gates)
    # and the writers may be where they are used in threads
    for line, why in validate("T_Kinds", {}, drive(c.bin, ["kinds"], jl([{"id": "kinds"}]), c.tmp), c.tmp, c.stats, label="kinds",
                              max_reject=1 + len(c.known)):
        c.rejected("kinds", {"id": "kinds"}, json.loads(line), why)


def check_weave(c, lines, gates):
    logs = drive(c.bin, ["weave"], jl(lines), c.tmp, timeout=60)
    log("recorded", len(logs), "woven runs")
    byid = {l["id"]: l for l in lines}
    flat = []
    for l in logs:
        t = json.loads(l)
        for k, s in enumerate(t.get("all", [t])):
            flat.append({"id": "%s/%d" % (t["id"], k), "be": s["be"], "ev": s["ev"]})
    c.samples.append(json.loads(min((l for l in logs if len(l) > 1500), key=len, default=logs[0])))
    c.note("woven_runs", len(logs))
    flat = jl(flat)
    for line, why in validate("T_Session", {"Gates": tlaset(gates)}, flat, c.tmp, c.stats, ["Complete"], label="weave",
                              max_reject=1 + len(c.known)):
        t = json.loads(line)
        c.rejected("weave", byid[t["id"].rsplit("/", 1)[0]], t, why)
    self_test(c, flat, gates)


def no_try(ops):
    """Sink failures are only followed when no displayed value swallows them."""
    for o in ops:
        if o["o"] == "try":
            o["o"] = "args"
            o["m"] = 0
        if "b" in o:
            if o["o"] == "attr" and o["k"] in gen.STD_KINDS:
                flat_std(o)
            no_try(o["b"])


def flat_std(o):
    def f(ops):
        out = []
        for x in ops:
            out += f(x["b"]) if x["o"] == "try" else [x]
        return out
    o["b"] = f(o["b"])


def c19(c):
    gates = ["tight", "same"]
    check_matrix(c, MARKUP, ["tight"])
    bes = ["ansi", "html", "ioansi", "plain", "ioplain", "rec"]
    lines = []
    for i in range(pick(2500, 20000)):
        be = ["ansi", "html", "ioansi", "plain", "ioplain", "string", "ansi", "html"][i % 8]
        g = gen.Gen(SEED * 4241 + i)
        g.new_palette()
        ops = g.top(g.r.choice([1, 2, 4, 8]), g.r.choice([0, 1, 2, 4]), clones=False, long=0.02)
        if be == "string":
            ops.append({"o": "show", "r": g.restyle(2), "m": g.r.choice([0, 1, 2, 9])})
        # what it is compared with is sometimes split in another way as well
        a, b = split_of(g, ops), ops if g.r.random() < 0.6 else split_of(g, ops)
        lines.append({"id": "p%d" % i, "be": be, "ops": a + [{"o": "finish"}], "cmp": b + [{"o": "finish"}]})
    check_sessions(c, lines, gates, "splits")
    sc = scenarios(c, ["core"])["core"]
    check_sessions(c, session_lines("core", sample(sc, pick(800, 7000)), MARKUP, spread=not THOROUGH), gates, "core")


def split_of(g, ops):
    return gen.split_ops(g, ops, "")


# ------------------------------------------------------------------------------------------------
# Byte sinks

IO_INV = ["Contract", "AllArrives", "PrefixArrives", "Reported", "Retried", "EmitDone"]


def io_design(c, mode, programs, faults, fatal):
    out = []
    for p in programs:
        sc = design("MC_Io", "%s-%s-%d-%d" % (mode, p, faults, fatal),
                    {"Program": '"%s"' % p, "MaxFaults": faults, "Fatal": fatal, "Mode": '"%s"' % mode, "Emit": "TRUE"},
                    IO_INV, c.tmp, c.stats, properties=["Terminates"])
        log("design", mode, p, len(sc), "schedules")
        c.note("schedules_%s_%s" % (mode, p), len(sc))
        out += [dict(s, id="%s%d" % (p, i)) for i, s in enumerate(sc)]
    return out


def check_io(c, lines, gates, track, label):
    logs = drive(c.bin, ["io"], jl(lines), c.tmp)
    log("recorded", len(logs), "runs for", label)
    if logs and len(c.samples) < 2:
        c.samples.append(json.loads(min((l for l in logs if len(l) > 600), key=len, default=logs[0])))
    for line, why in validate("T_Io", {"Gates": tlaset(gates), "Track": "TRUE" if track else "FALSE"}, logs, c.tmp, c.stats,
                              label=label, max_reject=1 + len(c.known)):
        tr = json.loads(line)
        sc = next((l for l in lines if l["id"] == tr["id"] and l["be"] == tr["be"]), None)
        c.rejected("io", sc, tr, why)
    log("validated", label)


def replay_io(scs, backends, spread=True):
    out = []
    for i, s in enumerate(scs):
        for be in ([backends[i % len(backends)]] if spread else backends):
            out.append({"id": s["id"], "be": be, "ops": s["ops"], "script": s["script"]})
    return out


HUGE_IO = pick([4097, 65535, 70001], [4096, 8191, 16385, 32769, 65535, 65536, 65537, 70001, 131073, 300001])
WHOLE = ["quiet", "stop", "exact", "text", "error", "success", "style"]
IO = ["ioansi", "ioplain", "iouser"]


def as_fmt(scs):
    """The same through formatting."""
    out = []
    for s in scs:
        ops = [{"o": "fmt", "via": i % 5 if i % 5 != 2 else 0, "b": [{"o": "sw", "t": o["t"], "s": o["s"], "m": 0}]} if o["o"] == "all" else o
               for i, o in enumerate(s["ops"])]
        out.append(dict(s, id="f" + s["id"], ops=ops))
    return out


def c09(c):
    sc = io_design(c, "all", ["short", "mix", "turn"], pick(2, 3), 0)
    sc = sample(sc, pick(2500, 40000))
    check_io(c, replay_io(sc, ["ioansi"]), WHOLE, False, "design")
    check_io(c, replay_io(as_fmt(sample(sc, pick(800, 8000))), ["ioansi", "ioansi", "ioplain", "iouser"]), WHOLE, False, "designfmt")
    check_io(c, gen.io_runs(SEED, pick(2500, 25000), "soft") + gen.io_huge(SEED, HUGE_IO, "soft"), WHOLE, False, "random")


def c10(c):
    sc = io_design(c, "all", ["short", "mix", "turn"], pick(2, 3), 1)
    sc = sample(sc, pick(2500, 40000))
    check_io(c, replay_io(sc, ["ioansi", "ioansi", "ioplain", "iouser"]), WHOLE, False, "design")
    check_io(c, replay_io(as_fmt(sample(sc, pick(1000, 8000))), ["ioansi", "ioplain", "iouser"]), WHOLE, False, "designfmt")
    check_io(c, gen.io_runs(SEED, pick(2500, 25000), "hard") + gen.io_huge(SEED, HUGE_IO, "hard"), WHOLE, False, "random")


def c11(c):
    sc = io_design(c, "wr", ["short", "mix", "turn"] if THOROUGH else ["short", "mix"], 2, 2 if THOROUGH else 1)
    sc = sample(sc, pick(2500, 40000))
    gates = ["quiet", "stop", "hand", "shown", "error", "count", "flush", "clean", "style"]
    check_io(c, replay_io(sc, ["ioansi", "ioansi", "ioplain", "iouser"]), gates, True, "design")
    check_io(c, gen.io_runs(SEED, pick(2000, 20000), "loop") + gen.io_huge(SEED, HUGE_IO, "loop"), gates, True, "random")


# ------------------------------------------------------------------------------------------------
# Format strings

def check_formats(c, label, cases, gates, **package):
    cases = fmtgen.uniq(fmtgen.twins(random.Random(SEED * 17 + len(label)), cases, 0.12, pick(40, 200)))
    if package or len(cases) < 40:
        logs = fmtgen.Package(label, cases, c.tmp, SEED, **package).run()
    else:
        # most in a build with debug assertions, some in one without
        groups = fmtgen.together(cases)
        logs = fmtgen.Package(label, [x for i, g in enumerate(groups) if i % 4 for x in g], c.tmp, SEED).run() + \
            fmtgen.Package(label + "_", sum(groups[::4], []), c.tmp, SEED, profile="plain").run()
    log("ran", len(logs), "invocations for", label)
    built = sum(1 for l in logs if l["built"] == "yes")
    c.note("invocations_" + label, len(logs))
    c.note("accepted_" + label, built)
    if len(c.samples) < 3:
        c.samples += [l for l in logs if l["ev"]][:1]
    byid = {x["id"]: x for x in cases}
    lines = jl(logs)
    for line, why in validate("T_Format", {"Gates": tlaset(gates)}, lines, c.tmp, c.stats, label=label, max_reject=1 + len(c.known)):
        tr = json.loads(line)
        sc = dict(byid[tr["id"]], id="")
        c.rejected("format", sc, tr, why)
    log("validated", label)
    return logs


def check_parity(c, n):
    cases = fmtgen.parities(SEED, n)
    logs = fmtgen.Package("parity", cases, c.tmp, SEED, fmtgen.PARITY_EXTRA).run()
    byid = {x["id"]: x for x in cases}
    c.note("parity_invocations", len(logs))
    for line, why in validate("T_Parity", {}, jl(logs), c.tmp, c.stats, label="parity", view=None, max_reject=1 + len(c.known)):
        tr = json.loads(line)
        c.rejected("parity", dict(byid[tr["id"]], id=""), tr, why)
    log("validated parity", len(logs))


def fmt_self_test(c, logs, gates):
    """Corrupted logs have to be rejected."""
    r = random.Random(SEED)
    done = 0
    for l in sample([l for l in logs if any(e["o"] == "call" for e in l["ev"]) and l["be"] in ("rec", "html")], pick(4, 20), SEED):
        t = json.loads(json.dumps(l))
        calls = [e for e in t["ev"] if e["o"] == "call" and e["trait"] != "Stylish"]
        outs = [(e, k) for e in t["ev"] for k in e["out"] if k.get("t")]
        kinds = (["params"] if "params" in gates and calls else []) + (["trait"] if "trait" in gates and calls else []) + \
            (["text"] if "text" in gates and outs else []) + (["order"] if "order" in gates and calls else [])
        if not kinds:
            continue
        k = r.choice(kinds)
        if k == "params":
            p = r.choice(calls)["p"]
            f = r.choice(["width", "prec", "alt", "zero"])
            p[f] = (not p[f]) if isinstance(p[f], bool) else p[f] + 1
        elif k == "trait":
            r.choice(calls)["trait"] = "Nothing"
        elif k == "order":
            r.choice(calls)["a"] += "x"
        else:
            r.choice(outs)[1]["t"] += "x"
        if not validate("T_Format", {"Gates": tlaset(gates)}, jl([t]), c.tmp, Stats(), label="selftest"):
            raise ToolError("self test: a corrupted log was accepted")
        done += 1
    c.note("corrupted_logs_rejected", done)


def calibrate(c, cases):
    """The specification's verdicts against those of the standard library's macros, for invocations
    without what only this library has. A difference would be a defect of the specification."""
    std = []
    for x in cases:
        if "(" not in x["fmt"] and not re.search(r"s(\}|$)", x["fmt"]) and x["form"] != "concat":
            std.append(dict(x, how="std", hostile=""))
    logs = fmtgen.Package("std", fmtgen.uniq(std), c.tmp, SEED).run()
    for l in logs:
        l["ev"] = []
    bad = validate("T_Format", {"Gates": tlaset(["accept", "reject"])}, jl(logs), c.tmp, Stats(), label="std", max_reject=3)
    for line, _ in bad:
        log("specification and std differ:", line)
    if bad:
        raise ToolError("the specification of format strings disagrees with the standard library")
    c.note("calibrated_against_std", len(logs))
    log("calibrated", len(logs))


def c12(c):
    gates = ["accept", "trait", "params", "text"]
    logs = check_formats(c, "combos", fmtgen.combos(SEED, THOROUGH), gates)
    fmt_self_test(c, logs, gates)
    check_parity(c, pick(300, 2500))


def c13(c):
    gates = ["accept", "order", "text"]
    logs = check_formats(c, "select", fmtgen.selections(SEED, pick(450, 3500)), gates)
    fmt_self_test(c, logs, gates)


def c14(c):
    gates = ["accept", "style", "text"]
    logs = check_formats(c, "attrs", fmtgen.attributes(SEED, pick(1600, 8000)), gates)
    fmt_self_test(c, logs, gates)


def c15(c):
    cases = fmtgen.broken(SEED, pick(1200, 9000))
    check_formats(c, "broken", cases, ["reject", "meaning"])
    if THOROUGH:
        calibrate(c, cases)


def c18(c):
    gates = ["accept", "text", "style"]
    logs = check_formats(c, "lits", fmtgen.literals(SEED, pick(500, 4000)), gates)
    fmt_self_test(c, logs, gates)


def c23(c):
    gates = ["accept", "order", "trait", "params", "text", "style"]
    logs = []
    for (edition, dep, *config), cases in fmtgen.places(SEED, pick(60, 600)):
        logs += check_formats(c, "p" + edition + "".join(config), cases, gates + ["reject"] * len(config), edition=edition, dep=dep, expand=bool(config))
    fmt_self_test(c, logs, gates)


def c25(c):
    cases = fmtgen.unallocated(SEED, pick(500, 4000))
    logs = check_formats(c, "alloc", cases, ["accept", "alloc"])
    counted = sum(1 for x in logs if x["ev"] and x["ev"][-1].get("allocs", -1) >= 0)
    c.note("counted", counted)
    if counted * 2 < len(logs):
        raise ToolError("allocations were counted for %d of %d invocations only" % (counted, len(logs)))
    bad = copy.deepcopy([x for x in logs if x["ev"] and x["ev"][-1].get("allocs") == 0][:3])
    for x in bad:
        x["ev"][-1]["allocs"] = 1
    if len(validate("T_Format", {"Gates": tlaset(["alloc"])}, jl(bad), c.tmp, Stats(), label="self", max_reject=4)) != len(bad):
        raise ToolError("a corrupted log was accepted")
    c.note("corrupted_logs_rejected", len(bad))


# ------------------------------------------------------------------------------------------------
# Surroundings

PLACES = ["", "thread", "unwind", "end"]


def ways_to_run(n):
    """Builds, surroundings and places; the first is the plainest."""
    res = [{"profile": "dev", "surround": 0, "place": ""}]
    r = random.Random(SEED)
    full = [{"profile": p, "surround": s, "place": w} for p in PROFILES for s in range(len(SURROUNDINGS)) for w in PLACES]
    # each of them with something
    k = r.randrange(100)
    for i in range(max(len(SURROUNDINGS), len(PLACES), len(PROFILES))):
        res.append({"profile": list(PROFILES)[(i + k) % 3], "surround": i % len(SURROUNDINGS), "place": PLACES[(i * 3 + k // 3) % 4]})
    res += r.sample(full, max(0, min(len(full), n - len(res))))
    return res


def way_env(w):
    return dict(surrounded(w["surround"]), SV_WHERE=w["place"])


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()


class Run:
    """What was recorded in one way: digests, and what differs from the first."""

    def __init__(self, recorded, first=None):
        self.sums = {i: digest(t) for i, t in recorded.items()}
        self.full = {i: t for i, t in recorded.items() if first is None or first.sums.get(i) != self.sums[i]}


def in_all(ways, go):
    """go(k) for every way; the first one first."""
    first = Run(go(0))
    with ThreadPoolExecutor(CORES) as ex:
        return [first] + list(ex.map(lambda k: Run(go(k), first), range(1, len(ways))))


def check_same(c, kind, ways, runs, byid):
    """runs: for each way, what was recorded."""
    recs = []
    for i in byid:
        sums = [r.sums.get(i, "missing") for r in runs]
        odd = next((k for k, s in enumerate(sums) if s != sums[0]), 0)
        recs.append({"id": i, "sums": sums, "ev": runs[0].full.get(i), "odd": {"way": ways[odd], "ev": runs[odd].full.get(i)} if odd else {}})
    c.note("compared_" + kind, sum(len(r.sums) for r in runs))
    slim = [{"id": r["id"], "sums": r["sums"]} for r in recs]
    for line, why in validate("T_Same", {"Ways": len(ways)}, jl(slim), c.tmp, c.stats, label=kind, view=None, max_reject=1 + len(c.known)):
        i = json.loads(line)["id"]
        c.rejected("same " + kind, byid[i], next(r for r in recs if r["id"] == i), why[:2000])
    bad = copy.deepcopy([slim[0], slim[-1]])
    bad[0]["sums"][-1] = "0"
    bad[1]["sums"].pop()
    if len(validate("T_Same", {"Ways": len(ways)}, jl(bad), c.tmp, Stats(), label="self", view=None, max_reject=3)) != 2:
        raise ToolError("a corrupted record was accepted")
    log("compared", kind, len(recs), "in", len(ways), "ways")


def c26(c):
    build_harness(profiles=tuple(PROFILES))
    ways = ways_to_run(pick(26, 72))
    c.note("ways", len(ways))
    c.samples.append(ways[:6])
    exe = {p: os.path.join(BUILD, t, "debug", "sv") for p, (t, _) in PROFILES.items()}
    ses = gen.sessions(SEED + 26, pick(420, 1500), ALL + ["rec"], long=0.03) + text_lines(["ansi", "html"])[:pick(40, 400)]
    ends = [l for l in gen.sessions(SEED + 27, pick(120, 900), ALL, fail=0.1, boom=0.1, prefix="e")]
    kinds = {"session": ses + ends,
             "io": gen.io_runs(SEED + 26, pick(120, 900), "soft") + gen.io_runs(SEED + 27, pick(60, 500), "hard", prefix="y"),
             "entry": entry_lines(SEED + 26, pick(60, 500), 0.05)}
    for kind, lines in kinds.items():
        for i, l in enumerate(lines):
            l["id"] = "%s%d" % (kind, i)
        byid = {l["id"]: l for l in lines}

        def go(k):
            w = ways[k]
            ls = list(lines)
            # what has gone before makes no difference either
            if k:
                random.Random(SEED * 100 + k).shuffle(ls)
            out = drive(exe[w["profile"]], [kind], jl(ls), c.tmp, jobs=1, ways=[(exe[w["profile"]], way_env(w))])
            return {t["id"]: t for t in map(json.loads, out)}
        runs = in_all(ways, go)
        log("ran", kind, len(lines), "in", len(ways), "ways")
        if kind == "session":
            # what it should be in all of them
            good = [runs[0].full[l["id"]] for l in ses if l["id"] in runs[0].full]
            for line, why in validate("T_Session", {"Gates": tlaset(["text", "style", "struct", "tight", "clean", "finish", "res", "scope"])}, jl(good),
                                      c.tmp, c.stats, ["Complete"], label="reference", max_reject=1 + len(c.known)):
                t = json.loads(line)
                c.rejected("session", byid[t["id"]], t, why)
        check_same(c, kind, ways, runs, byid)

    def whole(k, be):
        w = ways[k]
        env = way_env(w)
        run, cwd = launch([exe[w["profile"]], "matrix", be], env)
        p = subprocess.run(run, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=300)
        return {be: [p.returncode, hashlib.sha256(p.stdout).hexdigest()]}
    few = [0] + sample(range(1, len(ways)), pick(6, 20))
    for be in ["ansi", "html", "ioansi", "algebra"] if THOROUGH else [["ansi", "html", "ioansi", "algebra"][SEED % 4]]:
        check_same(c, "matrix", [ways[k] for k in few], in_all(few, lambda k: whole(few[k], be)), {be: {"matrix": be}})

    # invocations, expanded and compiled each time
    cases = fmtgen.uniq(fmtgen.combos(SEED + 26, False)[::pick(9, 3)] + fmtgen.selections(SEED + 26, pick(90, 400)) +
                        fmtgen.attributes(SEED + 26, pick(60, 300)) + fmtgen.literals(SEED + 26, pick(40, 200)))
    cases = [x for x in cases if x["how"] != "everywhere"]
    byid = {x["id"]: x for x in cases}

    def package(i):
        p = fmtgen.Package("same%d" % i, copy.deepcopy(cases), c.tmp, SEED, profile=list(PROFILES)[i], surround=[0, 1, 5][i])
        p.name = "same"     # the same programs
        p.run()
        return p
    with ThreadPoolExecutor(pick(3, 1)) as ex:
        packages = dict(zip(PROFILES, ex.map(package, range(3))))

    def logs(k):
        out, w = {}, ways[k]
        for t in packages[w["profile"]].again(lambda k: way_env(w)):
            t.pop("msg", None)
            for e in t["ev"]:
                # (an optimiser may leave allocations out)
                e.pop("allocs", None)
            out[t["id"]] = t
        return out
    check_same(c, "formats", ways, in_all(ways, logs), byid)


# ------------------------------------------------------------------------------------------------
# Entry points

def entry_lines(seed, n, fail=0.0):
    out = []
    for i in range(n):
        g = gen.Gen(seed * 5003 + i)
        g.new_palette()
        k = g.r.choice([1, 2, 2, 3, 4])
        d = g.r.choice([0, 1, 1, 2, 3])
        segs = [g.body(d, g.r.choice([0, 1, 1, 2, 3]), fail, False, True) for _ in range(k)]
        if i % 7 == 0:
            # text at the end of one segment goes on in the style that the next one starts with
            s = g.style()
            for b in segs:
                b.insert(0, {"o": "sw", "t": g.word(), "s": s, "m": g.r.randint(0, 2)})
                b.append({"o": "sw", "t": g.word(), "s": s, "m": g.r.randint(0, 2)})
        out.append({"id": "n%d" % i, "be": "all", "segs": segs, "k": i % 112})
    return out


def check_entries(c, lines, gates, label):
    logs = drive(c.bin, ["entry"], jl(lines), c.tmp)
    log("recorded", len(logs), "entry point groups for", label)
    if len(c.samples) < 2:
        c.samples.append(json.loads(min(logs, key=len)))
    for x in logs:
        if x.startswith('{"id": '):     # written by drive() itself
            t = json.loads(x)
            c.rejected("entry", next((l for l in lines if l["id"] == t["id"]), None), t, "died")
    c.note("outputs_" + label, sum(x.count('"via"') for x in logs))
    for line, why in validate("T_Entry", {"Gates": tlaset(gates)}, logs, c.tmp, c.stats, label=label, max_reject=1 + len(c.known)):
        t = json.loads(line)
        c.rejected("entry", next((l for l in lines if l["id"] == t["id"]), None), t, why)
    log("validated", label)
    return logs


def entry_self_test(c, logs, gates):
    """Corrupted logs have to be rejected."""
    r = random.Random(SEED)
    done = 0
    for x in sample([x for x in logs if x.count('"via"') > 20 and len(x) < 60000], pick(3, 12)):
        t = json.loads(x)
        e = r.choice([e for e in t["ev"] if e["res"] == "ok" and e["be"] != "rec" and e["raw"]])
        what = r.choice(["raw", "out", "res"])
        if what == "raw":
            e["raw"] += " "
            # something to compare it with
            if sum(1 for f in t["ev"] if f["be"] == e["be"] and f["segs"] == e["segs"]) < 2:
                e["res"] = "err"
        elif what == "out" and any(k.get("t") for k in e["out"]):
            r.choice([k for k in e["out"] if k.get("t")])["t"] += "x"
        else:
            e["res"] = "panic"
        if not validate("T_Entry", {"Gates": tlaset(gates)}, [json.dumps(t, ensure_ascii=False)], c.tmp, Stats(), label="selftest"):
            raise ToolError("self test: a corrupted log was accepted")
        done += 1
    c.note("corrupted_logs_rejected", done)


def c16(c):
    gates = ["res", "text", "style", "same", "clean"]
    c._bin = build_harness(failed="programs that use the entry points")
    if c._bin is None:
        # the harness is such a program; what it is about itself is the library's
        r = cargo(["build", "-p", "stylish"], os.path.join(ROOT, "harness"), os.path.join(BUILD, "target"))
        if r.returncode != 0:
            raise ToolError("the library does not build")
        rec = {"id": "build", "be": "all", "built": "no", "fmt": "{:s}", "args": [{"n": ""}], "scope": [], "nl": False, "ev": []}
        for line, why in validate("T_Entry", {"Gates": tlaset(["accept"])}, jl([rec]), c.tmp, c.stats, label="build"):
            c.rejected("entry", {"build": "cargo build --bin sv"}, rec, why)
        raise ToolError("the harness does not build")
    logs = check_entries(c, entry_lines(SEED, pick(450, 6000)), gates, "random")
    entry_self_test(c, logs, gates)
    cases = fmtgen.everywhere(SEED, pick(64, 500))
    logs = fmtgen.Package("everywhere", fmtgen.uniq(cases), c.tmp, SEED).run()
    log("ran", len(logs), "invocations everywhere")
    c.note("invocations_everywhere", sum(len(l["ev"]) for l in logs))
    byid = {x["id"]: x for x in cases}
    for line, why in validate("T_Entry", {"Gates": tlaset(gates + ["order", "accept"])}, jl(logs), c.tmp, c.stats, label="everywhere",
                              max_reject=1 + len(c.known)):
        t = json.loads(line)
        c.rejected("everywhere", dict(byid[t["id"]], id=""), t, why)
    log("validated everywhere")


# ------------------------------------------------------------------------------------------------
# Features

def ops_used(ops, out):
    for o in ops:
        out.add(o["o"])
        ops_used(o.get("b", []), out)
    return out


def session_needs(line):
    """What a recorded session needs."""
    need = {"ansi": {"ansi"}, "html": {"html"}, "plain": {"plain"}, "string": {"alloc"}, "ioansi": {"std", "ansi"},
            "ioplain": {"std", "plain"}, "rec": set(), "iouser": {"std"}}[line["be"]]
    used = ops_used(line["ops"], set())
    if used - {"w", "c", "clone", "fork", "flush", "finish", "all", "wr", "loop", "write"}:
        need = need | {"macros"}
    return need | ({"alloc"} if "str" in used else set())


def c20(c):
    plan = design("MC_Features", "lattice", {}, ["Emit"], c.tmp, c.stats, properties=["OnlyAdds"])
    c.note("feature_sets", len(plan))
    ses = gen.sessions(SEED, pick(160, 1200), ALL + ["rec"], long=0.01)
    for i, l in enumerate(ses):
        l["id"] = "s%d" % i
        if i % 3 == 0:
            # available without macros
            l["ops"] = [o for o in l["ops"] if o["o"] in ("w", "c", "clone", "fork", "flush", "finish")]
    plain = gen.io_runs(SEED, pick(60, 600), "soft") + gen.io_runs(SEED + 1, pick(60, 600), "hard")
    for i, l in enumerate(plain):
        l["id"] = "i%d" % i
    ses += char_lines(ALL + ["rec"])
    rest = []
    every = [[f, b, i] for f in gen.COLORS for b in gen.COLORS for i in gen.INTENS]
    for i in range(len(every) * pick(1, 4)):
        g = gen.Gen(SEED * 77 + i)
        g.new_palette()
        rest.append({"id": "r%d" % i, "be": "", "r": g.restyle(), "s": every[i % len(every)]})
    pool = [("session", l, session_needs(l)) for l in ses] + [("io", l, session_needs(l) | {"std"}) for l in plain] + \
        [("restyle", l, set()) for l in rest]

    def sessions(feats, target):
        have = set(feats) | ({"alloc"} if "std" in feats else set())
        binary = build_harness(feats, target, "no harness")
        if binary is None:
            return {"harness": "did not build"}
        res = {}
        for cmd in ("session", "io", "restyle"):
            lines = [l for k, l, need in pool if k == cmd and need <= have]
            for x in drive(binary, [cmd], jl(lines), c.tmp, jobs=1) if lines else []:
                res[json.loads(x)["id"]] = hashlib.md5(x.encode()).hexdigest()
        return res

    full = max(plan, key=lambda p: len(p["feats"]))
    recs = features.run(c.tmp, [(set(p["feats"]), sorted(p["items"]), True) for p in plan], sessions)
    log("built and ran", len(recs), "feature sets")
    # features of one of the crates by itself
    for feats in ([], full["feats"]):
        one = next(r for r in recs if sorted(r["feats"]) == sorted(feats))
        recs.append(dict(one, ses=sessions([f for f in feats if f != "alloc"] + ["boxed"], os.path.join(BUILD, "features", "0"))))
    allrec = next(r for r in recs if len(r["feats"]) == len(full["feats"]))
    if "harness" in allrec["ses"]:
        raise ToolError("the harness does not build")
    for r in recs:
        # TLC has no empty records in JSON
        r["out"] = r["out"] or {"none": ""}
        r["ses"] = r["ses"] or {"none": ""}
    for r in recs:
        r.update(all=allrec["out"], sesall=dict(allrec["ses"], none=""))
    c.note("item_programs", sum(len(r["out"]) for r in recs))
    c.note("sessions_compared", sum(len(r["ses"]) for r in recs))
    c.samples.append({"feats": allrec["feats"], "items": sorted(allrec["out"])})
    for line, why in validate("T_Features", {}, jl(recs), c.tmp, c.stats, label="features", view=None, max_reject=1 + len(c.known)):
        t = json.loads(line)
        differ = {i: [t["out"].get(i), t["all"].get(i)] for i in t["out"] if t["out"].get(i) != t["all"].get(i)}
        sdiff = [l for k, l, _ in pool if t["ses"].get(l["id"], 0) != t["sesall"].get(l["id"], 0) and l["id"] in t["ses"]][:3]
        c.rejected("features", {"feats": t["feats"]}, {"msg": t.get("msg"), "differ": differ, "sessions": sdiff}, why[:2000])
    # corrupted records have to be rejected
    bad = json.loads(json.dumps(allrec))
    bad["out"]["writer"] = bad["out"].get("writer", "") + "x"
    miss = json.loads(json.dumps(allrec))
    miss["out"].pop("style", None)
    for x in (bad, miss):
        if not validate("T_Features", {}, jl([x]), c.tmp, Stats(), label="selftest", view=None):
            raise ToolError("self test: a corrupted record was accepted")


PROPS = {"C26": c26, "C25": c25, "C24": c24, "C23": c23, "C22": c22, "C21": c21, "C20": c20, "C16": c16, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C18": c18, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09,
         "C10": c10, "C11": c11, "C17": c17, "C19": c19}

LEVEL = "model_checking"


def evidence(c, wall, violations):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    cov = {"states": c.stats.states, "transitions": c.stats.transitions,
           "traces_validated_against_impl": c.stats.traces, "tlc_runs": c.stats.runs,
           "samples": [clip(s) for s in c.samples[:3]] or ["none"]}
    cov.update(c.stats.notes)
    e = {"property": c.prop, "tier": TIER, "seed": SEED, "level": LEVEL, "coverage": cov,
         "assumptions": c.assumptions or ["see level_note in MANIFEST.json"], "wall_s": round(wall, 2), "violations": violations}
    with open(os.path.join(ROOT, "evidence", c.prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(e, f, indent=1, ensure_ascii=False)
        f.write("\n")


def clip(s):
    t = json.dumps(s, ensure_ascii=False)
    return s if len(t) < 3000 else t[:3000] + "..."


def main():
    prop = sys.argv[1]
    if prop == "setup":
        # only warms what can be kept; every check builds what it needs
        build_harness(profiles=tuple(PROFILES))
        return 0
    if TIER not in ("quick", "thorough") or prop not in PROPS:
        print("usage: run.py PROPERTY (VERIF_TIER=quick|thorough)", file=sys.stderr)
        return 2
    t = time.time()
    try:
        c = Ctx(prop)
        try:
            PROPS[prop](c)
        except Violation as v:
            d = os.path.join(BUILD, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s.json" % prop)
            with open(path, "w", encoding="utf-8") as f:
                json.dump(v.data, f, indent=1, ensure_ascii=False)
            evidence(c, time.time() - t, 1)
            print(str(v.data.get("why", ""))[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        evidence(c, time.time() - t, 0)
        log("held: %d states, %d transitions, %d traces" % (c.stats.states, c.stats.transitions, c.stats.traces))
        print("OK property=%s" % prop)
        return 0
    except ToolError as e:
        print("ERROR %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
