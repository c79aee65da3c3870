"""Random scenarios (operation trees). Only inputs are made here; what they mean is in the specification."""
import random

COLORS = ["default", "black", "red", "green", "yellow", "blue", "magenta", "cyan", "white", "brightblack", "brightred",
          "brightgreen", "brightyellow", "brightblue", "brightmagenta", "brightcyan", "brightwhite"]
INTENS = ["normal", "bold", "faint"]
DEFAULT = ["default", "default", "normal"]
# ways to show an attributed value through a standard trait
STD_KINDS = (2, 3, 8, 9)
KEYS = ["", "fg=red", "fg=green", "fg=default", "bg=blue", "bg=default", "bg=brightcyan", "bold", "faint", "normal",
        "fg=red,bold", "bold,fg=brightwhite", "fg=red,fg=blue", "bg=yellow,fg=magenta,faint",
        "fg=default,bg=default,normal", "bold,faint,normal,bold", "fg=black,bg=white,"]
LENGTHS = [1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097,
           8191, 8192, 8193]
HUGE = [16384, 32767, 32768, 65535, 65536, 65537, 131072]
MULTI = ["é", "ß", "漢", "🦀", "e\u0301", "\u200d", "\u202e", "Ω", "\u00a0", "\ufeff", "\U0010ffff", "\ufffd", "\u0080", "\u07ff", "\u0800"]
HTMLISH = ["<", ">", "&", "\"", "'", "&amp;", "&lt;", "&#60;", "&#x3c", "&amp", "<b>", "</span>", "<!--", "-->", "<![CDATA[", "]]>", "&&",
           "<span style=color:red>", "=", ";", "&notit;", "<?", "</", "&;", "&#;", "`", "/>", "<script>", "&quot;", "&#39;", "<é>", "--!>",
           "&l", "t;", "&#3", "4;", "&#x", "amp;", "%3C"]
ESCISH = ["\x1b[31m", "\x1b", "\x1b[0m", "\x1b[", "[31m", "m", "0m", "\x1b]0;x\x07", "1;2", "\x1b[1;2m", ";"]
WS = ["\r", "\r\n", "\n", " ", "\t", "  ", "\n\n", "a\nb", "{", "}", "{}", "{{", "}}", "%s", "\\", "\\n", "\u2028"]


class Gen:
    def __init__(self, seed, html=False, ansi=False, latin=False):
        self.r = random.Random(seed)
        self.html, self.ansi = html, ansi
        self.palette = [DEFAULT]
        self.boom = 0.0

    def style(self):
        r = self.r
        x = r.random()
        if x < 0.65 and self.palette:
            return list(r.choice(self.palette))
        if x < 0.8 and self.palette:
            # differs in one component
            s = list(r.choice(self.palette))
            i = r.randrange(3)
            s[i] = r.choice(INTENS if i == 2 else COLORS)
            return s
        return [r.choice(COLORS), r.choice(COLORS), r.choice(INTENS)]

    def new_palette(self, n=None):
        r = self.r
        self.palette = [DEFAULT] + [[r.choice(COLORS), r.choice(COLORS), r.choice(INTENS)] for _ in range(n or r.randint(1, 4))]
        if r.random() < 0.5:
            # related styles, for switching bold and faint
            f, b = r.choice(COLORS), r.choice(COLORS)
            self.palette += [[f, b, i] for i in INTENS]

    def word(self):
        r = self.r
        return "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789") for _ in range(r.randint(1, 8)))

    def text(self, long=0.02, special=0.3, esc=0.03, empty=0.12):
        r = self.r
        x = r.random()
        if x < empty:
            return ""
        if x < empty + long:
            n = r.choice(LENGTHS)
            unit = r.choice(["x", "ab", "é", "漢", "🦀", "<", "a&", " ", "\n"])
            t = (unit * n)[:n]
            return t if r.random() < 0.5 else r.choice(["", "a", "é"]) + t
        if x < empty + long + special:
            return "".join(r.choice(r.choice([MULTI, HTMLISH, WS])) for _ in range(r.randint(1, 4)))
        if x < empty + long + special + esc and self.ansi:
            return "".join(r.choice(ESCISH) for _ in range(r.randint(1, 3)))
        return self.word()

    def restyle(self, depth=0):
        r = self.r
        ks = ["fg", "bg", "int", "fg", "bg", "int", "style", "diff", "unit", "none", "diffof"]
        if depth < 4:
            ks += ["some", "pair", "pair", "triple", "seq", "seq", "ref", "user", "box"]
        k = r.choice(ks)
        sub = lambda: self.restyle(depth + 1)
        d = {"k": k}
        if k in ("fg", "bg"):
            d["c"] = r.choice(COLORS)
        elif k == "int":
            d["i"] = r.choice(INTENS)
        elif k == "style":
            d["s"] = self.style()
        elif k == "diff":
            d["d"] = [r.choice(COLORS + ["none"] * 10), r.choice(COLORS + ["none"] * 10), r.choice(INTENS + ["none"] * 2)]
        elif k in ("some", "ref", "box"):
            d["r"] = sub()
        elif k == "pair":
            d["a"], d["b"] = sub(), sub()
        elif k == "triple":
            d["a"], d["b"], d["c"] = sub(), sub(), sub()
        elif k in ("seq", "user"):
            d["rs"] = [sub() for _ in range(r.choice([0, 1, 2, 3]))] if r.random() < 0.93 else \
                [self.restyle(4) for _ in range(r.choice([4, 5, 6, 8, 9, 16, 17, 33]))]
        elif k == "diffof":
            d["from"], d["to"] = self.style(), self.style()
        return d

    def body(self, depth, size, fail=0.0, std=False, instr=False, attr=None):
        """A list of nested operations."""
        r = self.r
        ops = []
        for _ in range(size):
            if self.boom and r.random() < self.boom:
                ops.append({"o": "boom"} if r.random() < 0.6 or depth <= 0 else
                           {"o": "guard", "b": self.body(depth - 1, r.randint(0, 3), fail, std, instr)})
                continue
            x = r.random()
            if fail and x < fail:
                ops.append({"o": "fail"} if r.random() < 0.5 or depth <= 0 else
                           {"o": "try", "b": self.body(depth - 1, r.randint(0, 3), fail, std, instr)})
                continue
            if std:
                if fail and r.random() < 0.1 and depth > 0:
                    ops.append({"o": "try", "b": self.body(depth - 1, r.randint(0, 3), fail, True, instr)})
                else:
                    ops.append({"o": "t", "t": self.text(esc=0 if instr else 0.03), "m": r.randint(0, 2)})
                continue
            if depth <= 0 or x < 0.42:
                ops.append({"o": "t", "t": self.text(esc=0 if instr else 0.03), "m": r.randint(0, 9)})
            elif x < 0.52:
                ops.append({"o": "sw", "t": self.text(esc=0 if instr else 0.03), "s": self.style(), "m": r.randint(0, 2)})
            elif x < 0.7:
                ops.append({"o": "with", "r": self.restyle(2), "b": self.body(depth - 1, r.randint(0, 4), fail, False, instr)})
            elif x < 0.85:
                k = r.randint(0, 9)
                ops.append({"o": "attr", "key": r.choice(KEYS), "k": k,
                            "b": self.body(depth - 1, r.randint(0, 4), fail, k in STD_KINDS, instr)})
            elif x < 0.93:
                ops.append({"o": "args", "m": r.randint(0, 8), "b": self.body(depth - 1, r.randint(0, 4), fail, False, instr)})
            else:
                ops.append({"o": "str", "m": r.randint(0, 2), "b": self.body(depth - 1, r.randint(0, 4), fail, False, True)})
        return ops

    def spine(self, depth):
        """Nesting as deep as asked for, with text before and after every scope."""
        r = self.r
        ops = [{"o": "t", "t": "0", "m": 0}]
        for i in range(depth):
            k = r.choice(["with", "attr", "args"])
            inner = [{"o": "t", "t": self.word(), "m": r.randint(0, 3)}] + ops + [{"o": "t", "t": self.word(), "m": 0}]
            if k == "with":
                ops = [{"o": "with", "r": self.restyle(3), "b": inner}]
            elif k == "attr":
                ops = [{"o": "attr", "key": r.choice(KEYS), "k": r.choice([0, 1, 4, 5, 6, 7]), "b": inner}]
            else:
                ops = [{"o": "args", "m": r.randint(0, 8), "b": inner}]
            if r.random() < 0.3:
                ops.append({"o": "t", "t": self.word(), "m": 0})
        return ops

    def top(self, n, depth=3, fail=0.0, clones=True, fmt=0.45, long=0.02):
        """A list of operations on a writer (without the final one)."""
        r = self.r
        ops = []
        for _ in range(n):
            x = r.random()
            if x < fmt:
                ops.append({"o": "fmt", "via": r.randint(0, 5), "b": self.body(r.randint(0, depth), r.randint(0, 4), fail)})
            elif x < 0.85:
                ops.append({"o": "w", "t": self.text(long=long), "s": self.style()})
            elif x < 0.93:
                t = self.text(long=0, esc=0, empty=0)
                ops.append({"o": "c", "t": t[0], "s": self.style()})
            elif clones:
                ops.append(r.choice([{"o": "clone"}, {"o": "clone", "m": 1}, {"o": "fork"}, {"o": "flush"}]))
        return ops


# ------------------------------------------------------------------------------------------------
def sessions(seed, n, backends, fail=0.0, long=0.02, clones=True, raw=False, prefix="r", boom=0.0):
    out = []
    for i in range(n):
        be = backends[i % len(backends)]
        g = Gen(seed * 1000003 + i, ansi=be in ("ansi", "ioansi", "ioplain", "plain", "rec"))
        g.new_palette()
        g.boom = boom
        k = g.r.random()
        if k < 0.03:
            ops = [{"o": "fmt", "via": g.r.randint(0, 5), "b": g.spine(g.r.choice([8, 20, 40]))}]
        elif k < 0.08:
            # long histories of short writes
            ops = [{"o": "w", "t": g.text(long=0), "s": g.style()} for _ in range(g.r.choice([40, 100, 300]))]
        elif k < 0.10:
            n_ = g.r.choice(LENGTHS[-12:])
            ops = [{"o": "w", "t": g.r.choice(["a", "é", "漢"]) * n_, "s": g.style()}, {"o": "w", "t": g.text(), "s": g.style()}]
        else:
            ops = g.top(g.r.choice([1, 2, 3, 5, 8, 12]), g.r.choice([1, 2, 3, 5]), fail, clones, long=long)
        if be == "string":
            ops = [o for o in ops if o["o"] != "flush"]
            ops = with_shows(g, ops)
        ops.append({"o": "finish"})
        line = {"id": "%s%d" % (prefix, i), "be": be, "ops": ops}
        if raw:
            line["raw"] = True
        out.append(line)
    return out


def with_shows(g, ops):
    out = []
    for o in ops:
        out.append(o)
        if g.r.random() < 0.35:
            out.append(show(g))
    out.append(show(g))
    if g.r.random() < 0.5:
        out.append(show(g))
    return out


def show(g):
    return {"o": "show", "r": g.restyle(2), "m": g.r.choice([0, 1, 2, 9])}


# ------------------------------------------------------------------------------------------------
# the same text in other splits
def split_ops(g, ops, be):
    """Another history with the same styled text."""
    out = []
    for o in ops:
        if g.r.random() < 0.25:
            out.append({"o": "w", "t": "", "s": g.style()})
        if o["o"] == "w":
            for p in cut(g, o["t"]):
                out.append({"o": "w", "t": p, "s": o["s"]})
        elif o["o"] == "c":
            out.append({"o": "w", "t": o["t"], "s": o["s"]} if g.r.random() < 0.5 else o)
        elif o["o"] == "fmt":
            out.append(dict(o, b=split_body(g, o["b"])))
        elif o["o"] == "show":
            out.append(o)
        else:
            out.append(o)
    return out


def cut(g, t):
    """t in pieces, some of them empty."""
    r = g.r
    if len(t) > 300:
        pos = sorted(r.randrange(len(t) + 1) for _ in range(r.randint(1, 6)))
    else:
        pos = sorted(r.randrange(len(t) + 1) for _ in range(r.choice([0, 1, 2, 3])))
        if r.random() < 0.15:
            pos = list(range(len(t)))
    pos = [0] + pos + [len(t)]
    return [t[a:b] for a, b in zip(pos, pos[1:])]


def split_body(g, ops):
    out = []
    for o in ops:
        if g.r.random() < 0.15:
            out.append({"o": "t", "t": "", "m": g.r.choice([0, 2])})
        if o["o"] in ("t", "sw"):
            out += [dict(o, t=p) for p in cut(g, o["t"])]
        elif "b" in o:
            if o["o"] == "attr" and o["k"] in STD_KINDS:
                out.append(dict(o, b=split_body_std(g, o["b"])))
            else:
                out.append(dict(o, b=split_body(g, o["b"])))
        else:
            out.append(o)
    return out


def split_body_std(g, ops):
    out = []
    for o in ops:
        if o["o"] == "t":
            out += [dict(o, t=p) for p in cut(g, o["t"])]
        elif "b" in o:
            out.append(dict(o, b=split_body_std(g, o["b"])))
        else:
            out.append(o)
    return out


# ------------------------------------------------------------------------------------------------
# byte sinks
ERRS = """AddrInUse AddrNotAvailable AlreadyExists ArgumentListTooLong BrokenPipe ConnectionAborted ConnectionRefused ConnectionReset
    CrossesDevices Deadlock DirectoryNotEmpty ExecutableFileBusy FileTooLarge HostUnreachable InvalidData InvalidFilename InvalidInput
    IsADirectory NetworkDown NetworkUnreachable NotADirectory NotConnected NotFound NotSeekable OutOfMemory Other PermissionDenied
    QuotaExceeded ReadOnlyFilesystem ResourceBusy StaleNetworkFileHandle StorageFull TimedOut TooManyLinks UnexpectedEof Unsupported
    WouldBlock WriteZero""".split() + ["BrokenPipe", "WouldBlock", "TimedOut", "UnexpectedEof", "Other", "WriteZero"] * 2
# of the operating system (EINTR, which means an interruption, is not one of them)
CODES = [32, 11, 5, 28, 104] * 5 + [i for i in range(1, 134) if i != 4]


def io_huge(seed, sizes, mode):
    """Very long buffers, handed over whole and taken in few pieces."""
    out = []
    ends = ["\n", " ", "z", "\0", "é", "\n\n", "\r\n", "\n\n\n", "  ", "\t\n"]
    for i, (n, be, end) in enumerate((n, be, end) for n in sizes for end in ends for be in ["ioansi", "ioplain", "iouser"]):
        r = random.Random(seed * 31 + i)
        u = r.choice(["a", "ab", "é", "x\n", "漢", " "])
        start = r.choice(["", "\n", " ", "\0", "é", "a\nb", "x" * 1500 + "\n"])
        t = start + (u * n)[:n - len(start) - len(end)] + end
        s = [r.choice(COLORS), "default", r.choice(INTENS)]
        ops = [{"o": "wr", "t": t, "s": s, "via": i % 4}] if mode == "loop" else \
            [{"o": "all", "t": t, "s": s, "via": i % 4}, {"o": "fmt", "via": r.choice([0, 1, 3, 4]), "b": [{"o": "t", "t": t, "m": 0}]}][::r.choice([1, -1])]
        soft = [["half"], ["most"], ["full"], ["err", "Interrupted", 3], 65536, 8192, 1]
        script = [r.choice(soft) for _ in range(r.choice([0, 3, 8]))]
        if mode == "hard":
            script.insert(r.randint(0, len(script)), outcome(r, True))
        out.append({"id": "h%d" % i, "be": be, "ops": ops + [{"o": "all" if mode != "loop" else "wr", "t": "x", "s": DEFAULT, "via": 0}, {"o": "finish"}],
                    "script": script, "flush": []})
    return out


def outcome(r, fatal):
    x = r.random()
    if fatal:
        if x < 0.25:
            return ["zero"]
        if x < 0.65:
            return ["err", r.choice(ERRS), r.randint(1, 99)]
        if x < 0.8:
            return ["os", r.choice(CODES)]
        return ["kind", r.choice(ERRS)]
    if x < 0.3:
        return r.choice([["one"], r.randint(1, 4), ["most"], ["half"], r.randint(5, 40)])
    if x < 0.55:
        return r.choice([["err", "Interrupted", 3], ["os", 4], ["kind", "Interrupted"]])
    return ["full"]


def io_text(g, long=0.05):
    r = g.r
    x = r.random()
    if x < 0.1:
        return ""
    if x < 0.1 + long:
        n = r.choice(LENGTHS)
        return (r.choice(["x", "ab", "é", "漢"]) * n)[:n]
    if x < 0.5:
        return "".join(r.choice(MULTI) for _ in range(r.randint(1, 5)))
    return g.word() + r.choice(["", " ", "\n"])


def io_body(g, depth, size, fail):
    """Like body, but sink errors are never handled by the displayed values."""
    def strip(ops):
        out = []
        for o in ops:
            if o["o"] == "try":
                out += strip(o["b"])
                continue
            if "b" in o:
                o = dict(o, b=strip(o["b"]))
            out.append(o)
        return out
    # formatting into attributed strings has nothing to do with the sink
    return strip(g.body(depth, size, fail))


def io_runs(seed, n, mode, prefix="x"):
    """mode: soft (shorts and interruptions), hard (with a fatal error), loop (single writes)"""
    out = []
    for i in range(n):
        g = Gen(seed * 7919 + i)
        g.new_palette()
        r = g.r
        be = ["ioansi", "ioplain", "ioansi", "iouser", "ioansi"][i % 5]
        ops = []
        for _ in range(r.choice([1, 2, 3, 5, 8])):
            x = r.random()
            if x < 0.08:
                ops.append({"o": "flush", "via": r.randint(0, 3)})
            elif mode == "loop":
                o = {"o": "wr", "t": io_text(g, 0.02), "s": g.style(), "via": r.randint(0, 3)}
                if r.random() < 0.25:
                    o["once"] = True
                ops.append(o)
            elif x < 0.55:
                ops.append({"o": "all", "t": io_text(g), "s": g.style(), "via": r.randint(0, 3)})
            else:
                ops.append({"o": "fmt", "via": r.randint(0, 5), "b": io_body(g, r.randint(0, 3), r.randint(0, 4),
                                                                           0.08 if mode == "hard" and r.random() < 0.3 else 0)})
        ops.append({"o": "finish"})
        k = r.choice([4, 10, 30, 80])
        soft = r.random()
        script = [outcome(r, False) if r.random() < soft * 1.5 else ["full"] for _ in range(k)]
        if mode != "loop" and r.random() < 0.15:
            # the same over and over
            at = r.randrange(len(script))
            again = r.choice([["err", "Interrupted", 3], ["os", 4], ["kind", "Interrupted"], ["one"]])
            script[at:at] = [again] * r.choice([8, 17, 33, 65, 129, 260, 1100])
        if mode == "hard" and r.random() < 0.9:
            script[r.randrange(len(script))] = outcome(r, True)
        if mode == "loop":
            script = [outcome(r, True) if r.random() < 0.2 else s for s in script]
        flush = [r.choice([["ok"], ["err", r.choice(ERRS + ["Interrupted"]), r.randint(1, 99)], ["os", 5]]) for _ in range(4)]
        if mode == "soft":
            flush = []
        out.append({"id": "%s%d" % (prefix, i), "be": be, "ops": ops, "script": script, "flush": flush})
    return out
