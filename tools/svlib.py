"""Building, running and TLC plumbing shared by all checks. Verdicts come from TLC only."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SV_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
SPEC = os.path.join(ROOT, "spec")
CORES = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    """Not a verdict: the check itself could not be carried out (exit status 2)."""


class Violation(Exception):
    def __init__(self, what, data):
        super().__init__(what)
        self.what, self.data = what, data


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()


def fresh(path):
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path


def cargo(args, cwd, target, timeout=800, env=None, flags=None):
    e = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", **(env or {}))
    e.pop("RUSTFLAGS", None)
    if flags:
        e["RUSTFLAGS"] = flags
    return subprocess.run(["cargo"] + args + ["--offline"], cwd=cwd, env=e, stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, timeout=timeout)


# a build without debug assertions and overflow checks, as release builds are
PLAIN = {"CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false"}
PROFILES = {"dev": ("target", None), "plain": ("target-plain", PLAIN),
            "opt": ("target-opt", dict(PLAIN, CARGO_PROFILE_DEV_OPT_LEVEL="3"))}


# as most programs have it: with what the facade crate turns on and no more
UNBOXED = ["--no-default-features", "--features", "std,macros,ansi,html,plain,cases"]


def build_harness(features=None, target=None, failed=None, profiles=("dev", "plain")):
    """Builds the driver against the working tree of the repository; gives the binary (None if it does not
    build and failed is given). With all features there is a build of each of the profiles."""
    args = ["build", "--bin", "sv"]
    if features is not None:
        args += ["--no-default-features", "--features", ",".join(features)]
    builds = [(target, None, [])]
    if features is None and target is None:
        builds = [(os.path.join(BUILD, PROFILES[p][0]), PROFILES[p][1], UNBOXED if p == "plain" else []) for p in profiles]
        stand_ins()
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda b: cargo(args + b[2], os.path.join(ROOT, "harness"), b[0], env=b[1]), builds):
            if r.returncode != 0 and failed:
                log(r.stderr.decode(errors="replace")[-1500:])
                return None
            if r.returncode != 0:
                raise ToolError("building the harness failed:\n" + r.stderr.decode(errors="replace")[-4000:])
    return os.path.join(builds[0][0], "debug", "sv")


# ------------------------------------------------------------------------------------------------
# Surroundings: what an environment variable says, whichever it is, and whether streams are terminals

def stand_ins():
    src, so = os.path.join(ROOT, "harness", "surround.c"), os.path.join(BUILD, "surround.so")
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, src, "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise ToolError("building the stand-ins failed:\n" + r.stdout.decode(errors="replace"))


SURROUNDINGS = [(None, None), ("1", "1"), ("0", "0"), ("dumb", "1"), ("", "0"), ("never", "1"), ("always", "0"), ("truecolor", "1"),
                (None, "1"), (None, "0"), ("true", "1"), ("C", "0"), ("tr_TR.UTF-8", "1"), ("20", "1"), ("xterm-256color", "1")]


def settings(k):
    """What the k-th surroundings say with the variables that programs look at."""
    value, _ = SURROUNDINGS[k % len(SURROUNDINGS)]
    return {} if value is None else {n: value for n in ("NO_COLOR", "TERM", "COLORTERM", "CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR",
                                                        "CI", "COLUMNS", "LANG", "LC_ALL", "LC_CTYPE", "DEBUG", "STYLISH")}


def surrounded(k):
    """The environment of the k-th surroundings (0: none special)."""
    value, tty = SURROUNDINGS[k % len(SURROUNDINGS)]
    e = dict(os.environ)
    if tty is None:
        return e
    e.update(SV_TOLD=str(k % len(TOLD)))
    e.update(LD_PRELOAD=os.path.join(BUILD, "surround.so"), SV_TTY=tty)
    if value is not None:
        e["SV_ENV"] = value
        # for who lists them
        e.update(settings(k))
    return e


# What else programs are told: arguments, where they stand, what they are called, what time it is
TOLD = [([], "", "", ""), (["--color=never"], "", "", "0"), (["--color", "always", "-v", "--ansi"], "gone", "", ""), (["-"], "/", "sh", "4102444800"),
        (["--no-color", "--plain", "-q", "--help", "--", "x", "dumb"], "", "-x", ""), ([""] * 9, "gone", "less", "951782399"), ([], "/", "", "1767225600")]


def launch(cmd, env):
    """What to run for a command in these surroundings: (command, directory)."""
    if not env or "SV_TOLD" not in env:
        return cmd, None
    args, cwd, name, clock = TOLD[int(env["SV_TOLD"])]
    if clock:
        env["SV_CLOCK"] = clock
    where = tempfile.mkdtemp() if cwd == "gone" else cwd or None
    if cwd == "gone" or name:
        cmd = ["bash", "-c", ("rmdir -- \"$PWD\" && " if cwd == "gone" else "") + "exec %s \"$0\" \"$@\"" % ("-a '%s'" % name if name else "")] + cmd
    return cmd + args, where


def variants(binary):
    """Ways to run the driver: builds and surroundings."""
    plain = binary.replace("/target/debug/", "/target-plain/debug/")
    if plain == binary or not os.path.exists(plain):
        return [(binary, None)]
    return [(binary if k % 2 == 0 else plain, surrounded(k // 2 if k % 4 else 0)) for k in range(2 * len(SURROUNDINGS))]


# ------------------------------------------------------------------------------------------------
# Driver

def drive(binary, cmd, lines, tmp, timeout=120, jobs=CORES, ways=None):
    """Runs `binary cmd` over JSON lines, in parallel and in several surroundings. A crash or a hang becomes
    an event of the line that caused it."""
    n = max(1, min(jobs, max(len(lines) // 20 + 1, min(4, len(lines)))))
    order = list(range(len(lines)))
    if n > 1:
        random.Random(len(lines)).shuffle(order)
    parts = [order[k::n] for k in range(n)]
    ways = ways or variants(binary)

    def part(k):
        todo, out, attempts = [lines[i] for i in parts[k]], [], 0
        exe, env = ways[k % len(ways)]
        while todo:
            inp = "\n".join(todo) + "\n"
            try:
                run, cwd = launch([exe] + cmd, env)
                p = subprocess.run(run, cwd=cwd, input=inp.encode(), stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=timeout, env=env)
                stdout, rc, err = p.stdout, p.returncode, p.stderr
            except subprocess.TimeoutExpired as e:
                stdout, rc, err = e.stdout or b"", "timeout", b""
            got = stdout.decode("utf-8").split("\n")
            got = [g for g in got[:-1] if g]
            if rc == 0 and len(got) == len(todo):
                out += got
                break
            if rc == 3 or (rc == 0 and len(got) != len(todo)):
                raise ToolError("harness: " + err.decode(errors="replace")[-2000:])
            out += got
            culprit = json.loads(todo[len(got)])
            out.append(json.dumps({"id": culprit.get("id", ""), "be": culprit.get("be", ""),
                                   "ev": [{"o": "panic", "msg": "process died: %s" % rc}]}))
            todo = todo[len(got) + 1:]
            attempts += 1
            if attempts > 3:
                # enough to convict
                break
        return list(zip(parts[k], out))

    with ThreadPoolExecutor(len(parts)) as ex:
        res = list(ex.map(part, range(len(parts))))
    return [l for _, l in sorted(x for r in res for x in r)]


# ------------------------------------------------------------------------------------------------
# TLC

STAT = re.compile(r"(\d+) states generated, (\d+) distinct states found")


class Stats:
    def __init__(self):
        self.states = self.transitions = self.traces = self.runs = 0
        self.samples = []
        self.notes = {}

    def add(self, gen, dist):
        self.transitions += gen
        self.states += dist
        self.runs += 1


def write_cfg(path, constants, invariants=(), spec="Spec", view=None, deadlock=True, properties=()):
    s = "SPECIFICATION %s\n" % spec
    for k, v in constants.items():
        s += "CONSTANT %s = %s\n" % (k, v)
    if invariants:
        s += "INVARIANTS %s\n" % " ".join(invariants)
    if properties:
        s += "PROPERTIES %s\n" % " ".join(properties)
    if view:
        s += "VIEW %s\n" % view
    if not deadlock:
        s += "CHECK_DEADLOCK FALSE\n"
    open(path, "w").write(s)


def tlaset(xs):
    return "{" + ", ".join('"%s"' % x for x in sorted(xs)) + "}"


def tlc(module, cfg, tmp, stats, trace=None, workers=1, timeout=840, extra=()):
    """Runs TLC. Gives (ok, output)."""
    meta = fresh(os.path.join(tmp, "md-" + hashlib.md5((cfg + str(trace)).encode()).hexdigest()[:8]))
    env = dict(os.environ)
    env["TRACE"] = trace or ""
    env.pop("JAVA_TOOL_OPTIONS", None)
    # the optimising compiler does not pay for short single-threaded runs
    env["SV_JAVA"] = "-XX:+UseSerialGC -XX:TieredStopAtLevel=1 -Xmx3g" if workers == 1 else "-XX:+UseParallelGC -Xmx12g"
    try:
        p = subprocess.run([os.path.join(ROOT, "tools", "tlc.sh"), "-workers", str(workers), "-metadir", meta,
                            "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module + ".tla"],
                           cwd=SPEC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    out = p.stdout.decode("utf-8", errors="replace")
    shutil.rmtree(meta, ignore_errors=True)
    m = STAT.findall(out)
    if m:
        stats.add(int(m[-1][0]), int(m[-1][1]))
    if p.returncode == 0 and "No error has been found" in out:
        return True, out
    # 11 deadlock, 12 safety, 13 liveness
    if p.returncode in (11, 12, 13):
        return False, out
    raise ToolError("TLC failed on %s (%s):\n%s" % (module, p.returncode, "\n".join(re.findall(r"^Error: .*(?:\n(?!State|Error).*){0,12}", out, re.M))[:3000] + out[-1500:]))


def last_state(out):
    """The last state of a TLC counterexample, as text."""
    i = out.rfind("\nState ")
    return out[i:i + 6000] if i >= 0 else out[-3000:]


def state_var(out, name):
    m = re.findall(r"^/\\ %s = (-?\d+)" % name, out, re.M) or re.findall(r"^%s = (-?\d+)" % name, out, re.M)
    return int(m[-1]) if m else None


def design(module, name, constants, invariants, tmp, stats, properties=(), workers=CORES, timeout=840, scn=True):
    """Model checks a configuration of the design; gives the scenarios it printed."""
    cfg = os.path.join(tmp, "%s-%s.cfg" % (module, name))
    write_cfg(cfg, constants, invariants, deadlock=False, properties=properties)
    ok, out = tlc(module, cfg, tmp, stats, workers=workers, timeout=timeout)
    if not ok:
        # the specification contradicts itself: that is no verdict about the code
        raise ToolError("design error in %s %s:\n%s" % (module, name, out[-6000:]))
    res = []
    for m in re.finditer(r'^"SCN (.*)"$', out, re.M):
        res.append(json.loads(json.loads('"' + m.group(1) + '"')))
    # TLC's order depends on the workers
    res.sort(key=lambda r: json.dumps(r, sort_keys=True))
    return res


BATCH = 4000  # initial states


def validate(module, constants, logs, tmp, stats, invariants=(), view="View", label="", jobs=CORES, tr="tr", max_reject=1):
    """Validates trace lines with a trace specification, in parallel batches. Gives the rejected
    lines as (line, explanation)."""
    if not logs:
        return []
    # batches of about the same number of characters
    order = sorted(range(len(logs)), key=lambda i: -len(logs[i]))
    # No more than BATCH in one: TLC keeps the states waiting to be looked at in memory up to some ten
    # thousands, and from there on in files, where strings lose all but the low byte of each character.
    count = min(jobs, len(logs))
    while len(logs) > count * BATCH * 0.8:
        count += 1
    batches = [[] for _ in range(count)]
    weight = [0] * len(batches)
    for i in order:
        k = min((k for k in range(count) if len(batches[k]) < BATCH), key=weight.__getitem__)
        batches[k].append(logs[i])
        weight[k] += len(logs[i]) + 200
    key = hashlib.md5((module + label + repr(sorted(constants.items()))).encode()).hexdigest()[:8]

    def one(k):
        rejected, todo = [], batches[k]
        cfg = os.path.join(tmp, "%s-%s-%d.cfg" % (module, key, k))
        write_cfg(cfg, constants, invariants, view=view)
        local = Stats()
        while todo and len(rejected) < max_reject:
            path = os.path.join(tmp, "%s-%s-%d.ndjson" % (module, key, k))
            with open(path, "w", encoding="utf-8") as f:
                f.write("\n".join(todo) + "\n")
            ok, out = tlc(module, cfg, tmp, local, trace=path, workers=1)
            if ok:
                break
            i = state_var(out, tr)
            if i is None or not 1 <= i <= len(todo):
                raise ToolError("cannot tell which trace was rejected:\n" + out[-3000:])
            rejected.append((todo[i - 1], last_state(out)))
            todo = todo[:i - 1] + todo[i:]
        return rejected, local

    with ThreadPoolExecutor(min(jobs, len(batches))) as ex:
        res = list(ex.map(one, range(len(batches))))
    out = []
    for rej, local in res:
        out += rej
        stats.states += local.states
        stats.transitions += local.transitions
        stats.runs += local.runs
    stats.traces += len(logs)
    return out
