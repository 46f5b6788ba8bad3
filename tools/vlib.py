"""Building, running and recording the code under test; running TLC; evidence."""
import atexit, fcntl, hashlib, json, os, random, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
REPO = "/repo"
CORES = os.cpu_count() or 4
HOOKED = ("lyra2mod", "cubehash", "bmw")


class ToolError(Exception):
    pass


class Timeout(ToolError):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


# ------------------------------------------------------------------ calls
class Blob:
    """a long argument of which only the length matters here"""
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


class Call:
    """One call of a library function.  text is the harness's plan syntax."""
    __slots__ = ("text",)

    def __init__(self, text):
        self.text = text

    @staticmethod
    def one(fn, data):
        return Call("%s %s" % (fn, data.hex() or "-"))

    @staticmethod
    def lyra(k, pwd, salt, t, r, c, mod=False):
        return Call("%s %d %d %d %d %s %s" % ("lyra2mod" if mod else "lyra2", k, t, r, c,
                                              pwd.hex() or "-", salt.hex() or "-"))

    @property
    def fn(self):
        return self.text.split(" ", 1)[0]

    def fields(self):
        t = self.text.split(" ")
        unhex = lambda s: b"" if s == "-" else Blob(int(s[1:])) if s[0] in "zp" else bytes.fromhex(s)
        if t[0] in ("lyra2", "lyra2mod"):
            return dict(fn=t[0], k=int(t[1]), t=int(t[2]), r=int(t[3]), c=int(t[4]),
                        pwd=unhex(t[5]), salt=unhex(t[6]))
        return dict(fn=t[0], input=unhex(t[1]))

    def accepted(self):
        f = self.fields()
        if f["fn"] == "lyra2sum":
            f.update(pwd=f["input"], salt=f["input"], t=1, r=4, c=4)
        elif "input" in f:
            return True
        b = (len(f["pwd"]) + len(f["salt"]) + 48) // 64 + 1
        return f["t"] >= 1 and f["r"] >= 3 and f["c"] >= 1 and 8 * b <= 12 * f["r"] * f["c"]

    def cost_ms(self):
        """rough TLC time (one core) for the full machine"""
        f = self.fields()
        if "input" in f:
            base = {"lyra2re": 250, "lyra2rev2": 250, "lyra2rev3": 200, "lyra2z": 900,
                    "lyra2sum": 40, "cubehash": 60, "bmw": 20}[f["fn"]]
            return base + len(f["input"]) * 0.2
        if not self.accepted():
            return 2
        cells = (f["t"] + 1) * f["r"] * f["c"]
        return 5 + 1.2 * cells + (len(f["pwd"]) + len(f["salt"])) * 0.1 + f["k"] * 0.1 \
            + (f["r"] / 2000.0) ** 2 * 1000 * (f["t"] + 1)

    def brief(self, n=120):
        return self.text if len(self.text) <= n else self.text[:n] + "...(%d chars)" % len(self.text)


def record(call, outcome, out):
    """the recorded call as a TraceCalls log line"""
    f = call.fields()
    r = {k: (list(v) if isinstance(v, bytes) else v) for k, v in f.items()}
    r["outcome"] = outcome
    r["out"] = list(bytes.fromhex(out)) if outcome == "ok" and out != "-" else []
    return r


# ------------------------------------------------------------------ build
class Harness:
    def __init__(self, path, hooks, profile):
        self.path, self.hooks, self.profile = path, hooks, profile


def _cargo(profile, hooks, target, bins):
    env = dict(os.environ)
    for v in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(v, None)
    env.update(CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               RUSTFLAGS="--cfg lyra2_verif" if hooks else "")
    hd = os.path.join(VERIF, "harness")
    # never trust time stamps: the crate under test and the harness are always rebuilt
    subprocess.run(["cargo", "clean", "--offline", "-p", "lyra2", "-p", "harness"] +
                   ([] if profile == "dev" else ["--profile", profile]),
                   cwd=hd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--profile", profile] +
                       [x for b in bins for x in ("--bin", b)],
                       cwd=hd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout, os.path.join(target, "debug" if profile == "dev" else profile)


def build(profile="release", bins=("harness",)):
    """Build the harness against /repo's working tree.  Falls back to the public interface
    when the guarded hooks no longer compile against refactored private items."""
    os.makedirs(OUT, exist_ok=True)
    if "VERIF_DICT" not in os.environ:
        d = os.path.join(OUT, "dict-%d" % os.getpid())
        dictionary(d)
        os.environ["VERIF_DICT"] = d
        atexit.register(lambda: os.path.exists(d) and os.remove(d))
    with open(os.path.join(OUT, "build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        log = ""
        for hooks in (True, False):
            target = os.path.join(OUT, "target-hooks" if hooks else "target-plain")
            rc, log, at = _cargo(profile, hooks, target, bins)
            if rc == 0:
                fd = os.path.join(OUT, "bin")
                os.makedirs(fd, exist_ok=True)
                dst = lambda b: os.path.join(fd, "%s-%s-%d" % (b, profile, os.getpid()))
                for b in bins:
                    shutil.copy2(os.path.join(at, b), dst(b))
                h = Harness(dst("harness"), hooks, profile)
                h.mem, h.effects = dst("mem"), dst("effects")
                h.odd = Harness(dst("odd"), hooks, profile)
                return h
        raise ToolError("cargo build failed (%s):\n%s" % (profile, log[-3000:]))


def dictionary(path, repo=REPO):
    """Numbers and strings of the source text, to try as arguments.  What is tried depends on the
    text; what is reported depends on behaviour alone."""
    nums, words, strs = set(), set(), set()
    lit = r"(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)"

    def val(t):
        t = t.replace("_", "")
        return int(t, 0) if t[:2] in ("0x", "0b", "0o") else int(t)
    suf = r"(?:_?[ui](?:8|16|32|64|128|size))?"
    for root, _, files in os.walk(os.path.join(repo, "src")):
        for f in sorted(files):
            if not f.endswith(".rs"):
                continue
            text = open(os.path.join(root, f), errors="replace").read()
            text = re.sub(r"//[^\n]*", "", text)
            for m in re.finditer(r"(?<![\w.])(%s)%s\b" % (lit, suf), text):
                words.add(val(m.group(1)))
            # products, shifts and sums of literals
            for m in re.finditer(r"(?<![\w.])%s%s(?:\s*(?:\*|<<|\+|-)\s*%s%s\b)+" % (lit, suf, lit, suf), text):
                t = re.sub(r"(%s)%s\b" % (lit, suf), lambda k: str(val(k.group(1))), m.group(0))
                if re.fullmatch(r"[\d\s*<+\-]+", t) and all(int(x) < 64 for x in re.findall(r"<<\s*(\d+)", t)):
                    words.add(abs(eval(t)))
            for m in re.finditer(r"(?<![\w.])(%s)%s\s*\.\s*pow\((\d+)\)" % (lit, suf), text):
                if int(m.group(2)) < 64:
                    words.add(val(m.group(1)) ** int(m.group(2)))
            for m in re.finditer(r"""(b?)"((?:[^"\\\n]|\\.){1,64})\"""", text):
                t = m.group(2)
                strs.add(re.sub(r"\\x([0-9a-fA-F]{2})", lambda k: chr(int(k.group(1), 16)), t).encode("latin-1", "replace"))
                if re.fullmatch(r"(?:[0-9a-fA-F]{2})+", t):
                    strs.add(bytes.fromhex(t))
            for m in re.finditer(r"'([ -~])'", text):
                words.add(ord(m.group(1)))
    words = {w for w in words if w < 1 << 64}
    for w in words:
        for x in (w - 1, w, w + 1, w // 8, 8 * w, 2 * w, 12 * w, 96 * w):
            if 0 <= x <= 1 << 23:
                nums.add(x)
    with open(path, "w") as o:
        for n in sorted(nums):
            o.write("n %d\n" % n)
        for w in sorted(words):
            o.write("w %d\n" % w)
        for s in sorted(strs):
            if s:
                o.write("s %s\n" % s.hex())
    return len(nums), len(words), len(strs)


# --------------------------------------------------------------- running
def parse_exec(text):
    res, begun = {}, None
    for line in text.splitlines():
        t = line.split(" ")
        if len(t) == 2 and t[1] == "begin":
            begun = int(t[0])
        elif len(t) == 5:
            res[int(t[0])] = (t[1], t[2], int(t[3]), int(t[4]))
            if begun == int(t[0]):
                begun = None
    return res, begun


DEATHS = (signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP)


def run_calls(h, calls, mode="exec", threads=None, timeout=600, restart=True, env=None, wrap=()):
    """Run calls in order in one process (a new one only after a hang or a crash).
    Returns a list of (outcome, hex, start, end) or None for calls that were not reached."""
    n = len(calls)
    got = [None] * n
    todo = list(range(n))
    tries = 0
    while todo and tries < 12:
        tries += 1
        plan = "".join("%d %d %s\n" % (i, threads[i] if threads else 0, calls[i].text) for i in todo)
        try:
            p = subprocess.run(list(wrap) + [h.path, mode, "/dev/stdin", "/dev/stdout"], input=plan.encode(), env=dict(os.environ, **(env or {})),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("harness %s did not end within %d s" % (mode, timeout))
        res, begun = parse_exec(p.stdout.decode())
        for i, r in res.items():
            got[i] = r
        if p.returncode == 0:
            break
        if p.returncode == 3:            # hang recorded; go on after it
            pass
        elif -p.returncode in DEATHS:
            if mode == "exec":
                got[begun] = ("abort", "-", 0, 0)
            else:                        # the process died: nothing of this run returned
                for i in todo:
                    if got[i] is None:
                        got[i] = ("abort", "-", 0, 0)
        else:
            raise ToolError("harness exit %d: %s" % (p.returncode, p.stderr.decode()[-500:]))
        if not restart:
            break
        todo = [i for i in todo if got[i] is None]
    return got


def run_alone(h, call):
    """the call as the only one of a fresh process"""
    return run_calls(h, [call])[0][:2]


def reference(h, call, timeout=300):
    """the outcome by the fast transcription of the specification"""
    p = subprocess.run([h.path, "ref", "/dev/stdin"], input=("0 0 %s\n" % call.text).encode(),
                       stdout=subprocess.PIPE, timeout=timeout)
    t = p.stdout.decode().split()
    return t[1], t[2]


def run_parallel(h, calls):
    """independent calls, spread over processes"""
    parts = [list(range(i, len(calls), CORES)) for i in range(CORES)]
    got = [None] * len(calls)

    def go(ix):
        return ix, run_calls(h, [calls[i] for i in ix])
    with ThreadPoolExecutor(CORES) as ex:
        for ix, rs in ex.map(go, [p for p in parts if p]):
            for i, r in zip(ix, rs):
                got[i] = r
    return got


def alone_table(h, calls):
    with ThreadPoolExecutor(CORES) as ex:
        return list(ex.map(lambda c: run_alone(h, c), calls))


def screen(h, scratch, focus, seed, random_blocks, cmp="value", sample=100, sample_cost=400,
           threads=None, max_s=300, max_cost=3200000, first=0, keep=40):
    """Look at many generated calls; returns (bad, sample, stats).
    bad: [(call, outcome, hex, block, index)] - calls to be judged by TLC."""
    out = os.path.join(scratch, "screen-%s-%s-%d" % (focus, cmp, first))
    threads = threads or CORES
    args = [h.path, "screen", "focus=" + focus, "seed=%d" % seed, "random=%d" % random_blocks,
            "cmp=" + cmp, "sample=%d" % sample, "sample_cost=%d" % sample_cost, "threads=%d" % threads,
            "max_s=%d" % max_s, "max_cost=%d" % max_cost, "first=%d" % first, "keep=%d" % keep, "out=" + out]
    p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    bad, smp, stats = [], [], dict(focus=focus, calls=0, blocks=0, in_domain=0, err="")
    if p.returncode in (0, 3):
        for line in open(out):
            t = line.rstrip("\n").split(" ")
            if t[0] == "calls":
                stats.update(calls=int(t[1]), in_domain=int(t[2]), blocks=int(t[3]), ms=int(t[4]))
            else:
                call = Call(" ".join(t[3:-2]))
                e = (call, t[-2], t[-1], int(t[1]), int(t[2]))
                (bad if t[0] == "bad" else smp).append(e)
    elif -p.returncode in DEATHS:
        # the process died: the calls in flight did not return
        stats["err"] = p.stderr.decode(errors="replace")
        for i in range(threads):
            j = open(out + ".j%d" % i, "rb").read()
            b, ix = int.from_bytes(j[:8], "little"), int.from_bytes(j[8:16], "little")
            if ix:
                g = subprocess.run([h.path, "gen", focus, str(seed), str(b), str(ix - 1)],
                                   stdout=subprocess.PIPE, text=True)
                c = Call(g.stdout.strip())
                alone = run_alone(h, c)
                stats.setdefault("crash", []).append(c.text[:200])
                bad.append((c, "abort", "-", b, ix - 1, alone))
        # calls that crash on their own first
        bad.sort(key=lambda e: e[5][0] != "abort")
        if any(e[5][0] == "abort" for e in bad):
            bad = [e for e in bad if e[5][0] == "abort"]
        bad = [e[:5] for e in bad]
    else:
        raise ToolError("screen %s: exit %d: %s" % (focus, p.returncode, p.stderr.decode()[-500:]))
    return bad, smp, stats


# -------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self):
        self.generated = self.distinct = 0
        self.ok = False
        self.violated = None
        self.fields = {}
        self.output = ""


def tlc(module, cfg, scratch, env=None, workers=None, timeout=800, heap="10g"):
    md = os.path.join(scratch, "md-%s-%d" % (module, int(time.time() * 1e6)))
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    os.makedirs(md, exist_ok=True)
    # TLC unpacks its standard modules into a temporary directory and leaves them there
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss32m -Djava.io.tmpdir=%s" % (heap, md)
    cmd = ["tlc", "-workers", str(workers or CORES), "-metadir", md, "-noGenerateSpecTE",
           "-config", cfg, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise Timeout("TLC %s: no answer in %d s" % (module, timeout))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    r = TlcResult()
    o = r.output = p.stdout
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", o)
    if m:
        r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    if "Model checking completed. No error has been found." in o:
        r.ok = True
        return r
    m = re.search(r"Error: Invariant (\w+) is violated|Error: (Action property|Temporal properties|Deadlock reached)|"
                  r"Error: Property (\w+) is violated", o)
    if not m:
        raise ToolError("TLC %s failed:\n%s" % (module, o[-3000:]))
    r.violated = m.group(1) or m.group(3) or m.group(2)
    for k, v in re.findall(r'^/\\ (\w+) = (.*)$', o, re.M):
        r.fields[k] = v.strip().strip('"')          # last state wins
    return r


def apalache(module, scratch, init, nxt, inv, length, timeout=300):
    """True: the invariant holds after `length` steps from every state of init; False: it does not"""
    d = os.path.join(scratch, "ap-%s-%s-%s-%d" % (init, nxt, inv, length))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    e = dict(os.environ, JVM_ARGS="-Xmx2g")
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        p = subprocess.run(["apalache-mc", "check", "--no-deadlock", "--init=" + init, "--next=" + nxt, "--inv=" + inv,
                            "--length=%d" % length, "--out-dir=" + d, os.path.join(SPEC, module + ".tla")], cwd=d, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Timeout("Apalache %s: no answer in %d s" % (module, timeout))
    if "The outcome is: NoError" in p.stdout:
        return True
    if "The outcome is: Error" in p.stdout:
        return False
    raise ToolError("Apalache %s failed:\n%s" % (module, p.stdout[-2000:]))


def tlaps(module, scratch, edit=None, timeout=300):
    """number of proof obligations proved by TLAPS; None if one of them fails.
    edit: (old, new) in the text of the module, for proofs that must fail"""
    d = os.path.join(scratch, "tlaps-%s-%d" % (module, int(time.time() * 1e6)))
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy2(os.path.join(SPEC, f), d)
    if edit:
        path = os.path.join(d, module + ".tla")
        s = open(path).read()
        if s.count(edit[0]) != 1:
            raise ToolError("%s: the text to edit is not there" % module)
        with open(path, "w") as f:
            f.write(s.replace(*edit))
    try:
        p = subprocess.run(["tlapm", "--cleanfp", "--stretch", "4" if edit is None else "1", module + ".tla"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Timeout("TLAPS %s: no answer in %d s" % (module, timeout))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m = re.search(r"All (\d+) obligations proved", p.stdout)
    if m and p.returncode == 0:
        return int(m.group(1))
    if re.search(r"\d+/\d+ obligations failed", p.stdout):
        return None
    raise ToolError("TLAPS %s failed:\n%s" % (module, p.stdout[-2000:]))


def write_ndjson(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


def extremes(rng, per, top=1 << 17, cells=1 << 19):
    """calls with one large parameter or argument: around powers of two, and numbers of the source text"""
    nums = []
    for line in open(os.environ["VERIF_DICT"]) if os.environ.get("VERIF_DICT") else []:
        if line.startswith("n "):
            nums.append(int(line[2:]))
    nums = [n for n in nums if 8 <= n <= top]
    def values():
        pool = [(1 << e) + d for e in range(6, top.bit_length()) for d in (-1, 0, 1)] + [10 ** e for e in (2, 3, 4, 5)]
        vs = set(rng.sample(pool, min(per, len(pool)))) | set(rng.sample(nums, min(per // 2, len(nums)))) | \
            {(1 << e) + 1 for e in range(6, top.bit_length())}
        return sorted(v for v in vs if v <= top + 1)
    b, out = rng.randbytes, []
    for v in values():
        out.append(Call.lyra(32, b(8), b(8), v, 3, 1))
    for v in values():
        out.append(Call.lyra(32, b(8), b(8), 1, v, 1))
    for v in values():
        out.append(Call.lyra(32, b(8), b(8), 1, 3, v))
    for v in values():
        out.append(Call.lyra(v, b(8), b(8), 1, 4, 4))
    for i in (0, 1):
        for v in values():
            n = 8 * (v // 8)
            if n <= 1 << 16:
                side = next(x for x in range(4, 10**6) if 96 * 4 * x >= n + 200)
                out.append(Call.lyra(32, fill(rng, n) if i == 0 else b(8), b(8) if i == 0 else fill(rng, n), 1, 4, side))
    for f in ("lyra2re", "lyra2rev2", "lyra2rev3", "lyra2z", "lyra2sum"):
        for v in values()[::3]:
            out.append(Call.one(f, b(v)))
    return [c for c in out if c.fn != "lyra2" or (c.fields()["t"] + 1) * c.fields()["r"] * c.fields()["c"] <= cells]


def plan(name, scratch, deep=False):
    out = os.path.join(scratch, "plan-%s.ndjson" % name)
    r = tlc("Plans", "PlansDeep.cfg" if deep else "Plans.cfg", scratch, dict(PLAN=name, OUT=out), workers=1)
    if not r.ok:
        raise ToolError("plan %s" % name)
    return [json.loads(l) for l in open(out)]


def fill(rng, n, style=None):
    style = style or rng.choice(["random"] * 5 + ["zeros", "ones", "text", "sparse", "words"])
    if style == "zeros":
        return bytes(n)
    if style == "ones":
        return b"\xff" * n
    if style == "text":
        return bytes(rng.randrange(32, 127) for _ in range(n))
    if style == "sparse":
        b = bytearray(n)
        if n:
            b[rng.randrange(n)] = 1 << rng.randrange(8)
        return bytes(b)
    if style == "words":
        w = [0, 1, 2**64 - 1, 2**63, 2**63 - 1, 0x80, 1 << 56, 2**32 - 1]
        return b"".join(rng.choice(w).to_bytes(8, "little") for _ in range(n // 8 + 1))[:n]
    return rng.randbytes(n)
