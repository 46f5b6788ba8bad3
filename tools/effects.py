"""C18: calls act on nothing and depend on nothing but their arguments."""
import os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from history import api_model, nest_model, concrete

MEMORY = {"brk", "mmap", "munmap", "mremap", "madvise", "mprotect", "membarrier"}
WAIT = {"futex", "sched_yield", "nanosleep", "clock_nanosleep", "clock_gettime", "clock_getres", "gettimeofday", "time", "getrandom",
        "sched_getaffinity", "gettid", "getpid", "rt_sigprocmask", "set_robust_list", "rseq", "sigaltstack", "restart_syscall",
        "getcpu", "rt_sigreturn", "prlimit64", "getrlimit", "sysinfo", "uname", "arch_prctl", "getrusage", "times"}
THREAD = {"clone", "clone3", "exit", "set_tid_address"}
LOOK = {"read", "pread64", "close", "fstat", "newfstatat", "statx", "lseek", "getdents64", "ioctl", "fcntl"}
LINE = re.compile(r"^(\d+)\s+(?:(\w+)\((.*)|<\.\.\. (\w+) resumed>.*)$")


def classify(text):
    """strace -f output -> [(event, call id)] with repetitions left out"""
    ev, cur, fds, last = [], None, set(), None
    for line in text.splitlines():
        m = LINE.match(line)
        if not m or not m.group(2):
            continue                    # a resumed call was counted when it began; signals and exits
        name, rest = m.group(2), m.group(3)
        if name == "write" and rest.startswith("-77,"):
            w, i = re.search(r'"(\w+) (\d+)"', rest).groups()
            cur = int(i) if w == "begin" else None
            ev.append((w, int(i)))
            last = None
            continue
        if cur is None:
            continue
        if name in MEMORY:
            e = "memory"
        elif name in WAIT:
            e = "wait"
        elif name in THREAD and not (name.startswith("clone") and "CLONE_THREAD" not in rest):
            e = "thread"
        elif name == "prctl" and "PR_SET_NAME" in rest:
            e = "thread"
        elif name in ("openat", "open", "readlink", "readlinkat", "access", "stat") and re.search(r'"/(proc|sys)/', rest) and \
                not re.search("O_WRONLY|O_RDWR|O_CREAT", rest):
            e = "look"
            r = re.search(r"= (\d+)$", rest)
            if r:
                fds.add(r.group(1))
        elif name in LOOK and rest.split(",")[0].rstrip(")").split(")")[0] in fds:
            e = "look"
        else:
            e = "%s(%s" % (name, rest[:100])
        if e != last:
            ev.append((e, cur))
            last = e
    return ev


def watched(ctx, calls):
    """run the calls under strace; the events of the process"""
    d = os.path.join(ctx.scratch, "fx-%d" % id(calls))
    os.makedirs(d)
    with open(d + "/plan", "w") as f:
        f.writelines("%d %s\n" % (i, c.text) for i, c in enumerate(calls))
    try:
        p = subprocess.run(["strace", "-f", "-q", "-s", "120", "-o", d + "/st", ctx.h.effects, d + "/plan", d + "/out"],
                           cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=ctx.q(240, 1500))
        note = None
        if p.returncode:
            note = "exit %d %s" % (p.returncode, p.stderr.decode()[-200:])
    except subprocess.TimeoutExpired:
        note = "took too long"
    raw = open(d + "/st", errors="replace").read() if os.path.exists(d + "/st") else ""
    if not raw:
        raise ToolError("strace recorded nothing: %s" % note)
    ev = classify(raw)
    if note:
        ctx.notes.append("watched run: %s" % note)
    left = {}
    for line in open(d + "/out") if os.path.exists(d + "/out") else []:
        x = line.split()
        if len(x) == 3 and x[2] != "-":
            left[int(x[0])] = x[2]
    out = []
    for e, i in ev:
        out.append((e, i))
        if e == "end" and i in left:
            out.append(("left:" + left[i], i))
    # files that appeared in the working directory
    extra = sorted(set(os.listdir(d)) - {"plan", "out", "st"})
    shutil.rmtree(d)
    ctx.executed += sum(1 for e in out if e[0] == "end")
    return out, extra


def judge_effects(ctx, hists, what):
    with ThreadPoolExecutor(CORES) as ex:
        got = list(ex.map(lambda h: watched(ctx, h), hists))
    recs = [dict(ev=[e[0] for e in ev]) for ev, _ in got]
    r = ctx._tlc_traces("TraceEffects", recs, what)
    if not r.ok:
        k = int(r.fields["n"]) - 1
        e, i = got[k][0][int(r.fields["pc"]) - 1]
        c = hists[k][i]
        raise Violation("%s: inside or after the call: %s" % (c.brief(), e), ctx.replay_file(dict(
            kind="effects", stage=what, event=e, calls=[x.text for x in hists[k][:i + 1]][-200:])))
    for h, (ev, extra) in zip(hists, got):
        if extra:
            raise ToolError("files appeared without a system call: %s" % extra)
    for h, (ev, _) in list(zip(hists, got))[:2]:
        if len(ctx.samples) < 12:
            ctx.samples.append(dict(stage=what, calls=[c.brief(60) for c in h[:3]], events=[e[0] for e in ev[:12]], length=len(ev)))


# -------------------------------------------------- the same calls elsewhere
def worlds(ctx):
    """[(name, harness path, command prefix, environment)]"""
    h = ctx.h
    so = os.path.join(ctx.scratch, "world.so")
    p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "harness", "world.c"), "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise ToolError("gcc: %s" % p.stdout.decode()[-500:])
    base = {k: os.environ[k] for k in ("PATH",) if k in os.environ}
    ws = [("here", h.path, [], dict(os.environ), None),
          ("odd heap", h.odd.path, [], dict(os.environ), None)]
    for v in ("1", "0", "true", "12"):
        ws.append(("all variables %s, another year" % v, h.path, [], dict(os.environ, LD_PRELOAD=so, WORLD_VALUE=v), None))
    ws.append(("one processor, bare environment, cwd /", h.path, ["taskset", "-c", "0"], base, "/"))
    ws.append(("fixed addresses, low priority", h.path, ["nice", "-n", "10", "setarch", "-R"], dict(base, LC_ALL="tr_TR.UTF-8", TZ="Asia/Kathmandu"), "/tmp"))
    # odd places inside of the program: destructors while unwinding, of thread-locals, thread names
    for place in ("drop", "tls", "nested", "hook", "plain"):
        ws.append(("place: " + place, h.path, [], dict(os.environ, PLACE=place), None))
    # arguments on the command line
    args = []
    for line in open(os.environ["VERIF_DICT"]) if os.environ.get("VERIF_DICT") else []:
        if line.startswith("s "):
            a = bytes.fromhex(line[2:].strip())
            if a and b"\0" not in a and len(args) < 2000 and a.decode("utf-8", "ignore").encode() == a:
                args += [a, b"--" + a, b"-" + a]
    ws.append(("words on the command line", h.path, [], dict(os.environ), None, args + [b"--debug", b"--fast", b"-v", b"--test"]))
    ws = [w if len(w) == 6 else w + ([],) for w in ws]
    out = []
    for w in ws:
        try:
            q = subprocess.run(w[2] + [w[1], "exec", "/dev/stdin", "/dev/stdout"] + w[5], input=b"0 0 lyra2sum 00\n", env=w[3], cwd=w[4],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            if q.returncode == 0 and b"0 ok" in q.stdout or not w[2]:
                out.append(w)
                continue
        except OSError:
            pass
        ctx.notes.append("not possible here: %s" % w[0])
    return out


class Elsewhere:
    """quacks like a Harness for run_calls"""
    def __init__(self, w):
        self.name, self.path, self.prefix, self.env, self.cwd, self.args = w


def run_in(w, calls, timeout=400):
    parts = [list(range(i, len(calls), CORES)) for i in range(CORES)]
    got = [None] * len(calls)

    def go(ix):
        todo = list(ix)
        res = {}
        for _ in range(6):
            if not todo:
                break
            plan = "".join("%d 0 %s\n" % (i, calls[i].text) for i in todo)
            try:
                p = subprocess.run(w[2] + [w[1], "exec", "/dev/stdin", "/dev/stdout"] + w[5], input=plan.encode(), env=w[3], cwd=w[4],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            except subprocess.TimeoutExpired:
                break
            r, begun = parse_exec(p.stdout.decode())
            res.update(r)
            if p.returncode == 0:
                break
            if p.returncode != 3 and -p.returncode not in DEATHS:
                raise ToolError("%s: exit %d %s" % (w[0], p.returncode, p.stderr.decode()[-300:]))
            if p.returncode != 3 and begun is not None:
                res[begun] = ("abort", "-", 0, 0)
            todo = [i for i in todo if i not in res]
        return res
    with ThreadPoolExecutor(CORES) as ex:
        for res in ex.map(go, [p for p in parts if p]):
            for i, r in res.items():
                got[i] = r
    return got


def judge_worlds(ctx, calls, what):
    ws = worlds(ctx)
    runs = [run_in(w, calls) for w in ws]
    ctx.executed += len(calls) * len(ws)
    gs = []
    for i, c in enumerate(calls):
        rr = [(w[0], r[i]) for w, r in zip(ws, runs) if r[i] is not None]
        if len(rr) > 1:
            gs.append(("same", [("x", c, r[0], r[1], 0, 0, w) for w, r in rr]))
    ctx.judge_groups(gs, what)
    ctx.notes.append("%s: %d calls in %d worlds" % (what, len(gs), len(ws)))


def pool(ctx, plans, focus, blocks, limit=None):
    rng, out = ctx.rng, []
    for name in plans:
        xs = plan(name, ctx.scratch, ctx.deep)
        rng.shuffle(xs)
        out += [Call.lyra(x["k"], rng.randbytes(x["pl"]), rng.randbytes(x["sl"]), x["t"], x["r"], x["c"]) for x in xs[:limit]]
    for b in blocks:
        g = subprocess.run([ctx.h.path, "gen", focus, str(ctx.seed + 13), str(b)], stdout=subprocess.PIPE, text=True)
        out += [Call(l) for l in g.stdout.splitlines()]
    for f in ("lyra2re", "lyra2rev2", "lyra2rev3", "lyra2z", "lyra2sum"):
        out += [Call.one(f, rng.randbytes(n)) for n in list(range(0, 130)) + [200, 256, 500, 743, 744, 1000, 4096, 65536]]
        out.append(Call("%s p%d" % (f, 1 << 20)))
    if ctx.h.hooks:
        out += [Call.one(f, rng.randbytes(32)) for f in ("cubehash", "bmw") for _ in range(40)]
    out += [Call.lyra(32, rng.randbytes(8), rng.randbytes(8), 1, 1 << e, 1 << (14 - e)) for e in range(2, 13)]
    return [c for c in out if c.cost_ms() < 30000]


def c18(ctx):
    ctx.build(bins=("harness", "odd", "effects"))
    api_model(ctx, 1, ctx.q(4, 6), extra=("setting", "print"))
    api_model(ctx, 2, ctx.q(3, 4), extra=("setting", "print"))
    nest_model(ctx)
    focus = "history" if ctx.h.hooks else "public"
    calls = pool(ctx, ("domain", "costs", "keys", "sched"), focus, range(ctx.q(60, 800)), ctx.q(600, None))
    far = extremes(ctx.rng, ctx.q(12, 200))
    calls += far + ([Call("lyra2mod " + c.text.split(" ", 1)[1]) for c in far if c.fn == "lyra2"] if ctx.h.hooks else [])
    ctx.rng.shuffle(calls)
    n = max(1, len(calls) // (2 * CORES) + 1)
    judge_effects(ctx, [calls[i:i + n] for i in range(0, len(calls), n)], "watched calls")
    judge_worlds(ctx, calls, "one call in different worlds")
    # many more calls on the odd heap; what looks wrong there is compared with the plain one
    bad = []
    for f, b, tb in (("all", 10**6, 10**7), ("lyra", 10**6, 10**7), ("coins", 10**6, 10**7)) + \
            ((("lyramod", 10**6, 10**7),) if ctx.h.hooks else ()):
        x, _ = ctx.screened(f, ctx.q(b, tb), h=ctx.h.odd, sample=0, max_s=ctx.q(10, 300), max_cost=60000)
        bad += [e[0] for e in x[:10]]
    if bad:
        judge_worlds(ctx, bad, "calls nominated on the odd heap")
