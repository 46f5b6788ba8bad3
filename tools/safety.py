"""C20: recorded runs under monitors of memory accesses (AddressSanitizer, MemorySanitizer,
ThreadSanitizer, Miri) against the machines that touch only what they own."""
import subprocess
from vlib import *
from machines import _env, _run, small_plan
from memory import need

TARGET = "x86_64-unknown-linux-gnu"
REPORT = {
    "asan": (r"ERROR: AddressSanitizer:? (heap-buffer-overflow|heap-use-after-free|stack-buffer-overflow|stack-buffer-underflow|"
             r"stack-use-after-\w+|global-buffer-overflow|container-overflow|use-after-poison|SEGV|BUS|negative-size-param|"
             r"memcpy-param-overlap|attempting|alloc-dealloc-mismatch|unknown-crash|bad-free|invalid)[^\n]*", "outside"),
    "msan": (r"WARNING: MemorySanitizer: use-of-uninitialized-value[^\n]*", "stale"),
    "tsan": (r"WARNING: ThreadSanitizer: (?:data race|heap-use-after-free)[^\n]*", "race"),
}
OPTIONS = dict(ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=64:handle_abort=0",
               MSAN_OPTIONS="abort_on_error=1:allocator_may_return_null=1:handle_abort=0",
               TSAN_OPTIONS="abort_on_error=1:halt_on_error=1:allocator_may_return_null=1:report_signal_unsafe=0:handle_abort=0")
MISUSE = dict(asan=("outside",), msan=("stale",), tsan=("race",))
FLAG = dict(asan="address", msan="memory", tsan="thread")


def report(mon, err):
    """what the monitor says in the text: (kind, line) or None"""
    if mon == "miri":
        m = re.search(r"error: Undefined Behavior: ([^\n]*)|(unsafe precondition\(s\) violated[^\n]*)", err)
        if not m:
            return None
        t = m.group(1) or m.group(2)
        kind = "race" if "ata race" in t else "stale" if "uninitialized" in t else \
            "outside" if re.search("out-of-bounds|dangling|freed|beyond", t) else "undefined"
        line = t
    else:
        rx, kind = REPORT[mon]
        m = re.search(rx, err)
        if not m:
            return None
        line = m.group(0)
    at = re.search(r"(?:/repo/)?src/[\w/]+\.rs:\d+", re.sub(r"/harness/src/\S+|/rustlib/\S+", "", err[m.start():]))
    return kind, line.strip()[:160] + (" near " + at.group(0) if at else "")


class Monitor:
    """the harness built with a sanitizer; where std has to be built too, it comes from the
    toolchain's vendored sources"""
    def __init__(self, ctx, mon, vend):
        self.mon = mon
        hd = os.path.join(VERIF, "harness")
        std = [] if mon == "asan" else ["-Zbuild-std", "--config", 'source.crates-io.replace-with="v"',
                                        "--config", 'source.v.directory="%s"' % vend]
        for self.hooks in (True, False):
            target = os.path.join(OUT, "target-%s-%s" % (mon, "hooks" if self.hooks else "plain"))
            rel = os.path.join(target, TARGET, "release")
            for d in (".fingerprint", "deps"):     # never trust time stamps
                p = os.path.join(rel, d)
                for f in os.listdir(p) if os.path.isdir(p) else []:
                    if f.startswith(("lyra2-", "liblyra2-", "harness-")):
                        f = os.path.join(p, f)
                        shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
            e = _env(target, self.hooks)
            e["RUSTFLAGS"] = "-Zsanitizer=%s --cfg verif_exact -Cdebuginfo=1 " % FLAG[mon] + e["RUSTFLAGS"]
            rc, o = _run(["cargo", "+nightly", "build", "--offline", "--locked", "--release", "--target", TARGET, "--bin", "harness"] + std, hd, e)
            if rc == 0:
                break
        else:
            raise ToolError("%s build:\n%s" % (mon, o[-2000:]))
        path = os.path.join(ctx.scratch, "harness-" + mon)
        shutil.copy2(os.path.join(rel, "harness"), path)
        self.h = Harness(path, self.hooks, mon)
        for k in MISUSE[mon]:
            p = subprocess.run([path, "misuse", k], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            if (report(mon, p.stderr) or ("",))[0] != k:
                raise ToolError("%s does not see %s: exit %d %s" % (mon, k, p.returncode, p.stderr[-800:]))

    def alone(self, calls, threads=None):
        """the calls in a process of their own: outcomes and what the monitor says"""
        mode = "conc" if threads else "exec"
        plan = "".join("%d %d %s\n" % (i, threads[i] if threads else 0, c.text) for i, c in enumerate(calls))
        p = subprocess.run([self.h.path, mode, "/dev/stdin", "/dev/stdout"], input=plan.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=600)
        return parse_exec(p.stdout.decode())[0], report(self.mon, p.stderr.decode(errors="replace")), p.returncode


def judge_runs(ctx, runs, what):
    """runs: [(monitor, [(thread, call)], [event], text)]"""
    if not runs:
        return
    r = ctx._tlc_traces("TraceSafe", [dict(events=x[2]) for x in runs], what)
    if r.ok:
        return
    mon, calls, ev, text = runs[int(r.fields["n"]) - 1]
    raise Violation("%s: %s (%s)" % (calls[0][1].brief() if len(calls) == 1 else "%d calls, among them %s" % (len(calls), calls[0][1].brief()), text, mon),
                    ctx.replay_file(dict(kind="safety", monitor=mon, stage=what, report=text, calls=[[t, c.text] for t, c in calls])))


def screen_with(ctx, m, focus, blocks, **kw):
    threads = kw.get("threads") or CORES
    bad, smp, st = screen(m.h, ctx.scratch, focus, ctx.seed, blocks, sample=kw.pop("sample", 30), **kw)
    err = st.pop("err", "")
    st.update(profile=m.mon, nominated=0)
    ctx.screens.append(st)
    what = "%s, %s" % (m.mon, focus)
    died = "crash" in st or err
    if died:
        rep = report(m.mon, err)
        if rep is None:
            ctx.notes.append("%s: the process died without a report of the monitor: %s" % (what, err.strip()[-200:]))
            return
        flight = sorted((e[0] for e in bad), key=lambda c: c.cost_ms())
        for c in flight:                       # one call that is enough on its own
            _, one, _ = m.alone([c])
            if one and one[0] == rep[0]:
                judge_runs(ctx, [(m.mon, [(0, c)], [one[0]], one[1])], what)
        judge_runs(ctx, [(m.mon, [(i, c) for i, c in enumerate(flight)], [rep[0]], rep[1])], what)
        raise ToolError("%s: a report without a call" % what)
    # every call of the run came to its end with nothing reported: the sample stands for them
    judge_runs(ctx, [(m.mon, [(0, e[0])], [e[1] if e[1] in ("ok", "panic") else "ended"], "") for e in smp], what)


def planned_with(ctx, m, calls, what):
    n = min(CORES, len(calls))
    parts = [calls[i::n] for i in range(n)]

    def go(part):
        runs, todo = [], list(part)
        for _ in range(4):
            got, rep, rc = m.alone(todo)
            done = [i for i in range(len(todo)) if i in got]
            runs += [(m.mon, [(0, todo[i])], [got[i][0] if got[i][0] in ("ok", "panic") else "ended"], "") for i in done]
            rest = [todo[i] for i in range(len(todo)) if i not in got]
            if rep:
                c = rest[0] if rest else todo[-1]
                one = m.alone([c])[1]
                runs.append((m.mon, [(0, c)] if one else [(0, x) for x in todo], [rep[0]], rep[1]))
                break
            if not rest or rc == 0:
                break
            ctx.notes.append("%s: the process died without a report on %s" % (what, rest[0].brief()))
            todo = rest[1:]
            if not todo:
                break
        return runs
    with ThreadPoolExecutor(n) as ex:
        runs = [r for rs in ex.map(go, parts) for r in rs]
    ctx.executed += len(runs)
    judge_runs(ctx, runs, what)


class Miri:
    def __init__(self, ctx):
        self.cache = os.path.join(OUT, "miri-x86_64")
        self.build = os.path.join(OUT, "target-miri-x86_64-%d" % os.getpid())
        rc, o = _run(["cargo", "+nightly", "miri", "setup", "--target", TARGET], ctx.scratch, _env(self.build, False, XDG_CACHE_HOME=self.cache))
        if rc:
            raise ToolError("miri setup:\n" + o[-1500:])
        for self.hooks in (True, False):
            rc, err, _ = self.go([], 1, 300)
            if rc == 0:
                break
        else:
            raise ToolError("miri:\n" + err[-2000:])
        for k in ("outside", "stale", "race"):
            rc, err, _ = self.go([], 1, 300, MISUSE=k)
            if (report("miri", err) or ("",))[0] != k:
                raise ToolError("miri does not see %s: %s" % (k, err[-800:]))

    def close(self):
        shutil.rmtree(self.build, ignore_errors=True)

    def go(self, calls, threads, limit, seed=0, **env):
        e = _env(self.build, self.hooks, XDG_CACHE_HOME=self.cache, THREADS=str(threads), MIRIFLAGS=(
            "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-symbolic-alignment-check -Zmiri-seed=%d" % seed), **env)
        p = subprocess.Popen(["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q", "--bin", "machine", "--target", TARGET],
                             cwd=os.path.join(VERIF, "harness"), env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             start_new_session=True)
        rc = None
        try:
            o, err = p.communicate("".join("%d %s\n" % (i, c.text) for i, c in enumerate(calls)).encode(), timeout=limit)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, err = p.communicate()
        got, begun = {}, []
        for l in o.decode(errors="replace").splitlines():
            t = l.split(" ")
            if t[1:] == ["begin"]:
                begun.append(int(t[0]))
            elif len(t) == 3 and t[0] != "machine":
                got[int(t[0])] = t[1]
        return rc, err.decode(errors="replace"), (got, begun)


def interpreted(ctx, mi, parts, threads, limit, what):
    def go(x):
        return x, mi.go(x[1], threads, limit, seed=x[0])
    runs, done, total = [], 0, sum(len(p) for p in parts)
    with ThreadPoolExecutor(CORES) as ex:
        for (_, part), (rc, err, (got, begun)) in ex.map(go, enumerate(parts)):
            done += len(got)
            flight = [i for i in begun if i not in got]
            if threads == 1:
                runs += [("miri", [(0, part[i])], [o], "") for i, o in got.items()]
            elif got:
                runs.append(("miri", [(i % threads, part[i]) for i in got], list(got.values()), ""))
            if rc in (None, 0):
                continue
            rep = report("miri", err)
            if rep:
                runs.append(("miri", [(i % threads, part[i]) for i in flight] or [(0, c) for c in part], [rep[0]], rep[1]))
            else:
                ctx.notes.append("%s: ended early without undefined behaviour: %s" % (what, err.strip()[-300:]))
    ctx.executed += done
    ctx.notes.append("%s: %d of %d calls run" % (what, done, total))
    if done * 20 < total:
        raise ToolError("%s: only %d of %d calls could be run" % (what, done, total))
    judge_runs(ctx, runs, what)


def access_model(ctx):
    cfg = lambda d, m: dict(text='SPECIFICATION Spec\nCONSTANTS\n Design = "%s"\n MaxR = %d\n MaxC = %d\n MaxT = %d\n'
                            "INVARIANTS InBounds ReadAfterWrite RowsFilled\nCHECK_DEADLOCK FALSE\n" % ((d,) + m))
    m = ctx.q((7, 2, 2), (10, 3, 2))
    ctx.model("Access", cfg("lyra2", m), label="every word touched, R 3..%d, C 1..%d, T 1..%d" % m)
    for d in ("nocheck", "nomask", "offbyone", "ahead"):
        ctx.model("Access", cfg(d, (5, 2, 1)), expect_ok=False, label="negative: " + d)
    ctx.proof("AccessProof", [("{<<row, C - 1 - col>>}", "{<<row, C - col>>}"), ("8 * Blocks <= 12 * (R * C)", "8 * Blocks <= 13 * (R * C)")],
              "in bounds, written before read, any R and C")


def edges(ctx):
    """accepted calls that use the matrix to its last word, and ones just too long"""
    from check import lyra_calls
    rng, out = ctx.rng, []
    for r in (3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 33, 64, 100):
        for c in (1, 2, 3, 4, 5, 8):
            blocks = 12 * r * c // 8
            top = 64 * blocks - 49
            for ln in {max(0, top + d) for d in (-64, -1, 0, 1, 2, 8)} | {0}:
                p = rng.choice([0, ln, ln // 2, rng.randrange(ln + 1)])
                out.append(Call.lyra(rng.choice([0, 1, 32, 96, 97, 200]), fill(rng, p), fill(rng, ln - p), rng.choice([1, 1, 2, 3]), r, c))
    rng.shuffle(out)
    cs = lyra_calls(ctx, plan("domain", ctx.scratch, ctx.deep))
    rng.shuffle(cs)
    return out + cs[:ctx.q(800, 10000)]


def vendored(ctx):
    """sources of the dependencies of the harness and of std"""
    vend = os.path.join(ctx.scratch, "vendor")
    rc, o = _run(["cargo", "vendor", "--offline", "--locked", vend], os.path.join(VERIF, "harness"), _env(OUT, False))
    if rc:
        raise ToolError("cargo vendor:\n" + o[-1500:])
    _, root = _run(["rustc", "+nightly", "--print", "sysroot"], VERIF, dict(os.environ))
    lib = os.path.join(root.strip(), "lib/rustlib/src/rust/library/vendor")
    for d in os.listdir(lib):
        if not os.path.exists(os.path.join(vend, d)):
            os.symlink(os.path.join(lib, d), os.path.join(vend, d))
    return vend


def replay(ctx, d):
    os.environ.update(OPTIONS)
    calls = [(t, Call(x)) for t, x in d["calls"]]
    cs, n = [c for _, c in calls], max(t for t, _ in calls) + 1
    if d["monitor"] == "miri":
        mi = Miri(ctx)
        try:
            for seed in range(5 if n > 1 else 1):
                rc, err, _ = mi.go(cs, n, 600, seed=seed)
                rep = report("miri", err)
                if rep:
                    break
        finally:
            mi.close()
    else:
        m = Monitor(ctx, d["monitor"], vendored(ctx))
        for _ in range(20 if n > 1 else 1):
            rep = m.alone(cs, [t for t, _ in calls] if n > 1 else None)[1]
            if rep:
                break
    judge_runs(ctx, [(d["monitor"], calls, [rep[0] if rep else "ended"], rep[1] if rep else "")], "replay")


def c20(ctx):
    os.environ.update(OPTIONS)
    access_model(ctx)
    from history import api_model
    api_model(ctx, 2, 3)
    ctx.build()
    vend = vendored(ctx)
    mi = None
    try:
        with ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(Monitor, ctx, k, vend) for k in ("asan", "msan", "tsan")]
            fm = ex.submit(Miri, ctx)
            asan, msan, tsan = [f.result() for f in fs]
            mi = fm.result()
        ctx.builds += [dict(profile=m.mon, hooks=m.hooks) for m in (asan, msan, tsan)] + [dict(profile="miri", hooks=mi.hooks)]
        planned = edges(ctx) + [c for c in extremes(ctx.rng, ctx.q(6, 100)) if c.fn == "lyra2"]
        if ctx.h.hooks:
            planned += [Call("lyra2mod " + c.text.split(" ", 1)[1]) for c in planned[:len(planned) // 3] if c.fields()["k"] < 1 << 40]
        planned = [c for c in planned if c.fields()["k"] <= 1 << 20 and need(c) < 1 << 28 or not c.accepted()]
        for m in (asan, msan):
            pl = [c for c in planned if m.hooks or c.fn not in HOOKED]
            planned_with(ctx, m, pl, "planned edges, " + m.mon)
            for focus, b, tb in (("lyra", 1500, 100000), ("domain", 3000, 200000), ("klen", 100, 10000), ("bind", 300, 30000), ("sched", 60, 5000),
                                 ("coins", 1500, 100000), ("sum", 400, 30000), ("lyramod", 800, 50000), ("domainmod", 800, 50000), ("stage", 2000, 100000)):
                if focus in ("lyramod", "domainmod", "stage") and not m.hooks:
                    continue
                screen_with(ctx, m, focus, ctx.q(b, tb), max_s=ctx.q(8, 250), max_cost=ctx.q(60000, 3200000), sample_cost=20000)
        # threads: first calls of a process, then many
        for focus, b, tb in (("public", 200, 30000), ("coins", 150, 20000), ("lyra", 60, 20000), ("sum", 60, 10000), ("history", 200, 30000), ("stage", 200, 20000)):
            if focus in ("history", "stage") and not tsan.hooks:
                continue
            screen_with(ctx, tsan, focus, ctx.q(b, tb), max_s=ctx.q(8, 250), max_cost=20000, sample_cost=20000)
            for i in range(1, ctx.q(4, 12)):
                screen_with(ctx, tsan, focus, 60, max_s=1, max_cost=2000, sample_cost=2000, sample=5, first=9 * i, threads=(3, 8, 16)[i % 3])
        calls = small_plan(ctx, mi.hooks and ctx.h.hooks, ctx.q(60, 600))
        interpreted(ctx, mi, [calls[i::CORES] for i in range(CORES)], 1, ctx.q(60, 900), "interpreted calls")
        cheap = [c for c in calls if c.cost_ms() < 60]
        ctx.rng.shuffle(cheap)
        k = ctx.q(6, 8)
        parts = [cheap[i * k:(i + 1) * k] for i in range(min(ctx.q(8, 60), len(cheap) // k))]
        for i in range(len(parts)):      # some of the same call in every thread
            if i % 2:
                parts[i] = [parts[i][0]] * 3 + parts[i][3:]
        interpreted(ctx, mi, parts, 3, ctx.q(60, 300), "interpreted threads")
    finally:
        if mi:
            mi.close()
