"""C19: the same call on machines of other kinds.

little-endian, 32 bits   WebAssembly, run by node (near native speed: many calls)
big-endian, 64 bits      s390x, interpreted by Miri (some hundred calls)
big-endian, 32 bits      powerpc, interpreted by Miri (thorough only)
"""
import subprocess
from vlib import *

MACHINES = os.path.join(VERIF, "machines")
EMULATED = {"s390x": ("s390x-unknown-linux-gnu", "big", 64), "powerpc": ("powerpc-unknown-linux-gnu", "big", 32)}


def _run(cmd, cwd, env, timeout=700):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("%s: no end in %d s" % (" ".join(cmd[:4]), timeout))
    return p.returncode, p.stdout


def _env(target, hooks, **kw):
    e = dict(os.environ)
    for v in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "RUSTC_WRAPPER", "MIRI_SYSROOT"):
        e.pop(v, None)
    e.update(CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTFLAGS="--cfg lyra2_verif" if hooks else "", **kw)
    return e


class Wasm:
    name = "wasm32"

    def __init__(self, ctx):
        """std is built for the target from the toolchain's vendored sources"""
        vend = os.path.join(ctx.scratch, "vendor")
        rc, o = _run(["cargo", "vendor", "--offline", "--locked", vend], MACHINES, _env(OUT, False))
        if rc:
            raise ToolError("cargo vendor:\n" + o[-1500:])
        rc, root = _run(["rustc", "+nightly", "--print", "sysroot"], VERIF, dict(os.environ))
        lib = os.path.join(root.strip(), "lib/rustlib/src/rust/library/vendor")
        for d in os.listdir(lib):
            if not os.path.exists(os.path.join(vend, d)):
                os.symlink(os.path.join(lib, d), os.path.join(vend, d))
        for self.hooks in (True, False):
            target = os.path.join(OUT, "target-wasm-%s" % ("hooks" if self.hooks else "plain"))
            rel = os.path.join(target, "wasm32-unknown-unknown", "release")
            for d in (".fingerprint", "deps"):     # never trust time stamps
                p = os.path.join(rel, d)
                for f in os.listdir(p) if os.path.isdir(p) else []:
                    if f.startswith(("lyra2-", "liblyra2-", "machines")):
                        f = os.path.join(p, f)
                        shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
            rc, o = _run(["cargo", "+nightly", "build", "--offline", "--locked", "--release", "-Zbuild-std=std,panic_abort",
                          "--target", "wasm32-unknown-unknown", "--config", 'source.crates-io.replace-with="v"',
                          "--config", 'source.v.directory="%s"' % vend], MACHINES, _env(target, self.hooks))
            if rc == 0:
                self.module = os.path.join(ctx.scratch, "machines.wasm")
                shutil.copy2(os.path.join(rel, "machines.wasm"), self.module)
                return
        raise ToolError("wasm build:\n" + o[-2000:])

    def _part(self, job):
        """outcomes of the calls ix; a call on which the process gets stuck is a hang"""
        ix, calls, scratch, limit = job
        got = {}
        careful, rounds = False, 0
        tag = "wasm-%d-%d" % (ix[0], int(time.time() * 1e6))
        while ix:
            plan, out = os.path.join(scratch, tag + ".plan"), os.path.join(scratch, tag + ".out")
            with open(plan, "w") as f:
                f.write("".join("%d %s\n" % (i, calls[i].text) for i in ix))
            stuck = False
            p = subprocess.Popen(["node", os.path.join(MACHINES, "run.mjs"), self.module, plan, out] + (["careful"] if careful else []),
                                 stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            try:
                err = p.communicate(timeout=limit)[1]
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                stuck = True
            if not stuck and p.returncode:
                raise ToolError("node: " + err.decode()[-800:])
            begun = None
            for l in open(out):
                t = l.rstrip("\n").split(" ")
                if t[0] == "machine":
                    if t[1:] != ["little", "32"]:
                        raise ToolError("not a 32-bit machine: " + l)
                elif t[1:] == ["begin"]:
                    begun = int(t[0])
                elif len(t) == 3:
                    got[int(t[0])] = (t[1], t[2])
            os.remove(plan), os.remove(out)
            if not stuck:
                break
            if len(ix) == 1:
                got[ix[0]] = ("hang", "-")
            elif careful and begun is not None and begun not in got:
                # stuck, or only slow: on its own
                got.update(self._part(([begun], calls, scratch, 60)))
            careful = True
            rounds += 1
            ix = [i for i in ix if i not in got] if rounds < 4 else []
        return got

    def run(self, ctx, calls, limit=60):
        n = max(1, min(CORES, (len(calls) + 3) // 4))
        got = {}
        with ThreadPoolExecutor(n) as ex:
            for g in ex.map(self._part, [(list(range(i, len(calls), n)), calls, ctx.scratch, limit) for i in range(n)]):
                got.update(g)
        return [got.get(i) for i in range(len(calls))]


class Emulated:
    def __init__(self, ctx, name):
        self.name = name
        self.target, self.order, self.bits = EMULATED[name]
        self.cache = os.path.join(OUT, "miri-" + name)
        self.build = os.path.join(OUT, "target-miri-%s-%d" % (name, os.getpid()))
        self.harness = os.path.join(VERIF, "harness")
        rc, o = _run(["cargo", "+nightly", "miri", "setup", "--target", self.target], ctx.scratch, _env(self.build, False, XDG_CACHE_HOME=self.cache))
        if rc:
            raise ToolError("miri setup %s:\n%s" % (name, o[-1500:]))
        for self.hooks in (True, False):
            rc, o, got = self._go([], [], 300)
            if rc == 0:
                return
        raise ToolError("miri %s:\n%s" % (name, o[-2000:]))

    def close(self):
        shutil.rmtree(self.build, ignore_errors=True)

    def _go(self, ix, calls, limit):
        e = _env(self.build, self.hooks, XDG_CACHE_HOME=self.cache,
                 MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-validation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks")
        p = subprocess.Popen(["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q", "--bin", "machine", "--target", self.target],
                             cwd=self.harness, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             start_new_session=True)
        plan = "".join("%d %s\n" % (i, calls[i].text) for i in ix)
        rc = None
        try:
            o, err = p.communicate(plan.encode(), timeout=limit)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, err = p.communicate()
        got, begun = {}, None
        for l in o.decode(errors="replace").splitlines():
            t = l.split(" ")
            if t[0] == "machine":
                if t[1:] != [self.order, str(self.bits)]:
                    raise ToolError("%s: not the machine asked for: %s" % (self.name, l))
            elif t[1:] == ["begin"]:
                begun = int(t[0])
            elif len(t) == 3:
                got[int(t[0])] = (t[1], t[2])
        err = err.decode(errors="replace")
        if rc not in (None, 0) and begun is not None and begun not in got and "Undefined Behavior" in err:
            got[begun] = ("abort", "-")
        return rc, err, got

    def run(self, ctx, calls, limit=90):
        """calls not reached within the limit are None"""
        n = max(1, min(CORES, len(calls)))
        res = {}
        with ThreadPoolExecutor(n) as ex:
            for rc, err, got in ex.map(lambda k: self._go(list(range(k, len(calls), n)), calls, limit), range(n)):
                res.update(got)
                if rc not in (None, 0):
                    ctx.notes.append("%s ended early: %s" % (self.name, err.strip()[-300:]))
        return [res.get(i) for i in range(len(calls))]


def judge_machine(ctx, m, calls, got, what, budget, sample):
    """nominated: calls whose outcome differs from this machine's; they and a sample go to TLC"""
    native = run_parallel(ctx.h, calls)
    ctx.executed += 2 * len(calls)
    groups, differ = [], []
    for c, a, b in zip(calls, native, got):
        if a is None or b is None:
            continue
        g = ("same", [("x", c, a[0], a[1], 0, 0, "native"), ("x", c, b[0], b[1], 0, 0, m.name)])
        (differ if a[:2] != b else groups).append(g)
    done = len(groups) + len(differ)
    ctx.notes.append("%s: %d of %d calls run, %d differ from this machine" % (what, done, len(calls), len(differ)))
    if done < len(calls) // 10:
        raise ToolError("%s: only %d of %d calls could be run" % (what, done, len(calls)))
    differ.sort(key=lambda g: g[1][0][1].cost_ms())
    ctx.judge_groups(differ[:50], what + " (nominated)")
    ctx.rng.shuffle(groups)
    ctx.judge_groups(groups[:sample], what)
    ev = sorted((g[1][1][1:4] for g in groups[:sample]), key=lambda e: e[0].cost_ms())
    ev = [e for e in ev if e[0].cost_ms() < 1500]
    ctx.rng.shuffle(ev)
    ctx.judge_calls(ev[:ctx.q(300, 3000)], budget, what + " (against the specification)")


def dump(ctx, focus, blocks, max_cost):
    p = subprocess.run([ctx.h.path, "dump", focus, str(ctx.seed), "0", str(blocks), str(max_cost)], stdout=subprocess.PIPE, text=True)
    if p.returncode:
        raise ToolError("dump " + focus)
    return [Call(l) for l in p.stdout.splitlines()]


def small_plan(ctx, hooks, n):
    """cheap calls of every kind for the interpreter, the model's plans first"""
    from check import lyra_calls
    rng, out = ctx.rng, []
    for name in ("costs", "lengths", "keys", "aligned", "domain"):
        cs = [c for c in lyra_calls(ctx, plan(name, ctx.scratch, ctx.deep)) if c.cost_ms() < 100]
        rng.shuffle(cs)
        out += cs[:n]
        if hooks and name in ("costs", "keys"):
            cs = [Call("lyra2mod" + c.text[5:]) for c in cs[n:] + cs[:n]]
            out += cs[:n // 2]
    for fn in ("lyra2re", "lyra2rev2", "lyra2rev3", "lyra2z", "lyra2sum"):
        for ln in [0, 80] + [rng.randrange(300) for _ in range(1 + n // 40)]:
            out.append(Call.one(fn, fill(rng, ln)))
    if hooks:
        for _ in range(n // 4):
            out += [Call.one("cubehash", fill(rng, 32)), Call.one("bmw", fill(rng, rng.randrange(56)))]
    rng.shuffle(out)
    return out


def oversized():
    """arguments that a 32-bit machine cannot address: no key"""
    out = []
    for r, c in ((1 << 30, 1), ((1 << 30) + 1, 1), ((1 << 30) + 4, 1), ((1 << 30) + 1024, 1), (3, 357913942), (4, 268435457), (4, 1 << 30),
                 (1 << 16, 1 << 16), ((1 << 16) + 1, 1 << 16), ((1 << 32) + 4, 1), (4, (1 << 32) + 1), ((1 << 32) + 3, (1 << 32) + 1),
                 (1 << 31, 1), (1 << 31, 2), (44739243, 8), (4, (1 << 31) + 1), (1 << 26, 1), ((1 << 32) + 8, 4), (8, (1 << 32) + 4)):
        out += [Call.lyra(32, b"", b"", 1, r, c), Call.lyra(32, b"pwdpwdpw", b"saltsalt", 2, r, c)]
    return out


def beyond32(f):
    return f["k"] >= 1 << 32 or 96 * f["r"] * f["c"] >= 1 << 32


def c19(ctx):
    for d, ok in (("portable", True), ("maskfirst", True), ("cutfirst", False), ("nativein", False), ("nativeout", False), ("cutlength", False)):
        ctx.model("Machines", dict(text='SPECIFICATION Spec\nCONSTANTS\n Design = "%s"\n MaxRows = %d\nINVARIANTS Portable InMatrix\n'
                                   % (d, ctx.q(8, 15))), expect_ok=ok, label="design " + d)
    ctx.build()
    names = ctx.q(["s390x"], ["s390x", "powerpc"])
    with ThreadPoolExecutor(4) as ex:
        w = ex.submit(Wasm, ctx)
        es = [ex.submit(Emulated, ctx, n) for n in names]
        w, es = w.result(), [e.result() for e in es]
    try:
        # 32 bits: many calls
        calls = []
        for focus, b, tb in (("lyra", 400, 20000), ("bind", 100, 5000), ("klen", 60, 3000), ("sched", 60, 3000), ("domain", 100, 5000),
                             ("sum", 50, 1000), ("coins", 150, 8000)) + \
                            ((("lyramod", 200, 10000), ("stage", 200, 5000)) if w.hooks and ctx.h.hooks else ()):
            got = dump(ctx, focus, ctx.q(b, tb), 30000)
            ctx.rng.shuffle(got)
            calls += got
        calls += [c for c in extremes(ctx.rng, ctx.q(12, 200)) if not beyond32(c.fields() if c.fn == "lyra2" else dict(k=0, r=1, c=1))]
        calls = list({c.text: c for c in calls}.values())
        for i in range(0, len(calls), 100000):
            part = calls[i:i + 100000]
            judge_machine(ctx, w, part, w.run(ctx, part, ctx.q(150, 900)), "32-bit machine", ctx.q(25, 200), ctx.q(4000, 20000))
            if time.time() > ctx.deadline:
                break
        big = oversized()
        long = [Call.lyra(k, b"pwdpwdpw", b"saltsalt", 1, 3, 1) for k in (1 << 32, (1 << 32) + 32, (1 << 33) + 96, (1 << 63) + 5)]
        with ThreadPoolExecutor(len(long)) as ex:      # a 32-bit machine fills its memory before it gives up
            rl = list(ex.map(lambda c: w._part(([0], [c], ctx.scratch, 100)).get(0), long))
        rs = w.run(ctx, big, 60) + rl
        big += long
        ctx.executed += len(big)
        recs = []
        for c, r in zip(big, rs):
            if r is not None and r[0] != "hang":
                recs.append((c, r[0], r[1]))
        ctx.judge_domain(recs, "sizes beyond 32 bits", huge=beyond32)
        endless_on(ctx, w)
        # the other byte order: as many as the interpreter manages
        for e in es:
            calls = small_plan(ctx, e.hooks and ctx.h.hooks, ctx.q(150, 1500))
            judge_machine(ctx, e, calls, e.run(ctx, calls, ctx.q(75, 1200)), "%s-endian %d-bit machine" % (e.order, e.bits),
                          ctx.q(25, 300), 4000)
    finally:
        for e in es:
            e.close()


def endless_on(ctx, w):
    """time costs beyond 32 bits: a key must not come back"""
    cl = [Call.lyra(32, fill(ctx.rng, 8), fill(ctx.rng, 8), t, 3, 1) for t in (1 << 32, (1 << 32) + 1, (1 << 32) + 4, (1 << 63) + 2)]

    def go(c):
        t0 = time.time()
        r = w._part(([0], [c], ctx.scratch, 3))
        return r.get(0, ("hang", "-")), int((time.time() - t0) * 1000) + 1
    with ThreadPoolExecutor(CORES) as ex:
        rs = list(ex.map(go, cl))
    ctx.executed += len(cl)
    recs = [dict(units=min(c.fields()["t"] // 10**6, 1 << 30), ms=ms if r[0] == "ok" else 0, outcome=r[0]) for c, (r, ms) in zip(cl, rs)]
    r = ctx._tlc_traces("TraceWork", recs, "endless calls, 32 bits")
    if not r.ok:
        n = int(r.fields["n"]) - 1
        raise Violation("%s: %s after %d ms on a 32-bit machine" % (cl[n].brief(), rs[n][0][0], rs[n][1]), ctx.replay_file(dict(
            kind="work", call=cl[n].text, observed=list(rs[n][0]), ms=rs[n][1], stage="endless calls, 32 bits", invariant=r.violated)))
