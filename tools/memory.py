"""C17: memory use of recorded histories against MemoryRule."""
import os, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from history import concrete

FACTOR, BASE = 8, 65536
CAP = 1 << 30


def memory_model(ctx):
    cfg = lambda d, needs="1 .. 5": dict(text="SPECIFICATION Spec\nCONSTANTS\n Design = \"%s\"\n Needs = {%s}\n Factor = 3\n Base = 2\n"
                                         "INVARIANTS Proportionate Temporary\nCHECK_DEADLOCK TRUE\n" % (d, ", ".join(map(str, range(1, ctx.q(40, 300))))))
    for d in ("free", "keep"):
        ctx.model("Memory", cfg(d), label="every history, %s" % d)
    for d in ("leakpanic", "cache", "copies"):
        ctx.model("Memory", cfg(d), expect_ok=False, label="negative: " + d)


def need(c):
    f = c.fields()
    if f["fn"] == "lyra2sum":
        return 2 * len(f["input"]) + 96 * 16 + 32
    if "input" in f:
        return len(f["input"]) + {"lyra2z": 96 * 64}.get(f["fn"], 96 * 16) + 32
    cells = f["r"] * f["c"]
    return len(f["pwd"]) + len(f["salt"]) + f["k"] + 96 * cells


def measure(ctx, items, what):
    """items: [(reps, mode, call)] in one process"""
    t = "%d" % (time.time() * 1e9)
    plan = os.path.join(ctx.scratch, "mem-%s-%d" % (t, id(items)))
    with open(plan, "w") as f:
        for i, (reps, mode, c) in enumerate(items):
            f.write("%d %d %s %s\n" % (i, reps, mode, c.text))
    try:
        p = subprocess.run([ctx.h.mem, plan, plan + ".out"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                           timeout=ctx.q(200, 1800))
        if p.returncode not in (0,) and -p.returncode not in DEATHS:
            raise ToolError("mem: exit %d %s" % (p.returncode, p.stderr.decode()[-300:]))
        if p.returncode:
            ctx.notes.append("%s: the process died on one of the calls (not a matter of this property)" % what)
    except subprocess.TimeoutExpired:
        ctx.notes.append("%s: a history took too long and was cut" % what)
    out = []
    if os.path.exists(plan + ".out"):
        for line in open(plan + ".out"):
            x = line.split()
            if len(x) == 5 and line.endswith("\n"):
                out.append((int(x[3]), int(x[4]), x[1]))
    ctx.executed += sum(reps for reps, _, _ in items[:len(out)])
    for f in (plan, plan + ".out"):
        if os.path.exists(f):
            os.remove(f)
    return out


def judge_memory(ctx, hists, what):
    with ThreadPoolExecutor(CORES) as ex:
        got = list(ex.map(lambda h: measure(ctx, h, what), hists))
    recs, kept = [], []
    for h, g in zip(hists, got):
        ev = [dict(need=min(need(x[2]), CAP // FACTOR), peak=min(m[0], CAP), live=max(-CAP, min(m[1], CAP)), reps=x[0]) for x, m in zip(h, g)]
        if ev:
            recs.append(dict(ev=ev))
            kept.append((h, g))
    if not recs:
        raise ToolError("%s: nothing was recorded" % what)
    r = ctx._tlc_traces("TraceMem", recs, what)
    if not r.ok:
        h, g = kept[int(r.fields["n"]) - 1]
        k = int(r.fields["pc"]) - 1
        reps, mode, c = h[k]
        if r.violated == "Proportionate":
            msg = "%s: %d bytes in use at the peak of one call that needs %d" % (c.brief(), g[k][0], need(c))
            upto = [h[k]]
        else:
            msg = "%d bytes remain in use after %d calls (%d times %s last)" % (
                g[k][1], sum(x[0] for x in h[:k + 1]), reps, c.brief())
            upto = h[:k + 1]
        raise Violation(msg, ctx.replay_file(dict(kind="memory", stage=what, invariant=r.violated,
                                                  plan=[[x[0], x[1], x[2].text] for x in upto][-200:])))
    for h, g in kept[:2]:
        if len(ctx.samples) < 12:
            ctx.samples.append(dict(stage=what, events=[dict(call=x[2].brief(60), reps=x[0], mode=x[1], need=need(x[2]), peak=m[0], live=m[1])
                                                        for x, m in list(zip(h, g))[:4]], length=len(h)))


def split(items, n):
    """histories of similar calls: the small ones first, so that little is allowed to remain"""
    items = sorted(items, key=lambda x: need(x[2]))
    return [items[i:i + n] for i in range(0, len(items), n)]


CLASSES = ["small", "wide", "tall", "long", "key0", "bigkey", "panic_t", "panic_r", "panic_len", "re", "rev2", "rev3", "z", "sum", "sum_long"]


def c17(ctx):
    ctx.build(bins=("harness", "mem"))
    memory_model(ctx)
    rng = ctx.rng
    b = lambda n: rng.randbytes(n)
    # one call at a time, of every planned shape: the peak
    cases = []
    for name in ("costs", "keys", "lengths", "domain", "sched"):
        for x in plan(name, ctx.scratch, ctx.deep):
            cases.append(Call.lyra(x["k"], b(x["pl"]), b(x["sl"]), x["t"], x["r"], x["c"]))
    rng.shuffle(cases)
    coins = [Call.one(f, b(n)) for f in ("lyra2re", "lyra2rev2", "lyra2rev3", "lyra2z", "lyra2sum")
             for n in list(range(0, 260, 7)) + [512, 513, 1000, 4095, 4096, 10000, 100000, 1 << 20]]
    big = [Call.lyra(32, b(8), b(8), 1, 1 << e, 1 << (18 - e)) for e in range(2, 15)] + \
          [Call.lyra(32, b(8), b(8), 1, 3, 80000), Call.lyra(32, b(8), b(8), 1, 80000, 1), Call.lyra(32, b(8), b(8), 2, 8192, 31),
           Call.lyra(1000000, b(8), b(8), 1, 3, 1), Call.lyra(97, b(100), b(8), 1, 500, 500), Call.lyra(32, b(90000), b(5000), 1, 4, 256),
           Call.lyra(32, b(8), b(9000), 1, 100, 1), Call.lyra(32, b(20000), b(0), 0, 64, 64), Call.lyra(32, b(200000), b(0), 1, 64, 8)] + \
          [Call("%s p%d" % (f, 1 << 24)) for f in ("lyra2re", "lyra2rev2", "lyra2rev3", "lyra2z", "lyra2sum")]
    if ctx.h.hooks:
        mods = [Call("lyra2mod " + c.text.split(" ", 1)[1]) for c in cases[:ctx.q(400, 4000)]]
        stages = [Call.one(f, b(32)) for f in ("cubehash", "bmw")]
        coins += stages
        big += [Call("lyra2mod " + c.text.split(" ", 1)[1]) for c in big if c.fn == "lyra2"]
    else:
        mods = []
    # memory does not grow with the time cost
    for t in (7, 9, 16, 40, 100, 300):
        for r, c in ((64, 16), (100, 30), (3, 400), (1000, 1)):
            big.append(Call.lyra(32, b(8), b(8), t, r, c))
            if ctx.h.hooks:
                big.append(Call.lyra(32, b(8), b(8), t, r, c, True))
    far = extremes(rng, ctx.q(12, 200))
    judge_memory(ctx, split([(2, "s", c) for c in far], 20), "one large parameter")
    judge_memory(ctx, [[(2, "s", c)] for c in big], "large calls")
    n = ctx.q(250, 2000)
    cheap = [c for c in cases + mods + coins if c.cost_ms() < 400]
    dear = [c for c in cases + mods + coins if c.cost_ms() >= 400]
    judge_memory(ctx, split([(n, "s", c) for c in cheap] + [(max(2, n // 50), "s", c) for c in dear], 150), "planned calls")
    # what remains after many calls: one class over and over, equal and ever new inputs, new threads
    m = ctx.q(12000, 400000)
    hists = []
    for cls in CLASSES:
        for mode, k in (("s", m), ("v", m), ("t", m // 12)):
            hists.append([(k, mode, concrete(rng, cls))])
    if ctx.h.hooks:
        hists += [[(m, "v", c)] for c in stages]
        hists += [[(m, "v", Call.lyra(32, b(8), b(8), 1, 4, 4, True))], [(m, "s", Call.lyra(32, b(2000), b(8), 1, 4, 4, True))]]
    judge_memory(ctx, hists, "one class over and over")
    # the caller keeps the results: nothing but their bytes stays
    keep = [concrete(rng, cls) for cls in CLASSES for _ in range(3)]
    keep += [Call.lyra(k, b(8), b(8), t, r, c) for k, t, r, c in
             ((32, 1, 80, 64), (32, 1, 300, 20), (8, 3, 100, 10), (0, 1, 64, 64), (5000, 1, 64, 8), (32, 1, 3, 2000), (96, 1, 1025, 3))]
    if ctx.h.hooks:
        keep += [Call("lyra2mod " + c.text.split(" ", 1)[1]) for c in keep if c.fn == "lyra2"] + stages
    keep += coins[::9]
    judge_memory(ctx, [[(ctx.q(60, 600), "k", c)] for c in keep], "results kept")
    # mixed histories, panics among them
    hists = []
    for _ in range(ctx.q(32, 300)):
        hists.append([(rng.choice((1, 1, 2, 5, 20)), rng.choice("ssvt"), concrete(rng, rng.choice(CLASSES))) for _ in range(400)])
    judge_memory(ctx, hists, "mixed histories")
    hs = []
    focus = "history" if ctx.h.hooks else "public"
    for i in range(ctx.q(24, 200)):
        g = subprocess.run([ctx.h.path, "gen", focus, str(ctx.seed + 11), str(i)], stdout=subprocess.PIPE, text=True)
        cs = [Call(l) for l in g.stdout.splitlines()]
        cs = [c for c in cs if need(c) < 1 << 26 and c.cost_ms() < 2000]
        hs.append([(1, "s", c) for c in cs] * ctx.q(8, 40))
    judge_memory(ctx, [h for h in hs if h], "random histories")
