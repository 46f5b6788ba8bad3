"""C09 and C10: histories and concurrent runs against ApiPure."""
import os, random, time
from concurrent.futures import ThreadPoolExecutor
from vlib import *


def api_model(ctx, threads, maxcalls, extra=()):
    T = "{" + ", ".join("t%d" % i for i in range(1, threads + 1)) + "}"
    cfg = lambda d, n, t=T: dict(text="SPECIFICATION Spec\nCONSTANTS\n Threads = %s\n Design = \"%s\"\n MaxCalls = %d\nPROPERTY Refines Silent\nCHECK_DEADLOCK TRUE\n" % (t, d, n))
    ctx.model("ApiImpl", cfg("fresh", maxcalls), label="fresh matrix per call, %d threads, %d calls" % (threads, maxcalls))
    neg = ("thread", "mutex") if threads == 1 else ("global", "thread", "mutex")
    for d in neg + extra:
        ctx.model("ApiImpl", cfg(d, 3), expect_ok=False, label="negative: %s, %d threads" % (d, threads))
    ctx.proof("ApiProof", [("mem' = [mem EXCEPT ![t] = Zero]", "mem' = mem")], "refines ApiPure, any threads and calls")


def nest_model(ctx):
    """calls from the panic hook and from destructors, while another call of the thread panics"""
    cfg = lambda d, n, m: dict(text="SPECIFICATION Spec\nCONSTANTS\n Threads = %s\n Depth = %d\n Design = \"%s\"\n MaxCalls = %d\nPROPERTY Refines\nCHECK_DEADLOCK TRUE\n" % (
        "{" + ", ".join("t%d" % i for i in range(1, n + 1)) + "}", ctx.q(3, 4), d, m))
    for d in ("fresh", "keep"):
        ctx.model("ApiNest", cfg(d, 2, ctx.q(5, 6)), label="calls inside of calls: %s" % d)
    for d in ("busy", "lock", "panicking"):
        ctx.model("ApiNest", cfg(d, 1, 4), expect_ok=False, label="negative: nested, %s" % d)


def concrete(rng, cls):
    """a call of the class, from a small pool of byte strings so that arguments recur"""
    b = lambda n: random.Random("%d/%d" % (rng.randrange(2), n)).randbytes(n)
    if cls == "small":
        return Call.lyra(32, b(8), b(8), 1, 4, 4)
    if cls == "wide":
        return Call.lyra(32, b(16), b(8), 1, 4, 9)
    if cls == "tall":
        return Call.lyra(32, b(8), b(16), 2, 17, 2)
    if cls == "long":
        return Call.lyra(32, b(200), b(96), 1, 4, 4)
    if cls == "key0":
        return Call.lyra(0, b(8), b(8), 1, 4, 4)
    if cls == "bigkey":
        return Call.lyra(200, b(8), b(8), 1, 4, 4)
    if cls == "panic_t":
        return Call.lyra(32, b(8), b(8), 0, 4, 4)
    if cls == "panic_r":
        return Call.lyra(32, b(8), b(8), 1, 2, 4)
    if cls == "panic_len":
        return Call.lyra(32, b(2000), b(96), 1, 4, 4)
    if cls == "sum_long":
        return Call.one("lyra2sum", b(800))
    return Call.one({"re": "lyra2re", "rev2": "lyra2rev2", "rev3": "lyra2rev3", "z": "lyra2z", "sum": "lyra2sum"}[cls], b(rng.choice([80, 8])))


def chain(rng, edges):
    """an Eulerian walk through all class pairs: one history that contains every pair"""
    nxt = {}
    for a, b in edges:
        nxt.setdefault(a, []).append(b)
    for v in nxt.values():
        rng.shuffle(v)
    start = sorted(nxt)[0]
    stack, path = [start], []
    while stack:
        v = stack[-1]
        if nxt.get(v):
            stack.append(nxt[v].pop())
        else:
            path.append(stack.pop())
    return path[::-1]


def outcome_str(r):
    return r[1] if r[0] == "ok" else r[0]


def judge_histories(ctx, hists, what, origin=None):
    """hists: [[(thread, call, outcome, start, end)]].  Outcomes must be those of a fresh process."""
    wide = [h for h in hists if max(e[0] for e in h) >= 32]
    if wide and len(wide) < len(hists):
        judge_histories(ctx, wide, what, None)
        hists = [h for h in hists if max(e[0] for e in h) < 32]
    distinct = {}
    for h in hists:
        for e in h:
            distinct.setdefault(e[1].text, e[1])
    texts = list(distinct)
    table = alone_table(ctx.h, [distinct[t] for t in texts])
    ctx.executed += len(texts)
    ix = {t: i + 1 for i, t in enumerate(texts)}
    tpath = os.path.join(ctx.scratch, "table-%d.ndjson" % int(time.time() * 1e6))
    write_ndjson(tpath, [dict(o=outcome_str(r)) for r in table])
    recs, order = [], []
    for h in hists:
        ev = []
        for j, (th, c, r) in enumerate(h):
            ev.append((r[2], dict(b=1, t=th + 1, c=ix[c.text]), j))
            ev.append((r[3], dict(e=1, t=th + 1, o=outcome_str(r)), j))
        ev.sort(key=lambda x: x[0])
        recs.append(dict(ev=[x[1] for x in ev]))
        order.append([x[2] for x in ev])
    r = ctx._tlc_traces("TraceApi", recs, what, env=dict(TABLE=tpath, THREADS=str(1 + max([e[0] for h in hists for e in h] + [0]))))
    if not r.ok:
        n, l = int(r.fields["n"]) - 1, int(r.fields["pc"]) - 1
        h = hists[n]
        j = order[n][l]
        th, c, res = h[j]
        upto = sorted((e for e in h if e[2][2] <= res[3]), key=lambda e: e[2][2])
        raise Violation("%s: %s, but %s as the only call of a fresh process (%s)" % (
            c.brief(), outcome_str(res)[:70], outcome_str(table[ix[c.text] - 1])[:70], origin[n] if origin else "history of %d calls" % len(upto)),
            ctx.replay_file(dict(kind="history", stage=what, origin=origin[n] if origin else "", call=c.text, observed=list(res[:2]),
                                 alone=list(table[ix[c.text] - 1]), thread=th,
                                 history=[[e[0], e[1].text] for e in upto][-400:])))
    for h in hists[:1]:
        if len(ctx.samples) < 12:
            ctx.samples.append(dict(stage=what, events=[dict(thread=e[0], call=e[1].brief(60), outcome=outcome_str(e[2])[:32]) for e in h[:4]],
                                    length=len(h)))


def nominated(ctx, bad, what, st=None):
    """outcomes seen in a long screening run, one history per nominated event"""
    hs, origin = [], []
    for e in bad[:30]:
        hs.append([(0, e[0], (e[1], e[2], 1, 2))])
        if st:
            origin.append("after the calls before it in a process of its own: harness screen focus=%s, block %d, call %d" % (st["focus"], e[3], e[4]))
    if hs:
        judge_histories(ctx, hs, what, origin or None)
        ctx.notes.append("%s: %d calls nominated, all as in a fresh process" % (what, len(bad)))


def sequential(ctx, calls):
    rs = run_calls(ctx.h, calls)
    ctx.executed += len(calls)
    out, clock = [], 0
    for c, r in zip(calls, rs):
        if r is None:
            break
        out.append((0, c, (r[0], r[1], clock, clock + 1)))
        clock += 2
        if r[0] in ("hang", "abort"):
            break
    return out


def c09(ctx):
    ctx.build()
    api_model(ctx, 1, ctx.q(5, 7))
    nest_model(ctx)
    focus = "history" if ctx.h.hooks else "public"
    # long single-threaded processes, one per core, with related arguments and panics
    with ThreadPoolExecutor(CORES) as ex:
        n = ctx.q(3000, 120000)
        rs = list(ex.map(lambda i: screen(ctx.h, ctx.scratch, focus, ctx.seed, n * (i + 1), threads=1, sample=0,
                                          first=n * i, max_s=ctx.q(60, 1200)), range(CORES)))
    # long histories of one function on ever new arguments, one process each
    solo = ["lyra2z", "lyra2re", "lyra2rev2", "lyra2rev3", "sum", "bind", "lyra", "all"] + (["stage", "lyramod"] if ctx.h.hooks else [])
    with ThreadPoolExecutor(CORES) as ex:
        rs += list(ex.map(lambda f: screen(ctx.h, ctx.scratch, f, ctx.seed + 3, 10**6, threads=1, sample=0, max_cost=20000,
                                           max_s=ctx.q(22, 400)), solo))
    for bad, _, st in rs:
        st["nominated"] = len(bad)
        ctx.screens.append(st)
    for bad, _, st in rs:
        nominated(ctx, bad, "long histories (nominated)", st)
    rng = ctx.rng
    pairs = [tuple(x) for x in plan("history", ctx.scratch)]
    # every ordered pair of classes in one process, several concretisations
    hists = []
    for _ in range(ctx.q(6, 60)):
        hists.append([concrete(rng, c) for c in chain(rng, pairs)])
    # every ordered pair as the first two calls of a process
    hists += [[concrete(rng, a), concrete(rng, b)] for a, b in pairs]
    # triples a b a: the first call again after another one
    for a, b in pairs:
        x = concrete(rng, a)
        hists.append([x, concrete(rng, b), x])
    with ThreadPoolExecutor(CORES) as ex:
        hs = list(ex.map(lambda h: sequential(ctx, h), hists))
    judge_histories(ctx, [h for h in hs if h], "histories of call classes")
    # calls inside of calls that panic: from the panic hook, from destructors
    cs = list({c.text: c for c in (concrete(rng, cls) for _ in range(ctx.q(8, 60)) for cls in
               ("small", "wide", "tall", "key0", "bigkey", "panic_t", "panic_len", "re", "rev2", "rev3", "z", "sum", "sum_long"))}.values())
    places = ("hook", "drop", "nested")
    with ThreadPoolExecutor(CORES) as ex:
        alone = alone_table(ctx.h, cs)
        got = list(ex.map(lambda pl: run_calls(ctx.h, cs, env=dict(PLACE=pl)), places))
    ctx.executed += (1 + len(places)) * len(cs)
    ctx.judge_groups([("same", [("x", c, a[0], a[1], 0, 0, "alone")] +
                       [("x", c, g[i][0], g[i][1], 0, 0, "while another call panics: " + pl) for pl, g in zip(places, got) if g[i] is not None])
                      for i, (c, a) in enumerate(zip(cs, alone))], "calls inside of calls")
    # recorded random histories
    import subprocess
    hs = []
    for b in range(ctx.q(24, 200)):
        g = subprocess.run([ctx.h.path, "gen", focus, str(ctx.seed + 7), str(b)], stdout=subprocess.PIPE, text=True)
        hs.append([Call(l) for l in g.stdout.splitlines()])
    with ThreadPoolExecutor(CORES) as ex:
        hs = list(ex.map(lambda h: sequential(ctx, h), hs))
    judge_histories(ctx, [h for h in hs if h], "random histories")


def concurrent(ctx, per_thread):
    calls = [c for t in per_thread for c in t]
    threads = [i for i, t in enumerate(per_thread) for _ in t]
    rs = run_calls(ctx.h, calls, mode="conc", threads=threads, restart=False)
    ctx.executed += len(calls)
    out = [(th, c, r) for th, c, r in zip(threads, calls, rs) if r is not None]
    # a crash or a hang has no position in the order: put it last
    top = max([r[3] for _, _, r in out] + [0])
    fixed = []
    for th, c, r in out:
        if r[0] in ("hang", "abort"):
            top += 2
            r = (r[0], r[1], top - 1, top)
        fixed.append((th, c, r))
    return fixed


def race(ctx, sets):
    """sets: [(jitter, [call per thread])], each the first calls of a fresh process.
    Returns recorded histories of those that differ from the calls run alone, and some others."""
    plan, out = os.path.join(ctx.scratch, "race.plan"), os.path.join(ctx.scratch, "race.out")
    lines, where, n = [], [], 0
    for i, (j, calls) in enumerate(sets):
        for t, c in enumerate(calls):
            lines.append("%d %d %d %d %s\n" % (i, n, t, j, c.text))
            where.append((i, t, c))
            n += 1
    with open(plan, "w") as f:
        f.writelines(lines)
    import subprocess
    try:
        p = subprocess.run([ctx.h.path, "race", plan, out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=ctx.q(200, 3000))
        if p.returncode:
            raise ToolError("race: exit %d %s" % (p.returncode, p.stderr.decode()[-300:]))
        done = len(sets)
    except subprocess.TimeoutExpired:
        ctx.notes.append("first-call races: time is up")
        done = None
    res, _ = parse_exec(open(out).read())
    if done is None:
        done = max([where[k][0] for k in res] + [0])
    ctx.executed += len(res)
    texts = {c.text: c for _, _, c in where}
    alone = dict(zip(texts, alone_table(ctx.h, list(texts.values()))))
    hists, odd = {}, set()
    for k, (i, t, c) in enumerate(where):
        if i >= done:
            continue
        r = res.get(k, ("abort", "-", 10**6 + 2 * t, 10**6 + 2 * t + 1))
        if r[0] == "hang":
            r = ("hang", "-", 10**6 + 2 * t, 10**6 + 2 * t + 1)
        hists.setdefault(i, []).append((t, c, r))
        if r[:2] != alone[c.text]:
            odd.add(i)
    os.remove(plan)
    os.remove(out)
    ctx.notes.append("first-call races: %d, %d nominated" % (done, len(odd)))
    keep = sorted(odd)[:20] or sorted(hists)[::max(1, len(hists) // 200)]
    return [hists[i] for i in keep]


def c10(ctx):
    ctx.build()
    api_model(ctx, 2, ctx.q(4, 5))
    if ctx.deep:
        api_model(ctx, 3, 4)
    focus = "history" if ctx.h.hooks else "public"
    for threads, b, tb in ((CORES, 12000, 400000), (4 * CORES, 8000, 300000), (300, 2000, 60000)):
        bad, _ = ctx.screened(focus, ctx.q(b, tb), threads=threads, sample=0, max_s=ctx.q(60, 1200))
        nominated(ctx, bad, "%d threads (nominated)" % threads)
    # all threads in the same function: the narrowest windows
    solo = ["lyra2rev3", "lyra2rev2", "lyra2re", "lyra2z", "sum", "bind"] + (["cubehash", "bmw", "lyramod"] if ctx.h.hooks else [])
    for f in solo:
        bad, _ = ctx.screened(f, 10**7, threads=2 * CORES, sample=0, max_cost=2000, max_s=ctx.q(4, 120))
        nominated(ctx, bad, "all threads in %s (nominated)" % f)
    rng = ctx.rng
    pairs = [tuple(x) for x in plan("history", ctx.scratch)]
    # every pair of classes at the same time as the first calls of a process
    plans = []
    for a, b in pairs:
        plans.append([[concrete(rng, a if i % 2 == 0 else b) for _ in range(3)] for i in range(8)])
    # the first calls of a process at the same time, in one function
    sets = []
    cl = ["rev2", "rev3", "re", "z", "small", "sum", "bigkey", "panic_len"] + (["cubehash", "bmw", "lyramod"] if ctx.h.hooks else [])
    for i in range(ctx.q(8800, 200000)):
        cls = cl[i % len(cl)]
        if cls in ("cubehash", "bmw"):
            mk = lambda: Call.one(cls, random.Random(rng.randrange(2)).randbytes(32))
        elif cls == "lyramod":
            mk = lambda: Call.lyra(32, random.Random(rng.randrange(2)).randbytes(8), b"saltsalt", 1, 4, 4, True)
        else:
            mk = lambda: concrete(rng, cls)
        sets.append(((0, 300, 3000, 30000)[i // len(cl) % 4], [mk() for _ in range((CORES - 2, CORES - 3, 2, 3)[i // (4 * len(cl)) % 4])]))
    judge_histories(ctx, race(ctx, sets), "first calls at the same time")
    for _ in range(ctx.q(20, 300)):
        plans.append([[concrete(rng, rng.choice(pairs)[0]) for _ in range(12)] for _ in range(16)])
    # more threads than a table of slots for them may have
    for n in (70, 140, 270, 530):
        for cls in ("small", "rev3", "re") + (("rev2", "z", "wide", "panic_t", "sum_long") if ctx.deep else ()):
            plans.append([[concrete(rng, cls) for _ in range(3)] for _ in range(n)])
    with ThreadPoolExecutor(4) as ex:
        hs = list(ex.map(lambda p: concurrent(ctx, p), plans))
    judge_histories(ctx, [h for h in hs if h], "concurrent runs")
