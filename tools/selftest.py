#!/usr/bin/env python3
"""python3 tools/selftest.py: shows that the binding binds.  Records real calls, histories and
relations, corrupts one field of each recording, and demands that TLC accepts the recording and
rejects every corruption.  Exit 0: all as it must be."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from history import judge_histories, sequential
from vlib import *


def main():
    ctx = check.Ctx("C01", "quick", 1)
    ctx.build()
    failed = []

    def must(ok, name, f, *a):
        try:
            f(*a)
            got = True
        except Violation:
            got = False
        print("%-60s %s" % (name, "accepted" if got else "rejected"))
        if got != ok:
            failed.append(name)

    def flip(h, i):
        return h[:i] + "0123456789abcdef"[int(h[i], 16) ^ 1] + h[i + 1:]
    calls = [Call.lyra(100, b"password", b"saltsalt", 2, 5, 2), Call.one("lyra2sum", b"x" * 40), Call.one("lyra2re", b"abc"),
             Call.one("lyra2rev2", b"abc"), Call.one("lyra2rev3", b"abc"), Call.one("lyra2z", b"abc")]
    if ctx.h.hooks:
        calls += [Call.lyra(32, b"password", b"saltsalt", 3, 6, 1, True), Call.one("cubehash", bytes(32)), Call.one("bmw", b"abc")]
    for c in calls:
        oc, hx = run_alone(ctx.h, c)
        must(True, c.brief(50), ctx.judge_calls, [(c, oc, hx)], 60, "selftest")
        must(False, "  one bit of the value", ctx.judge_calls, [(c, oc, flip(hx, len(hx) - 1))], 60, "selftest")
        must(False, "  one byte too few", ctx.judge_calls, [(c, oc, hx[:-2])], 60, "selftest")
        must(False, "  panic instead", ctx.judge_calls, [(c, "panic", "-")], 60, "selftest")
    # the recording of one call under the arguments of another
    f = calls[0].fields()
    oc, hx = run_alone(ctx.h, calls[0])
    for name, ch in (("k", dict(k=101)), ("t", dict(t=3)), ("r", dict(r=6)), ("c", dict(c=3)), ("pwd", dict(pwd=b"passwore")), ("salt", dict(salt=b"saltsalu"))):
        g = dict(f, **ch)
        c = Call.lyra(g["k"], g["pwd"], g["salt"], g["t"], g["r"], g["c"])
        must(False, "  recorded with another " + name, ctx.judge_calls, [(c, oc, hx)], 60, "selftest")
    # rejected calls
    bad = Call.lyra(32, b"", b"", 0, 4, 4)
    must(True, bad.brief(), ctx.judge_calls, [(bad,) + run_alone(ctx.h, bad)], 60, "selftest")
    must(False, "  a key instead", ctx.judge_calls, [(bad, "ok", "00" * 32)], 60, "selftest")
    must(True, "  domain", ctx.judge_domain, [(bad,) + run_alone(ctx.h, bad)], "selftest")
    must(False, "  domain, a key instead", ctx.judge_domain, [(bad, "ok", "00" * 32)], "selftest")
    must(False, "  domain, a hang instead", ctx.judge_domain, [(calls[0], "hang", "-")], "selftest")
    # histories
    h = sequential(ctx, [calls[0], bad, calls[2], calls[0]])
    must(True, "history of four calls", judge_histories, ctx, [h], "selftest")
    for j in range(4):
        t, c, r = h[j]
        w = ("panic", "-") if r[0] == "ok" else ("ok", "00")
        must(False, "  other outcome of call %d" % (j + 1), judge_histories, ctx, [h[:j] + [(t, c, w + r[2:])] + h[j + 1:]], "selftest")
    # relations
    a, b = ("x", calls[0], "ok", "aa", 1, 1, "a"), ("y", calls[1], "ok", "bb", 1, 1, "b")
    must(True, "two distinct values", ctx.judge_groups, [("distinct", [a, b])], "selftest")
    must(False, "  the same value twice", ctx.judge_groups, [("distinct", [a, b[:3] + ("aa",) + b[4:]])], "selftest")
    must(False, "  wrong size", ctx.judge_groups, [("distinct", [a, b[:4] + (2, 1, "b")])], "selftest")
    must(True, "two equal values", ctx.judge_groups, [("same", [a, a])], "selftest")
    must(False, "  different values", ctx.judge_groups, [("same", [a, b])], "selftest")
    # memory and effects
    def raw(module, ev):
        r = ctx._tlc_traces(module, [dict(ev=ev)], "selftest")
        if not r.ok:
            raise Violation(r.violated, "")
    m = lambda need, peak, live: dict(need=need, peak=peak, live=live, reps=1)
    must(True, "memory: given back", raw, "TraceMem", [m(1000, 2000, 0), m(5000, 40000, 30000), m(10, 10, 30000)])
    must(False, "  a peak too high", raw, "TraceMem", [m(1000, 2000, 0), m(1000, 8000 + 65537, 0)])
    must(False, "  too much remains", raw, "TraceMem", [m(1000, 2000, 0), m(500, 900, 8000 + 65537)])
    e = ["begin", "memory", "wait", "end"]
    must(True, "effects: none", raw, "TraceEffects", e + e)
    must(False, "  a write inside a call", raw, "TraceEffects", e + ["begin", "memory", "write(2", "end"])
    must(False, "  something left changed", raw, "TraceEffects", e + ["left:panic-hook"] + e)
    must(False, "  a call that does not end", raw, "TraceEffects", ["begin", "memory", "begin"])
    # monitored runs
    s = lambda *ev: dict(events=list(ev))
    def safe(*ev):
        r = ctx._tlc_traces("TraceSafe", [s(*ev)], "selftest")
        if not r.ok:
            raise Violation(r.violated, "")
    must(True, "monitored run", safe, "ok", "panic", "ok", "ended")
    for k in ("outside", "stale", "race", "undefined"):
        must(False, "  a report: " + k, safe, "ok", k, "ended")
    must(False, "  an unknown event", safe, "ok", "what", "ended")
    shutil.rmtree(ctx.scratch, ignore_errors=True)
    print("selftest:", "ok" if not failed else "FAILED: %s" % failed)
    return 1 if failed else 0


if __name__ == "__main__":
    sys.exit(main())
