#!/usr/bin/env python3
"""python3 tools/replay.py <file>: run the calls of a replay file on /repo's current tree again.
Exit 0: as specified now.  Exit 1: still not.  Exit 2: could not be decided."""
import json, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from vlib import *


def same_or_distinct(ctx, d):
    hs = {}
    def h(where):
        p = where if where in ("release", "checked", "dev", "small") else "release"
        if p not in hs:
            hs[p] = ctx.build(p)
        return hs[p]
    runs = []
    for r in d["runs"]:
        c = Call(r["call"])
        oc, hx = run_alone(h(r["where"]), c)
        f = c.fields()
        arg = c.text if d["rel"] == "distinct" else "x"
        if d["property"] == "C02":
            hx = hx[:64]
        size = 0 if hx == "-" else len(hx) // 2
        runs.append((arg, c, oc, hx, size, size if d["property"] == "C02" else f.get("k", 32), r["where"]))
    ctx.judge_groups([(d["rel"], runs)], "replay")


def history(ctx, d):
    from history import concurrent, judge_histories, sequential
    ctx.build()
    calls = [(t, Call(x)) for t, x in d["history"]]
    if not calls or calls[-1][1].text != d["call"]:
        calls.append((d.get("thread", 0), Call(d["call"])))
    if len({t for t, _ in calls}) == 1:
        judge_histories(ctx, [sequential(ctx, [c for _, c in calls])], "replay")
        return
    n = max(t for t, _ in calls) + 1
    per = [[c for t, c in calls if t == i] for i in range(n)]
    for _ in range(200):
        judge_histories(ctx, [concurrent(ctx, per)], "replay")


def main():
    d = json.load(open(sys.argv[1]))
    ctx = check.Ctx(d["property"], "quick", 1)
    try:
        k = d["kind"]
        if d["property"] == "C19":
            import machines
            ctx.build()
            w, e = machines.Wasm(ctx), machines.Emulated(ctx, "s390x")
            try:
                cs = [Call(x["call"]) for x in d["runs"][:1]] if k == "group" else [Call(d["call"])]
                if k == "work":
                    machines.endless_on(ctx, w)
                elif k == "domain":
                    o, h = w.run(ctx, cs, 100)[0]
                    ctx.judge_domain([(cs[0], o, h)], "replay", huge=machines.beyond32)
                else:
                    for m in (w, e):
                        machines.judge_machine(ctx, m, cs, m.run(ctx, cs, 300), "replay", 600, 10)
            finally:
                e.close()
        elif k == "safety":
            import safety
            safety.replay(ctx, d)
        elif k in ("call", "domain"):
            ctx.build()
            c = Call(d["call"])
            e = (c,) + run_calls(ctx.h, [c], env=dict(HANG_CPU="120"))[0][:2]
            print("now:", e[1], e[2][:80])
            if k == "domain":
                ctx.judge_domain([e], "replay")
            elif c.cost_ms() < 120000:
                ctx.judge_calls([e], 600, "replay")
            elif reference(ctx.h, c) != e[1:]:
                raise Violation("%s: not as in the transcription" % c.brief(), sys.argv[1])
        elif k == "group" and d["property"] != "C18":
            same_or_distinct(ctx, d)
        elif k == "history":
            history(ctx, d)
        elif k == "memory":
            from memory import judge_memory
            ctx.build(bins=("harness", "mem"))
            judge_memory(ctx, [[(x[0], x[1], Call(x[2])) for x in d["plan"]]], "replay")
        elif k == "effects":
            from effects import judge_effects
            ctx.build(bins=("harness", "odd", "effects"))
            judge_effects(ctx, [[Call(x) for x in d["calls"]]], "replay")
        elif k == "group" and d["property"] == "C18":
            from effects import judge_worlds
            ctx.build(bins=("harness", "odd", "effects"))
            judge_worlds(ctx, [Call(d["runs"][0]["call"])], "replay")
        elif k == "work":
            ctx.build()
            check.endless(ctx, Call(d["call"]).fn == "lyra2mod")
        else:
            print("nothing to run for kind", k)
            return 2
        print("as specified")
        return 0
    except Violation as v:
        print(v.what)
        print("STILL BROKEN property=%s" % d["property"])
        return 1
    except ToolError as e:
        print(e, file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
