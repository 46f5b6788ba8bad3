#!/usr/bin/env python3
"""python3 tools/check.py <property> [--tier quick|thorough] [--seed N]

Decides one property: checks the TLA+ models it rests on, runs the real code (built from
/repo's working tree) on cases generated from the specification, on sampled and on screened
inputs, and lets TLC judge what was recorded.
Exit 0: held.  Exit 1 and a VIOLATION line: broken.  Exit 2: the check itself failed."""
import argparse, hashlib, json, os, random, shutil, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.deep = tier == "thorough"
        self.t0 = time.time()
        self.scratch = os.path.join(OUT, "run-%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.states = self.transitions = self.traces = 0
        self.models, self.samples, self.screens, self.notes = [], [], [], []
        self.builds = []
        self.executed = 0
        self.deadline = self.t0 + (5400 if self.deep else 480)
        self.h = None

    def q(self, quick, thorough):
        return thorough if self.deep else quick

    # ---- stages
    def build(self, profile="release", bins=("harness",)):
        h = build(profile, bins)
        self.builds.append(dict(profile=profile, hooks=h.hooks))
        if not h.hooks:
            self.notes.append("hooks do not compile on this tree: public interface only (%s)" % profile)
        if profile == "release":
            self.h = h
        return h

    def model(self, module, cfg, expect_ok=True, label=None, **kw):
        """a model-checking run that does not depend on the code under test"""
        if isinstance(cfg, dict):
            path = os.path.join(self.scratch, "%s-%d.cfg" % (module, len(self.models)))
            with open(path, "w") as f:
                f.write(cfg["text"])
            cfg = path
        r = tlc(module, cfg, self.scratch, **kw)
        if r.ok != expect_ok:
            raise ToolError("model %s %s: expected %s, TLC says %s\n%s" % (
                module, label or "", "no error" if expect_ok else "a violation", r.violated or "no error", r.output[-1500:]))
        if expect_ok:
            self.states += r.distinct
            self.transitions += r.generated
        self.models.append(dict(module=module, label=label or os.path.basename(cfg), states=r.distinct,
                                result="holds" if r.ok else "violated, as it must be"))

    def proof(self, module, edits, label):
        """a proof, and variants of it that must fail"""
        try:
            with ThreadPoolExecutor(4) as ex:
                n, *bad = list(ex.map(lambda e: tlaps(module, self.scratch, e), [None] + (edits if self.deep else [])))
        except Timeout as e:
            self.notes.append(str(e))
            return
        if n is None:
            raise ToolError("proof %s: an obligation is not proved" % module)
        if any(b is not None for b in bad):
            raise ToolError("proof %s: a variant that must fail is proved" % module)
        self.models.append(dict(module=module, label=label, states=0, result="proved: %d obligations" % n + ("; %d wrong variants are not, as it must be" % len(bad) if bad else "")))

    def _tlc_traces(self, module, recs, what, env=None, timeout=800):
        path = os.path.join(self.scratch, "trace-%s-%d.ndjson" % (module, int(time.time() * 1e6)))
        write_ndjson(path, recs)
        e = dict(env or {}, TRACE=path)
        r = tlc(module, module + ".cfg", self.scratch, e, timeout=timeout)
        if r.ok and r.generated - r.distinct != len(recs):
            raise ToolError("%s: %d traces, %d generated, %d distinct: some behaviour did not reach its end" %
                            (what, len(recs), r.generated, r.distinct))
        if r.ok:
            self.states += r.distinct
            self.transitions += r.generated
            self.traces += len(recs)
            os.remove(path)
        return r

    def replay_file(self, data):
        d = os.path.join(OUT, "replay")
        os.makedirs(d, exist_ok=True)
        data = dict(property=self.pid, **data)
        s = json.dumps(data, indent=1)
        p = os.path.join(d, "%s-%s.json" % (self.pid, hashlib.sha256(s.encode()).hexdigest()[:12]))
        with open(p, "w") as f:
            f.write(s + "\n")
        return p

    def judge_calls(self, events, budget_s, what, module="TraceCalls", timeout=800):
        """events: [(call, outcome, hex, ...)].  TLC decides about each; batches until the
        budget is used.  Raises Violation on the first one the specification does not allow."""
        end = min(time.time() + budget_s, self.deadline)
        i = 0
        while i < len(events):
            batch, cost = [], 0
            while i < len(events) and len(batch) < 600 and (not batch or cost + events[i][0].cost_ms() < 60000):
                cost += events[i][0].cost_ms()
                batch.append(events[i])
                i += 1
            r = self._tlc_traces(module, [record(e[0], e[1], e[2]) for e in batch], what, timeout=timeout)
            if not r.ok:
                n = int(r.fields["n"]) - 1
                call, outcome, hx = batch[n][:3]
                spec = "panic" if r.fields.get("pc") == "rejected" else r.fields.get("spec", "?")
                at = int(r.fields.get("at") or 0)
                seen = (hx if hx != "-" else "")[2 * at:] or "no more" if outcome == "ok" else outcome
                raise Violation("%s:%s code gives %s, specification %s" % (
                    call.brief(), " at byte %d" % at if at else "", seen[:80], spec[:80] or "no more"),
                                self.replay_file(dict(kind="call", call=call.text, observed=[outcome, hx], at=at, specified=spec,
                                                      invariant=r.violated, stage=what)))
            for e in batch[:2]:
                if len(self.samples) < 12:
                    self.samples.append(dict(stage=what, call=e[0].brief(), outcome=e[1], value=e[2][:80]))
            if time.time() > end:
                if i < len(events):
                    self.notes.append("%s: %d of %d recorded calls validated within the time budget" % (what, i, len(events)))
                break

    def confirmed(self, bad, what):
        """a call that seemed to hang among many others has to hang on its own"""
        out, n = [], 0
        for e in bad:
            if e[1] == "hang" and n < 5:
                n += 1
                alone = run_calls(self.h, [e[0]], env=dict(HANG_CPU="120", HANG_WALL="400"))[0][:2]
                if alone[0] != "hang":
                    self.notes.append("%s: %s seemed to hang, gives %s on its own" % (what, e[0].brief(), alone[0]))
                e = (e[0],) + alone + e[3:]
            out.append(e)
        return out

    def judge_bad(self, bad, what, anchors=()):
        """calls nominated by the screen: cheapest first, TLC has the last word.  Where all of
        them are too long for TLC, the fast transcription of the specification that nominated
        them decides, after TLC has confirmed it on sampled calls."""
        if not bad:
            return
        bad = self.confirmed(bad, what)
        cap = self.q(60000, 600000)
        cheap = sorted(bad, key=lambda e: e[0].cost_ms())
        short = [e for e in cheap if e[0].cost_ms() <= cap]
        decided = 0
        try:
            if short:
                self.judge_calls(short[:12], 150, what + " (nominated)", timeout=300)
                decided = min(12, len(short))
            for e in short[12:16]:
                self.judge_calls([e], 60, what + " (nominated)", timeout=120)
                decided += 1
        except Timeout:
            self.notes.append("%s: TLC ran out of time on nominated calls" % what)
        if decided:
            self.notes.append("%s: %d calls nominated, none of %d rejected by the specification" % (what, len(bad), decided))
            return
        self.judge_calls([e for e in anchors if e[0].cost_ms() < 3000][:60], 60, what + " (anchors of the transcription)")
        for e in cheap[:3]:
            call, outcome, hx = e[:3]
            want = reference(self.h, call)
            if want != (outcome, hx):
                raise Violation("%s: code gives %s, specification (fast transcription; too long for TLC) %s" % (
                    call.brief(), (hx if outcome == "ok" else outcome)[:80], want[1][:80] if want[0] == "ok" else want[0]),
                    self.replay_file(dict(kind="call", call=call.text, observed=[outcome, hx], specified=list(want),
                                          stage=what, judge="transcription")))

    def judge_domain(self, events, what, huge=lambda f: 12 * f["r"] * f["c"] >= 1 << 60):
        for i in range(0, len(events), 3000):
            batch = events[i:i + 3000]
            recs = []
            for e in batch:
                f = e[0].fields()
                recs.append(dict(k=min(f["k"], 1 << 30), pl=min(len(f["pwd"]), 1 << 29), sl=min(len(f["salt"]), 1 << 29), t=f["t"],
                                 r=min(f["r"], 1 << 30), c=min(f["c"], 1 << 30), huge=huge(f),
                                 outcome=e[1], outlen=0 if e[2] == "-" else len(e[2]) // 2))
            r = self._tlc_traces("TraceDomain", recs, what)
            if not r.ok:
                n = int(r.fields["n"]) - 1
                e = batch[n]
                raise Violation("%s: code: %s, specification: %s" % (e[0].brief(), e[1], r.fields.get("spec")),
                                self.replay_file(dict(kind="domain", call=e[0].text, observed=[e[1], e[2]],
                                                      specified=r.fields.get("spec"), stage=what)))
            for e in batch[:2]:
                if len(self.samples) < 12:
                    self.samples.append(dict(stage=what, call=e[0].brief(), outcome=e[1]))

    def judge_groups(self, groups, what, describe=None):
        """groups: [(rel, [(arg, call, outcome, hex, size, want, where)])]"""
        for i in range(0, len(groups), 2000):
            batch = groups[i:i + 2000]
            recs = [dict(rel=g[0], runs=[dict(arg=x[0], outcome=x[2], out=x[3], size=x[4], want=x[5]) for x in g[1]])
                    for g in batch]
            r = self._tlc_traces("TraceRel", recs, what)
            if not r.ok:
                rel, runs = batch[int(r.fields["n"]) - 1]
                k = int(r.fields["pc"]) - 1
                last = runs[k]
                other = [x for x in runs[:k] if (x[2:4] == last[2:4]) == (rel == "distinct")]
                other = other[0] if other else last
                if r.violated == "Total":
                    msg = "%s: %s, %s bytes (want %s)" % (last[1].brief(), last[2], last[4], last[5])
                elif rel == "same":
                    msg = "%s [%s] gives %s, %s [%s] gives %s" % (
                        last[1].brief(), last[6], (last[3] if last[2] == "ok" else last[2])[:70],
                        other[1].brief(), other[6], (other[3] if other[2] == "ok" else other[2])[:70])
                else:
                    msg = "%s and %s give the same value %s" % (last[1].brief(), other[1].brief(), last[3][:70])
                raise Violation(msg, self.replay_file(dict(
                    kind="group", rel=rel, stage=what, invariant=r.violated,
                    runs=[dict(call=x[1].text, outcome=x[2], out=x[3], where=x[6]) for x in (other, last)])))
            if batch and len(self.samples) < 12:
                g = batch[0]
                self.samples.append(dict(stage=what, rel=g[0], runs=[
                    dict(call=x[1].brief(80), where=x[6], outcome=x[2], out=x[3][:64]) for x in g[1][:3]]))

    def screened(self, focus, blocks, **kw):
        h = kw.pop("h", None) or self.h
        bad, smp, st = screen(h, self.scratch, focus, self.seed, blocks, **kw)
        st["nominated"] = len(bad)
        st["profile"] = h.profile
        self.screens.append(st)
        return bad, smp

    def run(self, calls):
        rs = run_parallel(self.h, calls)
        self.executed += len(calls)
        return [(c, r[0], r[1]) for c, r in zip(calls, rs) if r is not None]

    # ---- evidence
    def evidence(self, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or [dict(note="none")], models=self.models,
                   screened_calls=sum(s["calls"] for s in self.screens), screens=self.screens,
                   executed_planned_calls=self.executed, builds=self.builds, notes=self.notes)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=ASSUMPTIONS, wall_s=round(time.time() - self.t0, 2), violations=violations)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)


ASSUMPTIONS = [
    "TLC, the JVM and the CommunityModules Bitwise/SequencesExt overrides evaluate TLA+ correctly",
    "the harness records arguments and outcomes faithfully (catch_unwind separates panics from values)",
    "the screen's fast transcription only nominates calls; calls it does not nominate and that are not sampled were not judged by TLC",
]

VECTORS_DONE = "Vectors"


def lyra_calls(ctx, cases, mod=False, style=None):
    out = []
    for x in cases:
        p, s = fill(ctx.rng, x["pl"], style), fill(ctx.rng, x["sl"], style)
        out.append(Call.lyra(x["k"], p, s, x["t"], x["r"], x["c"], mod))
    return out


def shuffled(ctx, xs, limit=None):
    xs = list(xs)
    ctx.rng.shuffle(xs)
    return xs if limit is None else xs[:limit]


CONTROL = lambda maxr, maxt, minr=3: dict(text="""SPECIFICATION Spec
CONSTANTS
  MinR = %d
  MaxR = %d
  MaxT = %d
VIEW View
INVARIANTS TypeOK FillSound AllFilled WindowFair PassSound PassCovers InMatrix
PROPERTY Terminates
CHECK_DEADLOCK TRUE
""" % (minr, maxr, maxt))


def model_control(ctx):
    m = ctx.q((40, 3), (130, 4))
    ctx.model("MCControl", CONTROL(*m), label="R 3..%d, T 1..%d, every choice of revisited rows" % m)


def model_schedule(ctx):
    cfg = lambda fill, r, v: dict(text="SPECIFICATION Spec\nCONSTANTS\n MaxFill = %d\n MaxR = %d\n Variant = \"%s\"\n"
                                  "INVARIANTS FillSound Closed Fair Step Linear Bounded Covers\nCHECK_DEADLOCK TRUE\n" % (fill, r, v))
    m = ctx.q(2600, 20000)
    ctx.model("MCSchedule", cfg(65535, m, "lyra2"), label="filling of up to 65535 rows; passes of both kinds for R 3..%d" % m)
    for v in ("nogap", "evenstep"):
        ctx.model("MCSchedule", cfg(100, 40, v), expect_ok=False, label="negative: " + v)


INDUCTION = [  # init, next, invariant, steps, holds
    ("InitFill", "Next", "AnyFill", 0, True), ("IndFill", "Next", "AnyFill", 1, True), ("IndFill", "Next", "SoundFill", 0, True),
    ("InitWander", "Next", "AnyWander", 0, True), ("IndWander", "Next", "AnyWander", 1, True),
    ("IndWander", "Next", "SoundWander", 0, True), ("InitPair", "NoStep", "Different", 0, True),
    ("IndFill", "NoGap", "AnyFill", 1, False), ("IndWander", "EvenStep", "AnyWander", 1, False)]


def model_induction(ctx):
    """the schedule for every number of rows: an inductive invariant, checked with Apalache"""
    def go(x):
        init, nxt, inv, n, ok = x
        r = apalache("ScheduleInd", ctx.scratch, init, nxt, inv, n)
        if r != ok:
            raise ToolError("ScheduleInd %s/%s => %s: %s" % (init, nxt, inv, r))
        return dict(module="ScheduleInd", label="%s, %d step(s) of %s => %s, unbounded integers (Apalache)" % (init, n, nxt, inv),
                    states=0, result="holds" if ok else "violated, as it must be")
    with ThreadPoolExecutor(4) as ex:
        ctx.models += list(ex.map(go, INDUCTION))


def model_vectors(ctx):
    ctx.model("Vectors", "Vectors.cfg", label="published test vectors of the primitives", workers=1)


# ------------------------------------------------------------- properties
def value_property(ctx, foci, plans, mod=False, sample=400, sample_cost=300, budget=45, tbudget=1500, **kw):
    """recorded calls against the full machine"""
    nominated, samples = [], []
    for focus, blocks, tblocks in foci:
        bad, smp = ctx.screened(focus, ctx.q(blocks, tblocks), sample=ctx.q(sample, sample * 8), sample_cost=sample_cost,
                                max_s=ctx.q(40, 1200), **kw)
        ctx.judge_bad(bad, "screen " + focus, smp)
        samples += smp
    planned = []
    for name in plans:
        planned += lyra_calls(ctx, plan(name, ctx.scratch, ctx.deep), mod)
    ev = ctx.run(planned)
    ctx.judge_calls(shuffled(ctx, ev), ctx.q(budget, tbudget), "planned cases")
    ctx.judge_calls(shuffled(ctx, samples), ctx.q(budget, tbudget), "sampled calls")


def endless(ctx, mod=False):
    """time costs that no machine can finish: a key must not come back"""
    cl = [Call.lyra(32, fill(ctx.rng, 8), fill(ctx.rng, 8), t, 3, 1, mod)
          for t in (1 << 31, (1 << 31) + 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 4, (1 << 40) + 2, 1 << 63, (1 << 64) - 1)]

    def go(c):
        t0 = time.time()
        r = run_calls(ctx.h, [c], env=dict(HANG_CPU="1"))[0]
        return r, int((time.time() - t0) * 1000) + 1
    with ThreadPoolExecutor(CORES) as ex:
        rs = list(ex.map(go, cl))
    ctx.executed += len(cl)
    recs = [dict(units=min(c.fields()["t"] // 10**6, 1 << 30), ms=ms if r[0] == "ok" else 0, outcome=r[0]) for c, (r, ms) in zip(cl, rs)]
    r = ctx._tlc_traces("TraceWork", recs, "endless calls")
    if not r.ok:
        n = int(r.fields["n"]) - 1
        c, (o, ms) = cl[n], rs[n]
        raise Violation("%s: %s after %d ms" % (c.brief(), o[0], ms), ctx.replay_file(dict(
            kind="work", call=c.text, observed=list(o[:2]), ms=ms, stage="endless calls", invariant=r.violated)))


def far(ctx, which, mod=False):
    """one parameter in the millions, against the fast transcription"""
    w = lambda: fill(ctx.rng, 8)
    deep = ctx.q(0, 1)
    calls = []
    for p in which:
        top = dict(t=24, r=22, c=22, k=20)[p] + 2 * deep
        for e in {top, ctx.rng.randrange(18, top)}:
            v = (1 << e) + ctx.rng.choice([1, 1, 5, 1 << (e - 4)])
            a = dict(k=32, t=1, r=3, c=1)
            a[p] = v
            calls.append(Call.lyra(a["k"], w(), w(), a["t"], a["r"], a["c"], mod))
    for _ in range(ctx.q(1, 6) if "r" in which and "c" in which else 0):
        calls.append(Call.lyra(40, w(), w(), ctx.rng.choice([1, 2]), ctx.rng.choice([1023, 1024, 1025, 4097]), ctx.rng.choice([256, 257, 1025]), mod))
    with ThreadPoolExecutor(ctx.q(4, 2)) as ex:
        got = list(ex.map(lambda c: run_calls(ctx.h, [c], env=dict(HANG_CPU="400", HANG_WALL="800"), timeout=900)[0], calls))
        want = list(ex.map(lambda c: reference(ctx.h, c), calls))
    ctx.executed += len(calls)
    anchors = [Call.lyra(32 + 50 * i, w(), w(), 1 + i % 3, 3 + i, 1 + i, mod) for i in range(6)]
    ctx.judge_bad([(c, g[0], g[1]) for c, g, x in zip(calls, got, want) if g[:2] != x], "parameters in the millions", ctx.run(anchors))
    ctx.notes.append("parameters in the millions: %s" % [c.brief(40) for c in calls])


def c01(ctx):
    ctx.build()
    model_control(ctx)
    endless(ctx)
    far(ctx, "trc")
    value_property(ctx, [("lyra", 60000, 2000000)], ["costs"])


def c02(ctx):
    ctx.build()
    for fields, ok in (("all", True), ("nolengths", False), ("nopad", False)):
        ctx.model("Encoding", dict(text="SPECIFICATION Spec\nCONSTANTS\n MaxWords = %d\n Vals = {1, 3}\n Fields = \"%s\"\nVIEW TView\nINVARIANTS Injective\n"
                                   % (ctx.q(2, 3) if ok else 1, fields)), expect_ok=ok, label="padding, fields=" + fields)
    ctx.proof("EncodingProof", [("Mark # Zero /\\ Mark # Last", "Mark # Last")], "padding is injective, any lengths")
    # related calls: any change of a word or of a parameter changes the key
    rng, groups = ctx.rng, []
    for _ in range(ctx.q(60, 600)):
        r, c, t, k = rng.choice([4, 5, 8]), rng.choice([4, 6, 8]), rng.choice([1, 1, 2]), rng.choice([32, 32, 40, 96, 100])
        pw, sw = rng.randrange(0, 14), rng.randrange(0, 14)
        same = rng.random() < 0.2
        p = fill(rng, 8 * pw)
        s = p if same else fill(rng, 8 * sw)
        vs = {}

        def add(k=k, p=p, s=s, t=t, r=r, c=c):
            x = Call.lyra(k, p, s, t, r, c)
            vs[x.text] = x
        add()
        for b, w in ((p, 0), (s, 1)):
            for j in range(len(b) // 8):
                y = bytearray(b)
                y[8 * j + rng.randrange(8)] ^= 1 << rng.randrange(8)
                add(**{"p" if w == 0 else "s": bytes(y)})
        for j in range(0, pw + 1):        # move words from the password to the salt
            add(p=p[:8 * j], s=p[8 * j:] + s)
        for j in range(0, len(s) // 8 + 1):
            add(p=p + s[:8 * j], s=s[8 * j:])
        add(p=s, s=p)
        add(p=p + bytes(8)); add(s=s + bytes(8)); add(s=bytes(8) + s); add(p=bytes(8) + p)
        add(p=p[8:]); add(s=s[8:]); add(p=p[:-8]); add(s=s[:-8]); add(p=b""); add(s=b"")
        for kk in (32, 33, 34, 48, 64, 95, 96, 97, 192, 256):
            add(k=kk)
        for tt in (1, 2, 3, 4):
            add(t=tt)
        for rr in (4, 5, 6, 7, 8, 9):
            add(r=rr)
        for cc in (4, 5, 6, 7, 8):
            add(c=cc)
        if r != c:
            add(r=c, c=r)
        groups.append(list(vs.values()))
    flat = [x for g in groups for x in g]
    ev = ctx.run(flat)
    by = {e[0].text: e for e in ev}
    gs = []
    for g in groups:
        runs = []
        for x in g:
            if x.text in by:
                _, oc, hx = by[x.text]
                f = x.fields()
                # parameters bound to the key: compare the 32 bytes that all of them have
                runs.append((x.text, x, oc, hx[:64], 0 if hx == "-" else len(hx) // 2, f["k"], "release"))
        gs.append(("distinct", runs))
    ctx.judge_groups(gs, "related calls")
    far(ctx, "ktrc")
    value_property(ctx, [("bind", 80000, 2000000)], ["aligned", "lengths"], sample=250, budget=30)
    # the recorded finding: bytes after the last whole word are not bound
    a, b = (run_alone(ctx.h, Call.lyra(32, p, b"saltsalt", 1, 4, 4)) for p in (b"password1", b"password2"))
    if a == b:
        known(ctx, "trailing-bytes-ignored",
              'lyra2(32, "password1", "saltsalt", 1, 4, 4) = lyra2(32, "password2", "saltsalt", 1, 4, 4): '
              "the last len%8 bytes of password and salt are not absorbed")


def known(ctx, key, what):
    if not any(l.startswith("known: property=%s key=%s" % (ctx.pid, key)) for l in open(KNOWN)):
        raise Violation(what, ctx.replay_file(dict(kind="finding", key=key, what=what)))
    print("KNOWN-FINDING: property=%s %s" % (ctx.pid, what))
    ctx.notes.append("known finding: " + what)


def c03(ctx):
    ctx.build()
    # lengths that no machine finishes: a key of another length must not come back
    runs = []
    for k in ((1 << 32) + 16, (1 << 32) + 96, (1 << 33) + 5):
        c = Call.lyra(k, fill(ctx.rng, 8), fill(ctx.rng, 8), 1, 3, 1)
        oc, hx = run_calls(ctx.h, [c], env=dict(HANG_CPU="1"))[0][:2]
        if oc == "ok":
            n = int(hx[1:]) if hx[0] == "~" else 0 if hx == "-" else len(hx) // 2
            runs.append((c.text, c, oc, hx[:64] + "/%d" % n, str(n), str(k), "release"))
    if runs:
        ctx.judge_groups([("distinct", runs)], "very long keys")
    far(ctx, "k")
    value_property(ctx, [("klen", 80000, 2000000)], ["keys"], sample=250)


def huge_calls():
    """matrices that cannot be addressed: sizes that overflow machine words"""
    out = []
    for e in (60, 61, 62, 63, 64):
        for d in (-4, -1, 0, 1, 3, 4, 5, 100):
            b = (1 << e) + d
            if 3 <= b < 1 << 64 and not (e == 60 and d < 0):
                for t in (0, 1, 2):
                    out += [Call.lyra(32, b"pwdpwdpw", b"saltsalt", t, b, 1), Call.lyra(32, b"pwdpwdpw", b"saltsalt", t, 3, b),
                            Call.lyra(32, b"pwdpwdpw", b"saltsalt", t, 4, b), Call.lyra(32, b"", b"", t, b, 2)]
    for r, c in ((1 << 32, 1 << 32), ((1 << 32) + 4, 1 << 32), (1 << 33, 1 << 31), (3 << 30, 1 << 34), (1 << 31, (1 << 33) + 1),
                 ((1 << 63) + 4, 4), (4, (1 << 63) + 4), ((1 << 62) + 4, 4), (4, (1 << 62) + 4)):
        out.append(Call.lyra(32, b"pwdpwdpw", b"saltsalt", 1, r, c))
    return out


def c04(ctx):
    ctx.build()
    model_control(ctx)
    for focus, cmp, b, tb in (("domain", "class", 40000, 2000000), ("lyra", "class", 30000, 1000000)):
        bad, smp = ctx.screened(focus, ctx.q(b, tb), cmp=cmp, sample=ctx.q(2500, 20000), sample_cost=20000, max_s=ctx.q(30, 900))
        ctx.judge_domain(sorted(ctx.confirmed(bad, focus), key=lambda e: e[0].cost_ms())[:20], "screen %s (nominated)" % focus)
        ctx.judge_domain(smp, "sampled calls " + focus)
    model_schedule(ctx)
    model_induction(ctx)
    # inputs whose length does not fit 32 bits: too long for a small matrix
    long = [Call("lyra2 32 1 4 4 %s %s" % x) for x in (("z%d" % (1 << 32), "-"), ("-", "z%d" % ((1 << 32) + 8)),
                                                        ("z%d" % ((1 << 32) - 48), "z64"), ("z%d" % (1 << 31), "z%d" % (1 << 31)))]
    ev = ctx.run(lyra_calls(ctx, plan("domain", ctx.scratch, ctx.deep)) + huge_calls())
    ev += [(c,) + run_calls(ctx.h, [c])[0][:2] for c in long]
    ctx.judge_domain(ev, "planned edge cases")
    # rows and columns beyond 32 bits: the memory there is (8 GB of addresses) does not hold the
    # matrix, so however the call ends, it must not be with a key
    b = 1 << 32
    far = [Call.lyra(32, b"pwdpwdpw", b"saltsalt", 1, r, c) for r, c in
           [(b + d, 1) for d in (3, 4, 5, 8)] + [(4, b + d) for d in (1, 3, 4)] + [(b + 4, 4), (8, b + 4), (b + 4, b // 4 + 1), (1 << 40, 3), (5, (1 << 48) + 2)]]
    with ThreadPoolExecutor(CORES) as ex:
        rs = list(ex.map(lambda c: run_calls(ctx.h, [c], wrap=["prlimit", "--as=8000000000"])[0], far))
    ctx.executed += len(far)
    ctx.judge_domain([(c, r[0], r[1]) for c, r in zip(far, rs) if r[0] in ("ok", "panic")], "sizes beyond 32 bits", huge=lambda f: True)


def long_inputs(ctx, fn, anchors):
    """inputs of many megabytes, on both sides of the point where the bit counter leaves 32 bits"""
    lens = [(1 << 26) + 1, (1 << 29) - 1, 1 << 29, (1 << 29) + 1] + ctx.q([], [(1 << 31) + 1, (1 << 32) + 7])
    calls = [Call("%s p%d" % (fn, n)) for n in lens]
    bad = []
    with ThreadPoolExecutor(4) as ex:
        got = list(ex.map(lambda c: run_calls(ctx.h, [c], env=dict(HANG_CPU="200", HANG_WALL="300"))[0], calls))
        want = list(ex.map(lambda c: reference(ctx.h, c), calls))
    ctx.executed += len(calls)
    for c, g, w in zip(calls, got, want):
        if g[:2] != w:
            bad.append((c, g[0], g[1]))
    ctx.judge_bad(bad, "long inputs", anchors)
    ctx.notes.append("long inputs: %s bytes, compared with the fast transcription" % lens)


def coin_property(ctx, fn, blocks, tblocks, budget=45):
    ctx.build()
    model_vectors(ctx)
    bad, smp = ctx.screened(fn, ctx.q(blocks, tblocks), sample=ctx.q(120, 1000), max_s=ctx.q(55, 2000))
    ctx.judge_bad(bad, "screen " + fn, smp)
    long_inputs(ctx, fn, smp)
    cases = plan("coin", ctx.scratch, ctx.deep)
    ev = ctx.run([Call.one(fn, fill(ctx.rng, x["len"], x["fill"])) for x in cases])
    ctx.judge_calls(shuffled(ctx, ev), ctx.q(budget, 1500), "planned cases")
    ctx.judge_calls(shuffled(ctx, smp), ctx.q(budget, 1500), "sampled calls")


def c05(ctx):
    coin_property(ctx, "lyra2re", 200000, 10000000)


def c06(ctx):
    coin_property(ctx, "lyra2rev2", 200000, 10000000)


def c07(ctx):
    coin_property(ctx, "lyra2rev3", 200000, 10000000)


def c08(ctx):
    coin_property(ctx, "lyra2z", 100000, 5000000)


def c11(ctx):
    ctx.build()
    model_vectors(ctx)
    foci = ["cubehash", "bmw"] if ctx.h.hooks else ["lyra2rev2", "lyra2rev3"]
    smp = []
    for f in foci:
        bad, s = ctx.screened(f, ctx.q(600000, 20000000), sample=ctx.q(300, 3000), max_s=ctx.q(35, 1500))
        ctx.judge_bad(bad, "screen " + f, s)
        smp += s
    if ctx.h.hooks:
        calls = []
        for f in foci:
            for bit in range(256):
                calls.append(Call.one(f, (1 << bit).to_bytes(32, "little")))
            calls += [Call.one(f, bytes(32)), Call.one(f, b"\xff" * 32)]
        calls += [Call.one("bmw", fill(ctx.rng, n)) for n in range(56)]
        ev = ctx.run(shuffled(ctx, calls))
        ctx.judge_calls(ev, ctx.q(60, 1500), "planned blocks")
    ctx.judge_calls(shuffled(ctx, smp), ctx.q(40, 1500), "sampled calls")


COINS = ["lyra2re", "lyra2rev2", "lyra2rev3", "lyra2z"]


def digest_group(ctx, fn, inputs, what):
    seen, calls = set(), []
    for x in inputs:
        if x not in seen:
            seen.add(x)
            calls.append((x, Call.one(fn, x)))
    ev = ctx.run([c for _, c in calls])
    by = {e[0].text: e for e in ev}
    runs = []
    for x, c in calls:
        if c.text in by:
            _, oc, hx = by[c.text]
            runs.append(("%d:%s" % (len(x), hashlib.sha256(x).hexdigest()), c, oc, hx, 0 if hx == "-" else len(hx) // 2, 32, "release"))
    return [("distinct", runs[i:i + 250]) for i in range(0, len(runs), 250)]


def long_group(ctx, fn):
    calls = [Call("%s z%d" % (fn, (1 << e) + d)) for e in ctx.q((25, 27), (25, 26, 27, 28, 29)) for d in (-1, 0, 1)]
    return [("distinct", [(c.text, c, oc, hx, 0 if hx == "-" else len(hx) // 2, 32, "release") for c, oc, hx in ctx.run(calls)])]


def neighbours(rng, x):
    out = [x, x + b"\0", x + b"\0\0", x + b"\x80", x + b"\1", x[:-1], x[:-2], x[1:], b"\0" + x, x[::-1], x + x, x.rstrip(b"\0"), x.lstrip(b"\0")]
    for n in (1, 32, 55, 56, 64, 76, 80, 112, 119, 120, 128, 256, 512, 1024, 4096, 65536, len(x) // 2, len(x) // 64 * 64):
        out += [x[:n], x[n:]]
    pos = range(len(x)) if len(x) <= 200 else sorted(rng.sample(range(len(x)), 150) + list(range(len(x) - 20, len(x))))
    for i in pos:
        y = bytearray(x)
        y[i] ^= 1 << rng.randrange(8)
        out.append(bytes(y))
    return out


def c12(ctx):
    ctx.build()
    rng, groups = ctx.rng, []
    ctx.model("MCCoin", "MCCoin.cfg", label="absorbing pipeline, every input over a small alphabet")
    # totality over many inputs (no value involved), then values that look wrong
    for cmp, b, tb in (("size", 20000, 1000000), ("value", 30000, 1500000)):
        bad, _ = ctx.screened("coins", ctx.q(b, tb), cmp=cmp, sample=0, max_s=ctx.q(20, 900))
        for e in sorted(bad, key=lambda e: len(e[0].text))[:6]:
            x = e[0].fields()["input"]
            ctx.judge_groups([("distinct", [("x", e[0], e[1], e[2], 0 if e[2] == "-" else len(e[2]) // 2, 32, "screen")])], "nominated")
            for g in digest_group(ctx, e[0].fn, neighbours(rng, x), "neighbours"):
                ctx.judge_groups([g], "neighbours of a nominated input")
    for fn in COINS:
        slow = fn == "lyra2z"
        groups += digest_group(ctx, fn, [bytes(n) for n in range(0, 250)], "zeros")
        groups += digest_group(ctx, fn, [b"\xff" * n for n in range(0, 250)], "ones")
        for n in [1, 32, 55, 56, 64, 80, 119, 120, 150, 200] + ([] if slow and not ctx.deep else [300, 1000]):
            groups += digest_group(ctx, fn, neighbours(rng, fill(rng, n, "random")), "flips")
        big = []
        for e in range(9, ctx.q(24, 25)):
            for d in (-1, 0, 1):
                big.append(bytes((1 << e) + d))
        base = rng.randbytes(1 << 20)
        big += [base, base[:-1], base + b"\0", base[:-1] + bytes([base[-1] ^ 1]), bytes([base[0] ^ 1]) + base[1:],
                base[:1 << 19] + bytes([base[1 << 19] ^ 128]) + base[(1 << 19) + 1:]]
        groups += digest_group(ctx, fn, big, "large")
        groups += long_group(ctx, fn)
    ctx.judge_groups(groups, "digests of related inputs")


def c13(ctx):
    ctx.build()
    model_control(ctx)
    model_schedule(ctx)
    model_induction(ctx)
    far(ctx, "tr")
    value_property(ctx, [("sched", 20000, 500000)], ["sched"], sample=150)
    if ctx.h.hooks:
        bad, smp = ctx.screened("schedmod", 0, sample=60, sample_cost=300)
        ctx.judge_bad(bad, "screen schedmod", smp)
        ctx.judge_calls(smp, ctx.q(20, 300), "sampled calls (modified)")


def pair_groups(ctx, xs):
    calls = []
    for x in xs:
        calls += [Call.one("lyra2sum", x), Call.lyra(32, x, x, 1, 4, 4)]
    ev = ctx.run(calls)
    by = {e[0].text: e for e in ev}
    gs = []
    for i in range(0, len(calls), 2):
        if calls[i].text in by and calls[i + 1].text in by:
            gs.append(("same", [("x", c, by[c.text][1], by[c.text][2], 0, 0, w) for c, w in
                                ((calls[i], "sum"), (calls[i + 1], "general"))]))
    return gs


def c14(ctx):
    ctx.build()
    bad, smp = ctx.screened("sum", ctx.q(200000, 5000000), cmp="pair", sample=ctx.q(2000, 20000), max_s=ctx.q(30, 900))
    ctx.judge_groups(pair_groups(ctx, [e[0].fields()["input"] for e in bad[:20]]), "screen sum (nominated)")
    xs = [fill(ctx.rng, n, st) for n in range(0, 900) for st in ("random", "zeros", "ones")[: ctx.q(2, 3)]]
    xs += [e[0].fields()["input"] for e in smp]
    xs += [fill(ctx.rng, n, "random") for e in range(10, 21) for n in ((1 << e) - 1, 1 << e, (1 << e) + 8, (1 << e) + 32)]
    ctx.judge_groups(pair_groups(ctx, xs), "pairs")
    # and the value itself, on a few
    ev = ctx.run([Call.one("lyra2sum", fill(ctx.rng, n)) for n in (0, 1, 7, 8, 15, 16, 31, 32, 40, 63, 64, 80, 100, 200, 400, 743, 744, 800)])
    ctx.judge_calls(ev, ctx.q(30, 300), "values of sum")


def c15(ctx):
    hs = [ctx.build(p) for p in ("release", "checked", "dev", "small")]
    hooks = all(h.hooks for h in hs)
    if not hooks:
        ctx.notes.append("hooked calls left out")
    pool = []
    for h in hs:
        slow = 12 if h.profile == "dev" else 1
        if h.profile == "checked":
            slow = 1 / 4
        for focus, b, tb in (("all", 6000, 200000), ("lyra", 2500, 60000), ("lyramod", 1500, 40000), ("coins", 2500, 60000)) + \
                            ((("stage", 20000, 400000),) if hooks else ()):
            if focus == "lyramod" and not hooks:
                continue
            bad, smp = ctx.screened(focus, int(ctx.q(b, tb) / slow), h=h, sample=ctx.q(60, 600), sample_cost=3000,
                                    max_s=ctx.q(25, 400), max_cost=60000 if slow > 1 else 3200000)
            pool += [e[0] for e in bad[:20]]
            if h.profile in ("release", "checked"):
                pool += [e[0] for e in smp]
    # arguments whose sizes overflow machine words: no key, in any build
    pool += huge_calls()
    pool += [Call.lyra(k, b"pwdpwdpw", b"saltsalt", 1, 3, 1) for k in (1 << 63, (1 << 64) - 1)]
    for x in (0, 1, 2, 3):
        pool += [Call.lyra(32, b"pwdpwdpw", b"saltsalt", t, r, c) for t, r, c in ((x, 4, 4), (1, x, 4), (1, 4, x))]
    far = extremes(ctx.rng, ctx.q(12, 200))
    pool += far + [Call("lyra2mod " + c.text.split(" ", 1)[1]) for c in far if c.fn == "lyra2" and hooks]
    pool += lyra_calls(ctx, shuffled(ctx, plan("domain", ctx.scratch), ctx.q(700, 2524)))
    pool += lyra_calls(ctx, shuffled(ctx, plan("costs", ctx.scratch), ctx.q(200, 391)))
    if not hooks:
        pool = [c for c in pool if c.fn not in HOOKED]
    pool = list({c.text: c for c in pool}.values())
    runs = [run_parallel(h, pool) for h in hs]
    ctx.executed += len(pool) * len(hs)
    gs = []
    for i, c in enumerate(pool):
        rr = [(h, r[i]) for h, r in zip(hs, runs) if r[i] is not None]
        gs.append(("same", [("x", c, r[0], r[1], 0, 0, h.profile) for h, r in rr]))
    ctx.judge_groups(gs, "one call, four builds")
    # lengths whose bits do not fit 32 bits, in the two builds that are fast enough
    far = [Call("%s p%d" % (f, n)) for n in [1 << 28, (1 << 29) + 3] + ctx.q([], [(1 << 29) - 1, (1 << 31) + 1, (1 << 32) + 7])
           for f in ("lyra2re", "lyra2rev2", "lyra2rev3", "lyra2z")]
    two = [h for h in hs if h.profile in ("release", "checked")]
    env = dict(HANG_CPU="300", HANG_WALL="600")
    with ThreadPoolExecutor(ctx.q(3, 1)) as ex:
        got = list(ex.map(lambda c: [run_calls(h, [c], env=env, timeout=1500)[0] for h in two], far))
    ctx.executed += len(far) * len(two)
    ctx.judge_groups([("same", [("x", c, r[0], r[1], 0, 0, h.profile) for h, r in zip(two, rs)]) for c, rs in zip(far, got)],
                     "very long inputs, two builds")


def c16(ctx):
    ctx.build()
    model_control(ctx)
    if ctx.h.hooks:
        endless(ctx, True)
        far(ctx, "ktrc", True)
        value_property(ctx, [("lyramod", 60000, 2000000)], ["costs"], mod=True, budget=35)
        bad, smp = ctx.screened("domainmod", ctx.q(15000, 500000), sample=ctx.q(100, 1000), max_s=ctx.q(15, 600))
        ctx.judge_bad(bad, "screen domainmod", smp)
        ctx.judge_calls(smp, ctx.q(15, 300), "sampled edge cases")
    else:
        bad, smp = ctx.screened("lyra2rev3", ctx.q(12000, 400000), sample=200, max_s=ctx.q(60, 900))
        ctx.judge_bad(bad, "screen lyra2rev3", smp)
        ctx.judge_calls(smp, ctx.q(40, 600), "sampled calls")


from history import c09, c10  # noqa: E402
from memory import c17  # noqa: E402
from effects import c18  # noqa: E402
from machines import c19  # noqa: E402
from safety import c20  # noqa: E402

CHECKS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10,
              C11=c11, C12=c12, C13=c13, C14=c14, C15=c15, C16=c16, C17=c17, C18=c18, C19=c19, C20=c20)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", choices=sorted(CHECKS))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    ctx = Ctx(a.property, a.tier, a.seed)
    rc = 2
    try:
        try:
            CHECKS[a.property](ctx)
            rc = 0
        except Violation as v:
            rc = 1
            ctx.notes.append("violation: " + v.what)
            print(v.what)
            print("VIOLATION property=%s replay=%s" % (a.property, v.replay))
        ctx.evidence(1 if rc == 1 else 0)
        print("%s %s: %s; %d traces validated, %d states, %d calls screened, %.1f s" % (
            a.property, a.tier, "ok" if rc == 0 else "BROKEN", ctx.traces, ctx.states,
            sum(s["calls"] for s in ctx.screens), time.time() - ctx.t0))
    except ToolError as e:
        print("CHECK ERROR %s: %s" % (a.property, e), file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        for f in os.listdir(os.path.join(OUT, "bin")) if os.path.isdir(os.path.join(OUT, "bin")) else []:
            if f.endswith("-%d" % os.getpid()):
                os.remove(os.path.join(OUT, "bin", f))
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
