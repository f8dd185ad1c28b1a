"""Bounded-exhaustive explicit-state explorer for the real agnpy objects.

Three engines, all deterministic and exhaustive within the stated bounds:

* ``walk``      deviation-bounded exploration of a configuration space. A state is an
                assignment of every dimension of a finite alphabet; the explorer visits
                every state at Hamming distance <= k from the base state by *mutating one
                live object* along a depth-first traversal (so every state is reached
                through a history of mutations and un-mutations), and observes the real
                code in each of them.
* ``sequences`` every sequence of operations up to a given depth, each executed from a
                fresh object, with a reference model advanced in lockstep.
* ``product``   every element of a finite product (for pure functions).

An observation compares the implementation against an independent reference model
(``mc.ref``) or against an invariant. Whatever raises inside an observation is reported
as a violation: the alphabets only hold valid inputs.
"""
import hashlib
import itertools
import json
import os
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_REPORT = 5


NEARBY = (2e-6, 4e-4)


def rungs(base, lo, hi, per_decade):
    """geometric ladder from the base value up to hi, then down to lo, and some integers"""
    if isinstance(lo, list):
        return lo
    out = []
    if base == 0:
        base = lo
    for sign, end in ((1, hi), (-1, lo)):
        j = 1
        while True:
            x = base * 10 ** (sign * j / per_decade)
            if sign * (x - end) >= 0:
                break
            out.append(float(x))
            j += 1
        out.append(float(end))
    # some of them are integers
    ints = sorted({int(round(x)) for x in out if 1.6 <= x <= 1e6 and lo <= round(x) <= hi})
    return out + ints[:: max(1, len(ints) // per_decade // 2)]


class Mismatch(Exception):
    def __init__(self, msg, known=None):
        super().__init__(msg)
        self.msg = msg
        self.known = known


def load_known():
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                fields = dict(
                    tok.split("=", 1) for tok in line.split()[1:3] if "=" in tok
                )
                known[(fields["property"], fields["key"])] = line.split(None, 3)[3]
    return known


def plain(x):
    """JSON-able rendition of a value"""
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x
    if isinstance(x, (list, tuple)):
        return [plain(i) for i in x]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (np.floating, np.integer)):
        return x.item()
    return repr(x)


def val(x, unit=None):
    """plain float array of a quantity (in `unit`) or number"""
    if hasattr(x, "to_value"):
        return np.asarray(x.to_value(unit) if unit is not None else x.value, dtype=float)
    return np.asarray(x, dtype=float)


class Ctx:
    """Collects what an exploration covered, and its violations."""

    def __init__(self, prop, tier, seed=1, quiet=False):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.comparisons = 0
        self.outcomes = set()
        self.samples = []
        self.per = {}
        self.violations = []
        self.known_hits = {}
        self.known = load_known()
        self.notes = []
        self.replay = None  # (exploration name, history) to be replayed exclusively
        self._cur = None
        self._hist = ()
        self.t0 = time.time()

    # --- observation helpers -------------------------------------------------
    def fail(self, msg, known=None):
        raise Mismatch(msg, known)

    def true(self, cond, msg, known=None):
        self.comparisons += 1
        if not cond:
            self.fail(msg() if callable(msg) else msg, known)

    def close(self, label, got, want, rtol=1e-9, atol=0.0, unit=None, shape=True, known=None):
        """got (the implementation) equals want (reference) within tolerance; also
        compares shapes; NaNs are never equal."""
        self.comparisons += 1
        g = val(got, unit)
        w = val(want, unit) if hasattr(want, "to_value") else np.asarray(want, dtype=float)
        if shape and g.shape != w.shape:
            self.fail(f"{label}: shape {g.shape} instead of {w.shape}", known)
        self.outcome(g)
        with np.errstate(all="ignore"):
            ok = np.abs(g - w) <= atol + rtol * np.abs(w)
            ok |= g == w
        if not np.all(ok):
            gb, wb, okb = np.broadcast_arrays(g, w, ok)
            i = tuple(np.argwhere(~okb)[0])
            self.fail(
                f"{label}: observed {gb[i]!r} expected {wb[i]!r} at index {list(map(int, i))}"
                f" ({int((~okb).sum())} of {okb.size} values differ, rtol {rtol})",
                known,
            )

    def equal(self, label, got, want, known=None):
        self.comparisons += 1
        self.outcome(got)
        if not got == want:
            self.fail(f"{label}: observed {got!r} expected {want!r}", known)

    def raises(self, label, exc, fn):
        self.comparisons += 1
        try:
            fn()
        except exc:
            self.outcome(label)
            return
        except Exception as e:
            self.fail(f"{label}: expected {exc}, got {type(e).__name__}: {e}")
        self.fail(f"{label}: expected {exc} to be raised, nothing was")

    def outcome(self, x):
        try:
            a = np.asarray(x, dtype=float)
            with np.errstate(all="ignore"):
                key = a.shape, np.array2string(
                    a.ravel()[:8], precision=5, floatmode="maxprec"
                )
        except Exception:
            key = repr(x)[:200]
        self.outcomes.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    # --- engines ---------------------------------------------------------------
    def guard(self, fn, *args):
        """run an observation, turning mismatches and exceptions into violations.
        Returns True if it held."""
        try:
            fn(*args)
            return True
        except Mismatch as m:
            self.report(m.msg, m.known)
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:
            tb = traceback.format_exc()
            self.report(f"raised {type(e).__name__}: {e}", None, tb)
        return False

    def report(self, msg, known=None, tb=None):
        if known is not None and (self.prop, known) in self.known:
            self.known_hits[known] = self.known_hits.get(known, 0) + 1
            return
        self.violations.append(
            dict(
                exploration=self._cur,
                history=plain(list(self._hist)),
                message=f"[{self._cur}] {msg}" + (f" (finding key {known}, not listed)" if known else ""),
                traceback=tb,
            )
        )

    def _begin(self, name):
        self._cur = name
        self.per.setdefault(name, dict(states=0, transitions=0, histories=0))
        return self.replay is None or self.replay[0] == name

    def _tick(self, states=0, transitions=0, traces=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces
        p = self.per[self._cur]
        p["states"] += states
        p["transitions"] += transitions
        p["histories"] += traces

    def sample(self, what):
        if len(self.samples) < 8:
            self.samples.append(what)

    def full(self):
        return len(self.violations) >= MAX_REPORT

    def walk(self, name, dims, k, make, set_, observe, only_first=None, near=True, scales=None):
        """Visit every configuration with at most k deviations from the base one (the
        first alternative of each dimension), mutating one live object.

        make(cfg) -> sut; set_(sut, dim, value, cfg) -> sut or None (mutated in place);
        observe(sut, cfg). `only_first`: explore just the sub-trees whose first deviation
        is in this set of dimension names (used to split work between processes).

        With `near`, a second exploration ("<name>, nearby values") moves each numeric
        dimension, alone, to values very close to its base one and back: what is remembered
        by a rounded value, or not at all when a change looks small, is exposed.

        `scales`, dim -> (lowest, highest) or (lowest, highest, base): a third exploration
        ("<name>, scales") takes each of these dimensions, alone, through all the rungs of a
        geometric ladder, so that a regime entered at any scale of a parameter is visited."""
        self._walk(name, dims, k, make, set_, observe, only_first)
        if scales:
            # around the base configuration and around the one of the second alternatives
            for label, d2 in (("scales", {n: v[:1] for n, v in dims.items()}), ("scales elsewhere", {n: v[1:2] or v[:1] for n, v in dims.items()})):
                for n, s in scales.items():
                    if isinstance(s, list):  # its rungs
                        s = (s, None)
                    if len(s) == 3 and label == "scales":
                        d2[n] = [s[2]]
                    if n in d2 and (only_first is None or n.split(".")[0] in only_first) and isinstance(d2[n][0], (int, float)):
                        d2[n] = d2[n] + rungs(d2[n][0], *s[:2], 2 if self.quick else 6)
                if any(len(v) > 1 for v in d2.values()):
                    self._walk(f"{name}, {label}", d2, 1, make, set_, observe, None)
        if near:
            d2 = {n: v[:1] for n, v in dims.items()}
            for n, v in dims.items():
                if isinstance(v[0], (float, np.floating)) and v[0] != 0 and np.isfinite(v[0]) and len(v) > 1:
                    if only_first is None or n in only_first:
                        d2[n] = [v[0]] + [v[0] - abs(v[0]) * e for e in NEARBY]
            if any(len(v) > 1 for v in d2.values()):
                self._walk(name + ", nearby values", d2, 1, make, set_, observe, None)

    def _walk(self, name, dims, k, make, set_, observe, only_first):
        if not self._begin(name):
            return
        names = list(dims)
        base = {n: dims[n][0] for n in names}
        if self.replay is not None:
            hist = [tuple(h) if isinstance(h, list) else h for h in self.replay[1]]
            cfg = dict(base)
            self._hist = ()
            sut = make(dict(cfg))
            self.guard(observe, sut, dict(cfg))
            for n, v in hist:
                v = next((a for a in dims[n] if plain(a) == plain(v)), v)
                cfg[n] = v
                self._hist = self._hist + ((n, v),)
                r = set_(sut, n, v, dict(cfg))
                sut = sut if r is None else r
                self.guard(observe, sut, dict(cfg))
                self._tick(1, 1)
            return
        state = dict(cfg=dict(base))
        self._hist = ()
        box = []

        def start():
            box.append(make(dict(base)))

        if not self.guard(start):
            return
        box = [box[0]]

        def step(n, v):
            state["cfg"][n] = v
            self._hist = self._hist + ((n, v),)

            def do():
                r = set_(box[0], n, v, dict(state["cfg"]))
                if r is not None:
                    box[0] = r

            self._tick(transitions=1)
            return self.guard(do)

        def look():
            self._tick(states=1)
            n0 = len(self.violations)
            if self.guard(observe, box[0], dict(state["cfg"])):
                return True
            if len(self.violations) > n0:
                # shortest history: the bare deviations from the base state
                full, cfg, short = self._hist, dict(base), ()
                k0 = self.comparisons
                try:
                    s2 = make(dict(base))
                    for n in names:
                        if state["cfg"][n] != base[n]:
                            cfg[n] = state["cfg"][n]
                            short += ((n, cfg[n]),)
                            r = set_(s2, n, cfg[n], dict(cfg))
                            s2 = s2 if r is None else r
                    observe(s2, dict(cfg))
                except BaseException:
                    self.violations[-1]["history"] = plain(list(short))
                self.comparisons = k0
            return False

        look()
        self.sample({"exploration": name, "state": plain(base)})

        def rec(i0, left, first):
            leaf = True
            for i in range(i0, len(names)):
                n = names[i]
                if first and only_first is not None and n not in only_first:
                    continue
                for v in dims[n][1:]:
                    if self.full() or left == 0:
                        continue
                    leaf = False
                    if step(n, v):
                        look()
                        rec(i + 1, left - 1, False)
                        step(n, base[n])
                    else:  # the object is in an undefined state: start afresh
                        box[0] = make(dict(base))
                        state["cfg"] = dict(base)
                        self._hist = ()
                        return
            if leaf:
                self._tick(traces=1)
                if len(self.samples) < 3 or self.traces % 97 == 0:
                    self.sample({"exploration": name, "history": plain(self._hist[-6:])})

        rec(0, k, True)
        # come back to the initial state: same observations as at the start
        look()

    def sequences(self, name, make, ops, step, depth, prefix_ok=None, first=None, check=None):
        """Execute every sequence of operations of length <= depth from a fresh object.
        make() -> (sut, model); ops: list of labels; step(sut, model, op) -> performs
        the operation on both, and checks. Shorter sequences are prefixes of the longer
        ones, whose steps are all checked; only maximal ones are executed."""
        if not self._begin(name):
            return
        if self.replay is not None:
            seqs = [tuple(tuple(h) if isinstance(h, list) else h for h in self.replay[1])]
        else:
            seqs = itertools.product(ops if first is None else first, *[ops] * (depth - 1))
        seen = set()
        for seq in seqs:
            if self.full():
                return
            if prefix_ok is not None and self.replay is None and not prefix_ok(seq):
                continue
            self._hist = ()
            holder = []

            def start():
                holder.append(make())

            if not self.guard(start):
                return
            sut, model = holder[0]
            for op in seq:
                self._hist = self._hist + (op,)
                new = self._hist not in seen
                if new:
                    seen.add(self._hist)
                    self._tick(states=1)
                self._tick(transitions=1)
                if not self.guard(step, sut, model, op):
                    break
                # a prefix already checked is executed again, but not compared again
                if check is not None and new and not self.guard(check, sut, model):
                    break
            self._tick(traces=1)
            if self.per[name]["histories"] in (1, 50):
                self.sample({"exploration": name, "history": plain(seq)})

    def ladder(self, name, base, scales, case):
        """case on the base configuration with each of the parameters, in turn, on each of the
        rungs of its ladder of scales"""
        steps = [(n, x) for n, s in scales.items() for x in (s if isinstance(s, list) else rungs(base[n], *s[:2], 2 if self.quick else 6))]
        self.product(name + ", scales", dict(step=steps), lambda cfg: case({**base, cfg["step"][0]: cfg["step"][1]}))

    def product(self, name, dims, fn, flt=None):
        """fn(cfg) for every element of the product of the dims"""
        if not self._begin(name):
            return
        names = list(dims)
        if self.replay is not None:
            cases = [tuple(self.replay[1])]
            cases = [
                tuple(
                    next((a for a in dims[n] if plain(a) == plain(v)), v)
                    for n, v in zip(names, c)
                )
                for c in cases
            ]
        else:
            cases = itertools.product(*[dims[n] for n in names])
        prev = None
        for case in cases:
            if self.full():
                return
            cfg = dict(zip(names, case))
            if flt is not None and not flt(cfg):
                continue
            self._hist = case
            self.guard(fn, cfg)
            self._tick(states=1, transitions=1 if prev is not None else 0, traces=1)
            prev = case
            if self.per[name]["states"] in (1, 20):
                self.sample({"exploration": name, "case": plain(cfg)})

    # --- parallel --------------------------------------------------------------
    def parallel(self, thunks, procs=8):
        """run thunks(ctx) in forked processes, each with its own Ctx, and merge"""
        if self.replay is not None or procs == 1:
            for t in thunks:
                t(self)
            return
        import multiprocessing as mp

        pool_ctx = mp.get_context("fork")
        jobs = list(enumerate(thunks))
        global _JOBS, _PARENT
        _JOBS, _PARENT = jobs, self
        with pool_ctx.Pool(min(procs, len(jobs))) as pool:
            for res in pool.imap_unordered(_run_job, range(len(jobs)), chunksize=1):
                self.merge(res)

    def merge(self, r):
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.traces += r["traces"]
        self.comparisons += r["comparisons"]
        self.outcomes |= r["outcomes"]
        for n, p in r["per"].items():
            q = self.per.setdefault(n, dict(states=0, transitions=0, histories=0))
            for kk in p:
                q[kk] = q.get(kk, 0) + p[kk]
        for s in r["samples"]:
            self.sample(s)
        self.violations += r["violations"]
        for kk, n in r["known_hits"].items():
            self.known_hits[kk] = self.known_hits.get(kk, 0) + n

    def dump(self):
        return dict(
            states=self.states,
            transitions=self.transitions,
            traces=self.traces,
            comparisons=self.comparisons,
            outcomes=self.outcomes,
            per=self.per,
            samples=self.samples[:2],
            violations=self.violations,
            known_hits=self.known_hits,
        )


_JOBS, _PARENT = None, None


def _run_job(i):
    c = Ctx(_PARENT.prop, _PARENT.tier, _PARENT.seed)
    try:
        t0 = time.time()
        _JOBS[i][1](c)
        if os.environ.get("VERIF_JOB_TIMES"):
            print(f"job {i} of {len(_JOBS)}: {time.time() - t0:.1f} s, {c.states} states, {' | '.join(c.per)}", flush=True)
    except BaseException as e:
        c._cur = c._cur or "worker"
        c.report(f"worker raised {type(e).__name__}: {e}", None, traceback.format_exc())
    return c.dump()


# --- runner -----------------------------------------------------------------------
def finish(ctx, bounds, assumptions):
    ev = dict(
        property=ctx.prop,
        tier=ctx.tier,
        seed=ctx.seed,
        level="model_checking",
        coverage=dict(
            states=ctx.states,
            transitions=ctx.transitions,
            traces_validated_against_impl=ctx.traces,
            evaluations=ctx.comparisons,
            distinct_outcomes=len(ctx.outcomes),
            exhaustive=not ctx.violations,
            bounds=bounds,
            per_exploration=ctx.per,
            known_finding_hits=ctx.known_hits,
            samples=ctx.samples,
            rule="a state is one configuration (or one operation prefix) visited on the real "
            "objects; a transition is one mutation/operation executed on them; a trace is one "
            "maximal history; an evaluation is one comparison of an observed value with the "
            "reference model or invariant; distinct outcomes counts different observed values",
        ),
        assumptions=assumptions,
        wall_s=round(time.time() - ctx.t0, 2),
        violations=len(ctx.violations),
    )
    if ctx.replay is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{ctx.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    for key, n in sorted(ctx.known_hits.items()):
        print(f"KNOWN-FINDING: property={ctx.prop} {ctx.known[(ctx.prop, key)]} ({n} states)")
    if ctx.violations:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(ctx.violations[:MAX_REPORT]):
            path = os.path.join(d, f"{ctx.prop}-{i}.json")
            if ctx.replay is None:
                with open(path, "w") as f:
                    json.dump(
                        dict(
                            property=ctx.prop,
                            tier=ctx.tier,
                            **v,
                            how=f"/verif/run.sh {ctx.prop} --replay {path}",
                        ),
                        f,
                        indent=1,
                    )
            print(v["message"][:1000])
            if v.get("traceback"):
                print("\n".join(v["traceback"].splitlines()[-6:]))
            print(f"VIOLATION property={ctx.prop} replay={path}")
        return 1
    print(
        f"{ctx.prop} {ctx.tier}: held on {ctx.states} states, {ctx.transitions} transitions, "
        f"{ctx.traces} histories, {ctx.comparisons} comparisons, {len(ctx.outcomes)} distinct "
        f"outcomes, {ev['wall_s']} s"
    )
    return 0
