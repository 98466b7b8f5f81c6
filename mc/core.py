"""Shared machinery of the bounded model checker.

Every check enumerates a *finite* space completely (configurations, inputs, operation histories,
crash points, schedules, scripted environment answers) and compares each reached state of the real
irtorch code with a plain reference model.  This module holds what the checks share: the context
that counts states / transitions / traces, collects violations, applies the known-findings file and
writes the evidence file; and a breadth-first explorer of operation histories.
"""
from __future__ import annotations
import collections
import contextlib
import hashlib
import io
import itertools
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")


class Mismatch(Exception):
    """The implementation disagrees with the reference model."""


class Stop(Exception):
    """Enough violations were collected."""


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def _jsonable(o):
    import torch
    import numpy as np
    if isinstance(o, torch.Tensor):
        return o.detach().cpu().tolist()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.generic,)):
        return o.item()
    if isinstance(o, dict):
        return {str(k): _jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [_jsonable(v) for v in o]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


def key_of(o):
    return hashlib.sha1(json.dumps(_jsonable(o), sort_keys=True).encode()).hexdigest()[:16]


class Ctx:
    MAX_VIOLATIONS = int(os.environ.get("MC_MAXV", "5"))

    def __init__(self, prop, tier, seed, only=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.findings_hit = {}
        self.notes = {}
        self.only = only          # replay: only this case key
        self.worker, self.workers, self._n = 0, 1, 0
        self.known = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("property") == prop and d.get("kind") == "known":
                        self.known.append(d)

    # -- tiers ---------------------------------------------------------------------------------
    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- parallel exploration ------------------------------------------------------------------
    def each(self, items):
        """The items of an enumeration that belong to this worker.  In modules with PARALLEL = True every case lies
        inside such a loop, so that the workers partition the space."""
        for x in items:
            self._n += 1
            if self._n % self.workers == self.worker:
                yield x

    def export(self):
        return dict(states=self.states, outcomes=self.outcomes, transitions=self.transitions, traces=self.traces,
                    samples=self.samples, violations=self.violations, findings_hit=self.findings_hit, notes=self.notes)

    def merge(self, d):
        self.states |= d["states"]
        self.outcomes |= d["outcomes"]
        self.transitions += d["transitions"]
        self.traces += d["traces"]
        self.samples = (self.samples + d["samples"])[:6]
        self.violations += d["violations"]
        for k, n in d["findings_hit"].items():
            self.findings_hit[k] = self.findings_hit.get(k, 0) + n
        self.notes.update(d["notes"])

    # -- counting ------------------------------------------------------------------------------
    def state(self, *desc):
        k = key_of(desc)
        new = k not in self.states
        self.states.add(k)
        return new

    def step(self, n=1):
        self.transitions += n

    def outcome(self, *desc):
        self.outcomes.add(key_of(desc))

    def sample(self, **d):
        if len(self.samples) < 6:
            self.samples.append(_jsonable(d))

    # -- one case ------------------------------------------------------------------------------
    @contextlib.contextmanager
    def case(self, group, **desc):
        """One complete trace / configuration.  An exception raised inside (by the code under test or
        by a comparison) is a violation of this case.  `group` identifies the call site / behaviour and
        is what a known finding is matched on, together with the finding's `match` of desc."""
        if self.only is not None and key_of([group, desc]) != self.only:
            # replay of a single case: enter anyway but ignore the result
            try:
                with quiet():
                    yield
            except Exception:
                pass
            return
        try:
            with quiet():
                yield
        except (KeyboardInterrupt, Stop):
            raise
        except Exception as e:           # noqa
            self._violation(group, desc, e)
        else:
            self.traces += 1
            if self.traces in (1, 7, 50, 333, 2000):
                self.sample(group=group, **desc)

    def _violation(self, group, desc, e):
        for k in self.known:
            if k["group"] == group and all(_jsonable(desc).get(a) == b for a, b in k.get("match", {}).items()):
                self.findings_hit.setdefault(k["what"], 0)
                self.findings_hit[k["what"]] += 1
                return
        tb = traceback.format_exc(limit=-4)
        v = {"group": group, "case": _jsonable(desc), "case_key": key_of([group, desc]),
             "error": f"{type(e).__name__}: {e}"[:2000], "traceback": tb[-3000:]}
        self.violations.append(v)
        if len(self.violations) >= self.MAX_VIOLATIONS:
            raise Stop()

    # -- result --------------------------------------------------------------------------------
    def finish(self, level, bounds, assumptions):
        ev_dir = os.path.join(VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        cov = {
            "states": len(self.states),
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "distinct_outcomes": len(self.outcomes),
            "bounds": bounds,
            "exhaustive": not self.violations,
            "samples": self.samples or [{"note": "no case completed"}],
        }
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": assumptions,
              "wall_s": round(time.time() - self.t0, 3), "violations": len(self.violations)}
        with open(os.path.join(ev_dir, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, n in self.findings_hit.items():
            print(f"KNOWN-FINDING: property={self.prop} {what} (hit {n}x)")
        print(f"{self.prop} {self.tier}: states={cov['states']} transitions={cov['transitions']} "
              f"traces={cov['traces_validated_against_impl']} outcomes={cov['distinct_outcomes']} "
              f"wall={ev['wall_s']}s")
        if self.violations:
            rp = os.path.join(ev_dir, f"replay-{self.prop}.json")
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed,
                           "how": f"./check {self.prop} --replay {rp}",
                           "violations": self.violations}, f, indent=1)
            for v in self.violations:
                print(f"  case {v['group']} {json.dumps(v['case'])[:600]}\n    {v['error'][:600]}")
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        return 0


# ---------------------------------------------------------------------------------------------------
def bfs_histories(ctx, make, ops, canon, check, depth, group, desc=None, dedupe=True):
    """Breadth-first exploration of operation histories on the real object.

    make()            -> fresh (impl, model) pair
    ops               -> list of (name, fn(pair) -> None, enabled(pair) -> bool or None)
    canon(pair)       -> hashable canonical reference-model state (what the future depends on)
    check(pair, hist) -> raises on disagreement between impl and model
    Live objects do not copy reliably, so each history is replayed on a fresh object.
    """
    desc = desc or {}
    seen = set()
    frontier = collections.deque([()])
    by_name = {o[0]: o for o in ops}
    maxd = 0
    while frontier:
        hist = frontier.popleft()
        maxd = max(maxd, len(hist))
        st = [None]
        ok = False
        with ctx.case(group, history=list(hist), **desc):
            pair = make()
            for n in hist:
                by_name[n][1](pair)
                ctx.step()
            check(pair, hist)
            st[0] = canon(pair)
            ok = True
        if not ok:
            continue
        new = ctx.state(group, desc, st[0])
        if dedupe and st[0] in seen:
            continue
        seen.add(st[0])
        if len(hist) >= depth:
            continue
        for n, _, *en in ops:
            if en and en[0] is not None:
                if not en[0](pair):
                    continue
            frontier.append(hist + (n,))
    return len(seen), maxd


# ---------------------------------------------------------------------------------------------------
def close(got, want, what, atol=1e-5, rtol=1e-4, nan_equal=True):
    import numpy as np
    import torch
    if isinstance(got, torch.Tensor):
        got = got.detach().cpu().numpy()
    if isinstance(want, torch.Tensor):
        want = want.detach().cpu().numpy()
    got = np.asarray(got, dtype=np.float64)
    want = np.asarray(want, dtype=np.float64)
    if got.shape != want.shape:
        raise Mismatch(f"{what}: shape {got.shape}, expected {want.shape}")
    ok = np.isclose(got, want, atol=atol, rtol=rtol, equal_nan=nan_equal)
    if not ok.all():
        i = tuple(int(x) for x in np.argwhere(~ok)[0]) if got.ndim else ()
        raise Mismatch(f"{what}: at {i} got {got[i]!r}, expected {want[i]!r} ({int((~ok).sum())} of {ok.size} differ)")


def equal(got, want, what):
    close(got, want, what, atol=0.0, rtol=0.0)


def require(cond, what):
    if not cond:
        raise Mismatch(what)


def raises(fn, what, exc=Exception):
    try:
        fn()
    except exc:
        return
    raise Mismatch(f"{what}: expected an error, none was raised")
