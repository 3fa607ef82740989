"""Verdict discipline shared by all the checks.

A check module defines

* ``ID``, ``TITLE``, ``RULE`` (what a non-trivial case is);
* ``corners(tier)``: directed cases (JSON-able dicts), always run;
* ``gen(rng, k, tier)``: the k-th random case;
* ``COUNT = {'quick': n, 'thorough': n}``: number of random cases;
* ``judge(case, mon)``: drives the real code and reports to the monitor;
* ``REQUIRED``: classes of situations that the run must have observed (counted
  with the reference model or the workload, never with the code's own output),
  otherwise (below 60 % of what is listed, to leave room for other seeds)
  the run is inconclusive;
* optional ``shrink(case)``: yields smaller cases.
"""
import numpy as np


class Mon(object):
    """Monitor of one case: counts what it observed, keeps violations."""

    MAX_VIOLATIONS = 5

    def __init__(self):
        self.events = {}
        self.classes = {}
        self.sigs = set()
        self.violations = []
        self.n_viol = 0
        self.worst = {}

    # ---- observations
    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def hit(self, name, n=1):
        self.classes[name] = self.classes.get(name, 0) + int(n)

    def sig(self, *key):
        """A distinct, non-trivial situation that was judged."""
        self.sigs.add('|'.join(str(k) for k in key))

    # ---- verdicts
    def fail(self, rule, msg, **data):
        self.n_viol += 1
        if len(self.violations) < self.MAX_VIOLATIONS:
            self.violations.append(
                {'rule': rule, 'msg': msg,
                 'data': {k: _js(v) for k, v in data.items()}})

    def ok(self, cond, rule, msg='', **data):
        self.ev(rule)
        if not cond:
            self.fail(rule, msg, **data)
        return bool(cond)

    def close(self, got, want, tol, rule, msg='', scale=1., **data):
        """All |got - want| <= tol * scale; NaN never passes."""
        got, want = np.asarray(got, float), np.asarray(want, float)
        got, want = np.broadcast_arrays(got, want)
        n = got.size
        self.ev(rule, max(n, 1))
        if n == 0:
            return True
        sc = np.broadcast_to(np.asarray(scale, float), got.shape)
        with np.errstate(all='ignore'):
            dev = np.abs(got - want) / sc
        bad = ~(dev <= tol)
        if not bad.any():
            w = float(dev.max())
            if w > self.worst.get(rule, (-1, 0))[0]:
                self.worst[rule] = (w, tol)
            return True
        k = int(np.argmax(np.where(np.isnan(dev), np.inf,
                                   dev).ravel() * bad.ravel()
                          if not np.isnan(dev[bad]).any()
                          else np.isnan(dev).ravel()))
        idx = np.unravel_index(k, got.shape)
        self.fail(rule, msg, got=got[idx], want=want[idx],
                  deviation=dev[idx], tolerance=tol, index=list(idx),
                  n_bad=int(bad.sum()), n=n, **data)
        return False

    def leq(self, a, b, tol, rule, msg='', scale=1., **data):
        """All a <= b + tol * scale; NaN never passes."""
        a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
        self.ev(rule, max(a.size, 1))
        if a.size == 0:
            return True
        ex = (a - b) / scale
        bad = ~(ex <= tol)
        if not bad.any():
            w = float(ex.max())
            if w > self.worst.get(rule, (-1e300, 0))[0]:
                self.worst[rule] = (w, tol)
            return True
        idx = np.unravel_index(int(np.argmax(bad.ravel())), a.shape)
        self.fail(rule, msg, left=a[idx], right=b[idx], index=list(idx),
                  n_bad=int(bad.sum()), tolerance=tol, **data)
        return False

    def dump(self):
        return {'events': self.events, 'classes': self.classes,
                'sigs': sorted(self.sigs), 'violations': self.violations,
                'n_viol': self.n_viol, 'worst': self.worst,
                'wall': getattr(self, 'wall', 0.)}


def _js(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [_js(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _js(x) for k, x in v.items()}
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)


def shrink_steps(case, key='scn'):
    """Single-timestep (then pair) versions of a scenario case."""
    from .scenario import subset
    n = len(case[key]['t']['zen']) if 't' in case.get(key, {}) else 0
    if n <= 1:
        return
    for i in range(n):
        c = dict(case)
        c[key] = subset(case[key], [i])
        yield c
