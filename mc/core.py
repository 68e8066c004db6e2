"""Shared machinery of the checks: exhaustive enumeration of units of work.

A property module (mc/props/<id>.py) defines

  ID, TITLE        property id and title
  LEVEL            "model_checking" | "exploration" | "fault_enumeration"
  RULE             how the cases are made and what makes one non-trivial
  ASSUMPTIONS      list of strings
  ENV              optional dict of environment variables for the workers
  SHARDS           optional {"quick": n, "thorough": n}
  units(tier)      -> list of JSON-able unit descriptors.  The union of the units is the whole
                      bounded space of the property; every unit is explored, none is sampled.
  run_unit(u, ctx) -> explores everything in the unit; reports through ctx.

A unit is executed on the real code under /repo.  ctx counts what was covered.
"""
import hashlib
import json
import traceback


class Stop(Exception):
    """Raised to leave a unit once too many violations were recorded in it."""


class Ctx:
    MAX_VIOL = 3

    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.states = 0
        self.transitions = 0
        self.evals = 0
        self.traces = 0
        self.nontrivial = set()
        self.samples = []
        self.violations = []
        self.extra = {}
        self._unit = None
        self._unit_viol = 0

    # -- coverage accounting -------------------------------------------------
    def state(self, n=1):
        self.states += n

    def trans(self, n=1):
        self.transitions += n

    def ev(self, n=1):
        self.evals += n

    def trace(self, n=1):
        self.traces += n

    def nt(self, key):
        """Record a distinct non-trivial case by a hashable/JSON-able key."""
        if not isinstance(key, str):
            key = repr(key)
        self.nontrivial.add(hashlib.blake2b(key.encode(), digest_size=8).hexdigest())

    def sample(self, x, cap=3):
        if len(self.samples) < cap:
            self.samples.append(x)

    def add(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    # -- verdicts ------------------------------------------------------------
    def fail(self, sig, detail=None):
        """Record a violation.  `sig` identifies what failed (matched against known findings)."""
        for v in self.violations:
            if v["sig"] == sig:
                v["count"] += 1
                return
        self.violations.append(
            {"sig": sig, "detail": _js(detail), "unit": _js(self._unit), "count": 1}
        )
        self._unit_viol += 1
        if self._unit_viol >= 12:
            raise Stop()

    def check(self, cond, sig, detail=None):
        self.evals += 1
        if not bool(cond):
            self.fail(sig, detail() if callable(detail) else detail)
            return False
        return True

    def run(self, mod, unit):
        self._unit = unit
        self._unit_viol = 0
        try:
            mod.run_unit(unit, self)
        except Stop:
            pass
        except Exception as e:  # an exception escaping from the code under test
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/fortuna/" in f.filename]
            loc = f"{where[-1].name}" if where else "harness"
            self.violations.append(
                {
                    "sig": f"exception:{type(e).__name__}:{loc}",
                    "detail": traceback.format_exc()[-3000:],
                    "unit": _js(unit),
                    "count": 1,
                }
            )

    def dump(self):
        return {
            "states": self.states,
            "transitions": self.transitions,
            "evals": self.evals,
            "traces": self.traces,
            "nontrivial": sorted(self.nontrivial),
            "samples": self.samples,
            "violations": self.violations,
            "extra": self.extra,
        }


def _js(x):
    try:
        json.dumps(x)
        return x
    except Exception:
        pass
    if isinstance(x, dict):
        return {str(k): _js(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [_js(v) for v in x]
    if hasattr(x, "tolist"):
        return x.tolist()
    return repr(x)


def call(f, *a, **k):
    """Run f and return ('ok', value) or ('exc', ExceptionTypeName)."""
    try:
        return "ok", f(*a, **k)
    except Exception as e:
        return "exc", type(e).__name__


def simplex(k, den):
    """All probability vectors of length k with denominators `den` (numerators returned)."""
    if k == 1:
        yield (den,)
        return
    for i in range(den + 1):
        for r in simplex(k - 1, den - i):
            yield (i,) + r


def bfs(roots, successors, on_state=None, on_trans=None, max_depth=None):
    """Breadth-first exploration of an explicit-state model.

    roots: iterable of states; successors(s) -> iterable of (label, s').  Returns
    {state: (depth, path)} for all reachable states (within max_depth)."""
    seen = {}
    frontier = []
    for r in roots:
        if r not in seen:
            seen[r] = (0, ())
            frontier.append(r)
            if on_state:
                on_state(r)
    depth = 0
    while frontier and (max_depth is None or depth < max_depth):
        nxt = []
        for s in frontier:
            for lab, t in successors(s):
                if on_trans:
                    on_trans(s, lab, t)
                if t not in seen:
                    seen[t] = (depth + 1, seen[s][1] + (lab,))
                    nxt.append(t)
                    if on_state:
                        on_state(t)
        frontier = nxt
        depth += 1
    return seen
