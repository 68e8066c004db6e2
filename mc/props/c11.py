"""C11 multi-state repositories: n independent slots; frozen parameters of SGMCMC samples stored once."""
import itertools
import os
import shutil
import tempfile

import numpy as np

ID = "C11"
LEVEL = "model_checking"
RULE = (
    "state = vector of slot contents of a repository of size 1..3, in memory or on disk, plain or storing only the "
    "stochastic parameters; breadth-first over all sequences of put, get, update, pull and extract with a slot index or "
    "for all slots up to the depth bound, every transition replayed on a fresh repository; non-trivial = distinct (state, operation)"
)
ASSUMPTIONS = ["explicit checkpoint paths, which all slots share, are not explored", "an operation on all slots that fails on one may already have been applied to others"]


def ops(n):
    o = []
    for i in [None] + list(range(n)):
        o += [("put", i, "a"), ("put", i, "b"), ("update", i, "c"), ("pull", i), ("extract", i)]
    return o


def units(tier):
    depth = 3 if tier == "quick" else 4
    u = []
    for n in (1, 2, 3):
        for kind in ("plain", "sgmcmc", "frozen1", "frozen2"):
            for disk in (0, 1):
                for first in range(len(ops(n))):
                    if ops(n)[first][0] == "put":
                        u.append((n, kind, disk, first, depth))
    return u


VAL = {"a": 1.0, "b": 2.0, "c": 3.0}


class Impl:
    def __init__(self, n, kind, disk):
        import optax
        from flax.core import FrozenDict

        from fortuna.prob_model.posterior.posterior_multi_state_repository import PosteriorMultiStateRepository
        from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_state import SGHMCState
        from fortuna.prob_model.posterior.sgmcmc.sgmcmc_posterior_state_repository import SGMCMCPosteriorStateRepository

        self.FD, self.S, self.opt = FrozenDict, SGHMCState, optax.sgd(0.1)
        self.tmp = tempfile.mkdtemp()
        self.dir = os.path.join(self.tmp, "ck")
        d = self.dir if disk else None
        self.which = {"frozen1": (["model", "params", "l1", "k"],), "frozen2": (["model", "params", "l2"], ["model", "params", "l1", "k"])}.get(kind)
        self.n, self.kind = n, kind
        if kind == "plain":
            self.repo = PosteriorMultiStateRepository(size=n, checkpoint_dir=d)
        else:
            self.all = self.params(9.0) if self.which else None
            self.repo = SGMCMCPosteriorStateRepository(size=n, checkpoint_dir=d, all_params=self.all, which_params=self.which)

    def close(self):
        shutil.rmtree(self.tmp)

    def params(self, v):
        f = lambda o: np.full((2,), v + o, "float32")
        return self.FD({"model": {"params": {"l1": {"k": f(0.1), "b": f(0.2)}, "l2": {"k": f(0.3), "b": f(0.4)}}}, "lik_log_var": {"params": {"x": f(0.5)}}})

    def expected(self, v):
        p = self.params(v)
        if not self.which:
            return p
        q = self.params(9.0).unfreeze()
        q["model"]["params"]["l1"]["k"] = p["model"]["params"]["l1"]["k"]
        if self.kind == "frozen2":
            q["model"]["params"]["l2"] = dict(p["model"]["params"]["l2"])
        return self.FD(q)

    def make(self, c):
        v = VAL[c]
        return self.S.init(params=self.params(v), mutable=self.FD({"m": np.array([v], "float32")}), optimizer=self.opt, calib_params=self.FD({"t": np.array([v], "float32")}))

    def do(self, op):
        r = self.repo
        if op[0] == "put":
            return r.put(self.make(op[2]), i=op[1])
        if op[0] == "update":
            v = VAL[op[2]]
            return r.update(dict(params=self.params(v), mutable=self.FD({"m": np.array([v], "float32")}), calib_params=self.FD({"t": np.array([v], "float32")})), i=op[1])
        if op[0] == "pull":
            return r.pull(i=op[1])
        return r.extract(["params", "mutable", "calib_params"], i=op[1])

    def content(self, s):
        d = s if isinstance(s, dict) else dict(params=s.params, mutable=s.mutable, calib_params=s.calib_params)
        c = {v: k for k, v in VAL.items()}.get(float(np.asarray(d["calib_params"]["t"])[0]), "?")
        if c == "?" or float(np.asarray(d["mutable"]["m"])[0]) != VAL[c]:
            return "?mutable"
        from mc.props.c10 import tree_eq

        return c if tree_eq(d["params"], self.expected(VAL[c])) else "?params"


def model(s, op, mem):
    i = op[1]
    idx = range(len(s)) if i is None else [i]
    if op[0] == "put":
        return tuple(op[2] if k in idx else x for k, x in enumerate(s)), None
    if any(s[k] is None for k in idx):
        return None, "err"
    if op[0] == "update":
        return tuple(op[2] if k in idx else x for k, x in enumerate(s)), None
    out = s[i] if i is not None else list(s)
    if op[0] == "pull" and not mem:
        s = tuple(None if k in idx else x for k, x in enumerate(s))
    return s, out


def _call(f, *a, **k):
    try:
        return "ok", f(*a, **k)
    except Exception as e:
        return "exc", type(e).__name__


def run_unit(u, ctx):
    n, kind, disk, first, depth = u
    O = ops(n)
    start = (None,) * n
    seen = {start}
    front = [(start, ())]
    for level in range(depth):
        nxt = []
        for s, path in front:
            for oi, op in enumerate(O):
                if level == 0 and oi != first and not (first == 0):
                    continue
                if level == 0 and first == 0 and op[0] == "put" and oi != 0:
                    continue
                t, want = model(s, op, not disk)
                impl = Impl(n, kind, disk)
                sig = f"{kind}:{'disk' if disk else 'mem'}:{op[0]}:{'all' if op[1] is None else 'one'}"
                try:
                    for q in path:
                        impl.do(O[q])
                    r = _call(impl.do, op)
                    det = ([O[q] for q in path], op)
                    ctx.trans()
                    ctx.trace()
                    ctx.nt((n, kind, disk, s, op))
                    if want == "err":
                        ctx.check(r == ("exc", "ValueError"), sig + ":accepted-empty", lambda: (det, repr(r)[:300]))
                        continue
                    if not ctx.check(r[0] == "ok", sig + ":raised", lambda: (det, repr(r)[:300])):
                        continue
                    if want is not None:
                        if op[1] is None:
                            ok = isinstance(r[1], list) and len(r[1]) == n and [impl.content(x) for x in r[1]] == want
                        else:
                            ok = impl.content(r[1]) == want
                        ctx.check(ok, sig + ":result", lambda: (det, want))
                    for i in range(n):
                        g = _call(impl.repo.get, i)
                        if t[i] is None:
                            ctx.check(g == ("exc", "ValueError"), sig + ":slot-empty", lambda: (det, i, repr(g)[:300]))
                        else:
                            ctx.check(g[0] == "ok" and impl.content(g[1]) == t[i], sig + ":slot", lambda: (det, i, t, repr(g)[:200]))
                    g = _call(impl.repo.get)
                    if None in t:
                        ctx.check(g == ("exc", "ValueError"), sig + ":all-empty", lambda: (det, repr(g)[:300]))
                    else:
                        ctx.check(g[0] == "ok" and len(g[1]) == n and [impl.content(x) for x in g[1]] == list(t), sig + ":all", lambda: (det, t, repr(g)[:200]))
                    if t[0] is not None:
                        e = _call(impl.repo.extract_calib_keys)
                        ctx.check(e[0] == "ok" and set(e[1]) == {"calib_params", "calib_mutable"} and float(np.asarray(e[1]["calib_params"]["t"])[0]) == VAL[t[0]], sig + ":calib", lambda: (det, repr(e)[:200]))
                    if impl.which:
                        from mc.props.c10 import tree_eq

                        ctx.check(tree_eq(impl.all, impl.params(9.0)), sig + ":all_params-modified", det)
                    if t not in seen:
                        seen.add(t)
                        ctx.state()
                        nxt.append((t, path + (oi,)))
                finally:
                    impl.close()
        front = nxt
