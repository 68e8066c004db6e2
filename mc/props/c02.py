"""C02 conformal regression intervals: corrected order-statistic level, alignment, exchangeable coverage."""
import itertools
import math
from fractions import Fraction as F

import numpy as np

ID = "C02"
LEVEL = "exploration"
RULE = (
    "every score multiset over a small integer alphabet up to the size bound, every error on the grid, all accepted "
    "array ranks, several simultaneous test points; every leave-one-out residual table (tournament) up to the size "
    "bound for the coverage theorems; non-trivial = distinct (method, data, error) with non-constant scores"
)
ASSUMPTIONS = [
    "when (n+1)*error < 1 the library uses the largest score instead of an infinite interval; the coverage "
    "guarantee is only required for (n+1)*error >= 1"
]
ERRORS = [0.0, 0.05, 0.1, 0.2, 0.25, 0.5, 0.75, 0.9, 1.0]


def kth(n, e):
    return math.ceil((n + 1) * (1 - F(str(e))))


def bounds(scores, e):
    """[k-th, (k+1)-th] smallest score, clamped to the available scores."""
    s = sorted(scores)
    n = len(s)
    k = kth(n, e)
    lo = s[min(max(k, 1), n) - 1]
    hi = s[min(max(k + 1, 1), n) - 1]
    return lo, hi


def lower_bounds(vals, e):
    """mirror image: the floor(e(n+1))-th smallest of vals and the one below it."""
    lo, hi = bounds([-v for v in vals], e)
    return -hi, -lo


def multisets(alpha, n):
    return list(itertools.combinations_with_replacement(alpha, n))


def units(tier):
    u = []
    for n in range(1, 6 if tier == "quick" else 8):
        u += [("cqr", n), ("onedim", n)]
    u += [("cqr_long", n) for n in (9, 10, 19, 20, 39, 99)]
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for meth in ("jk+", "jkmm", "cv+"):
            u.append(("tab", meth, n))
    for meth in ("jk+", "jkmm"):
        u.append(("cover", meth, 3, 3, 0, 1))
        u.append(("cover", meth, 4, 2, 0, 1))
        if tier == "thorough":
            u += [("cover", meth, 5, 2, j, 8) for j in range(8)]
            u += [("cover", meth, 4, 3, j, 8) for j in range(8)]
        else:
            u += [("cover", meth, 5, 2, j, 4) for j in range(2)]
    u += [("worst", meth, N) for meth in ("jk+", "jkmm") for N in ((6, 8, 10) if tier == "quick" else range(4, 15))]
    u.append(("isin",))
    u.append(("reject",))
    return u


def near(a, b, tol=1e-5):
    return abs(float(a) - float(b)) <= tol * (1 + abs(float(b)))


def within(x, lo, hi, tol=1e-5):
    return float(lo) - tol <= float(x) <= float(hi) + tol


def run_unit(u, ctx):
    import jax.numpy as jnp

    import fortuna.conformal as fc

    what = u[0]
    if what in ("cqr", "cqr_long"):
        n = u[1]
        obj = fc.QuantileConformalRegressor()
        # validation triples (lower, upper, target); score = max(lower - y, y - upper)
        trip = [(0, 2, 1), (0, 2, 0), (0, 2, 3), (0, 2, -2), (1, 1, 4), (-1, 3, -4), (0, 4, 1)]
        tl = np.array([0.0, -1.0, 5.0], "float32")
        tu = np.array([1.0, 3.0, 5.0], "float32")
        if what == "cqr":
            combos = multisets(range(len(trip)), n)
            if n >= 5:
                combos = multisets(range(5), n)
        else:
            combos = [tuple(i for i in range(n))]
            trip = [(0, 2, 2 + (i * 37) % n) for i in range(n)]
        for ci, c in enumerate(combos):
            vl = np.array([trip[i][0] for i in c], "float32")
            vu = np.array([trip[i][1] for i in c], "float32")
            vy = np.array([trip[i][2] for i in c], "float32")[:, None]
            want = [max(trip[i][0] - trip[i][2], trip[i][2] - trip[i][1]) for i in c]
            sc = np.asarray(obj.score(jnp.array(vl), jnp.array(vu), jnp.array(vy)))
            ctx.check(sc.shape == (n,) and np.array_equal(sc, np.array(want, "float32")), "cqr:score", (c, sc))
            es = ERRORS if what == "cqr_long" else [ERRORS[ci % 9], ERRORS[(ci // 9) % 9], 0.25]
            for j, e in enumerate(es):
                lo, hi = bounds(want, e)
                q = obj.quantile(jnp.array(vl), jnp.array(vu), jnp.array(vy), e)
                ctx.check(within(q, lo, hi), "cqr:quantile", lambda: dict(data=c, error=e, got=float(q), lo=lo, hi=hi))
                q2 = obj.quantile(jnp.array(vl), jnp.array(vu), jnp.array(vy), e, scores=jnp.array(sc) * 2)
                ctx.check(near(q2, 2 * float(q)), "cqr:quantile-scores", (c, e, q2))
                for dim in (1, 2):
                    f = (lambda a: jnp.array(a)) if dim == 1 else (lambda a: jnp.array(a)[:, None])
                    iv = np.asarray(obj.conformal_interval(f(vl), f(vu), f(tl), f(tu), jnp.array(vy), e))
                    ok = iv.shape == (3, 2) and all(
                        near(iv[t, 0], tl[t] - float(q)) and near(iv[t, 1], tu[t] + float(q)) for t in range(3)
                    )
                    ctx.check(ok, "cqr:interval", lambda: dict(data=c, error=e, got=iv, q=float(q)))
                iv = np.asarray(
                    obj.conformal_interval(
                        jnp.array(vl), jnp.array(vu), jnp.array(tl), jnp.array(tu), jnp.array(vy), e, quantile=0.0
                    )
                )
                ctx.check(np.array_equal(iv[:, 0], tl) and np.array_equal(iv[:, 1], tu), "cqr:given-quantile", iv)
                if len(set(want)) > 1:
                    ctx.nt(("cqr", c, e))
        ctx.sample(dict(unit=u, scores=want))
        return
    if what == "onedim":
        n = u[1]
        obj = fc.OneDimensionalUncertaintyConformalRegressor()
        trip = [(0, 1, 1), (2, 2, 0), (-1, 1, 1), (0, 4, 1), (1, 1, 5), (3, 2, 3)]
        tp = np.array([[0.0], [2.0]], "float32")
        tu = np.array([[1.0], [4.0]], "float32")
        combos = multisets(range(len(trip)), n) if n < 5 else multisets(range(4), n)
        for ci, c in enumerate(combos):
            vp, vu, vy = [np.array([trip[i][j] for i in c], "float32")[:, None] for j in range(3)]
            want = [abs(trip[i][2] - trip[i][0]) / trip[i][1] for i in c]
            sc = np.asarray(obj.score(jnp.array(vp), jnp.array(vu), jnp.array(vy)))
            ctx.check(sc.shape == (n,) and np.array_equal(sc, np.array(want, "float32")), "onedim:score", (c, sc))
            for e in [ERRORS[ci % 9], ERRORS[(ci // 9) % 9], 0.25]:
                lo, hi = bounds(want, e)
                q = obj.quantile(jnp.array(vp), jnp.array(vu), jnp.array(vy), e)
                ctx.check(within(q, lo, hi), "onedim:quantile", lambda: dict(data=c, error=e, got=float(q), lo=lo, hi=hi))
                iv = np.asarray(
                    obj.conformal_interval(
                        jnp.array(vp), jnp.array(vu), jnp.array(tp), jnp.array(tu), jnp.array(vy), e
                    )
                )
                ok = iv.shape == (2, 2) and all(
                    near(iv[t, 0], tp[t, 0] - tu[t, 0] * float(q)) and near(iv[t, 1], tp[t, 0] + tu[t, 0] * float(q))
                    for t in range(2)
                )
                ctx.check(ok, "onedim:interval", lambda: dict(data=c, error=e, got=iv))
                if len(set(want)) > 1:
                    ctx.nt(("onedim", c, e))
        return
    if what == "tab":
        _, meth, n = u
        m = 2
        vals = (-1, 0, 2)
        preds = list(itertools.product(vals, repeat=n))
        for ci, (mu, y) in enumerate(itertools.product(preds, itertools.product((0, 1), repeat=n))):
            for tj in range(3):
                # test predictions of the n leave-one-out (or fold) models at the m test inputs
                t = [[(i * (tj + 1) + a * (2 - i) + tj) % 5 - 2 for a in range(m)] for i in range(n)]
                e = ERRORS[(ci + tj * 4) % 9]
                r = [abs(a - b) for a, b in zip(mu, y)]
                dim = (ci + tj) % 2
                ex = (lambda a: np.array(a, "float32")) if dim else (lambda a: np.array(a, "float32")[..., None])
                if meth == "cv+":
                    # n points distributed over folds; every point uses its own fold's model
                    for cut in {1, n - 1, n} - {0}:
                        folds = [list(range(cut)), list(range(cut, n))]
                        folds = [f for f in folds if f]
                        a1 = [ex([mu[i] for i in f]) for f in folds]
                        a2 = [ex([y[i] for i in f]) for f in folds]
                        a3 = [ex(t[k]) for k in range(len(folds))]
                        snap = [[x.copy() for x in a] for a in (a1, a2, a3)]
                        l1, l2, l3 = list(a1), list(a2), list(a3)
                        iv = np.asarray(fc.CVPlusConformalRegressor().conformal_interval(l1, l2, l3, e))
                        same = all(
                            len(b) == len(c) and all(x.shape == z.shape and np.array_equal(x, z) for x, z in zip(b, c))
                            for b, c in zip((l1, l2, l3), snap)
                        )
                        ctx.check(same, "cv+:caller-data-changed", (mu, y))
                        fo = {i: k for k, f in enumerate(folds) for i in f}
                        tt = [t[fo[i]] for i in range(n)]
                        judge(ctx, meth, iv, r, tt, m, e, (mu, y, tj, cut))
                else:
                    obj = fc.JackknifePlusConformalRegressor() if meth == "jk+" else fc.JackknifeMinmaxConformalRegressor()
                    iv = np.asarray(
                        obj.conformal_interval(jnp.array(ex(mu)), jnp.array(ex(y)), jnp.array(ex(t)), e)
                    )
                    judge(ctx, meth, iv, r, t, m, e, (mu, y, tj))
        return
    if what == "cover":
        # every table R[i][j] = residual of point i when i and j are both left out; targets 0, predictions R
        _, meth, N, A, part, of = u
        obj = fc.JackknifePlusConformalRegressor() if meth == "jk+" else fc.JackknifeMinmaxConformalRegressor()
        pairs = list(itertools.combinations(range(N), 2))
        opts = [(a, b) for a in range(1, A + 1) for b in range(1, A + 1)]
        if A == 2:
            opts = [(1, 2), (2, 1)] if N == 5 else opts
        es = [e for e in (0.2, 0.25, 0.4, 0.5) if F(str(e)) * N >= 1]
        y0 = jnp.zeros((N - 1, 1))
        for ti, tab in enumerate(itertools.product(opts, repeat=len(pairs))):
            if ti % of != part:
                continue
            R = {}
            for (i, j), (a, b) in zip(pairs, tab):
                R[i, j], R[j, i] = a, b
            for e in es[: 1 if N == 5 else 2] if N > 3 else es:
                hit = 0
                for j in range(N):
                    rest = [i for i in range(N) if i != j]
                    # the models' predictions at the held out point j are R[j,i] away from its target 0
                    iv = obj.conformal_interval(
                        jnp.array([[float(R[i, j])] for i in rest]), y0,
                        jnp.array([[[float(R[j, i])]] for i in rest]), e,
                    )
                    iv = np.asarray(iv)
                    hit += iv[0, 0] <= 1e-6 and iv[0, 1] >= -1e-6
                need = 1 - e if meth == "jkmm" else 1 - 2 * e
                ctx.check(hit >= N * need - 1e-9, f"{meth}:coverage", lambda: dict(table=str(tab), error=e, covered=hit, of=N))
                ctx.nt((meth, N, tab, e))
        return
    if what == "worst":
        # a regular group of g points (each loses (g-1)/2 times inside it) that wins against all others
        _, meth, N = u
        obj = fc.JackknifePlusConformalRegressor() if meth == "jk+" else fc.JackknifeMinmaxConformalRegressor()
        y0 = jnp.zeros((N - 1, 1))
        for g in range(1, N, 2):
            R = {}
            for i, j in itertools.combinations(range(N), 2):
                if j < g:
                    win = i if (j - i) % g <= g // 2 else j
                else:
                    win = i
                lose = j if win == i else i
                R[win, lose], R[lose, win] = 2, 1
            for e in (0.1, 0.125, 0.2, 0.25, 0.3, 0.4):
                if F(str(e)) * N < 1:
                    continue
                hit = 0
                for j in range(N):
                    rest = [i for i in range(N) if i != j]
                    iv = obj.conformal_interval(
                        jnp.array([[float(R[i, j])] for i in rest]), y0,
                        jnp.array([[[float(R[j, i])]] for i in rest]), e,
                    )
                    iv = np.asarray(iv)
                    hit += iv[0, 0] <= 1e-6 and iv[0, 1] >= -1e-6
                need = 1 - e if meth == "jkmm" else 1 - 2 * e
                ctx.check(hit >= N * need - 1e-9, f"{meth}:coverage", lambda: dict(N=N, g=g, error=e, covered=hit))
                ctx.nt((meth, N, g, e))
        return
    if what == "isin":
        objs = [fc.QuantileConformalRegressor(), fc.OneDimensionalUncertaintyConformalRegressor(),
                fc.JackknifePlusConformalRegressor(), fc.EnbPI()]
        iv = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1)]
        for o in objs:
            for v in (-2, -1, 0, 1, 2):
                got = np.asarray(o.is_in(jnp.full(len(iv), float(v)), jnp.array(iv, "float32"))).astype(bool)
                want = np.array([a <= v <= b for a, b in iv])
                ctx.check(np.array_equal(got, want), "is_in", (v, got))
                ctx.nt(("isin", v))
        return
    if what == "reject":
        q = fc.QuantileConformalRegressor()
        z = jnp.zeros(3)
        for e in (-0.1, 1.1):
            for f in (
                lambda: q.quantile(z, z, z[:, None], e),
                lambda: fc.OneDimensionalUncertaintyConformalRegressor().quantile(
                    z[:, None], 1 + z[:, None], z[:, None], e
                ),
            ):
                try:
                    f()
                    ctx.fail("error-out-of-range-accepted", e)
                except ValueError:
                    ctx.ev()
                    ctx.nt(("reject", e))
        for bad in (0.0, -1.0):
            try:
                fc.OneDimensionalUncertaintyConformalRegressor().score(z[:, None], z[:, None] + bad, z[:, None])
                ctx.fail("nonpositive-uncertainty-accepted", bad)
            except ValueError:
                ctx.ev()


def judge(ctx, meth, iv, r, t, m, e, key):
    if not ctx.check(iv.shape == (m, 2), f"{meth}:shape", (key, iv.shape)):
        return
    n = len(r)
    for a in range(m):
        if meth == "jkmm":
            lo, hi = bounds(r, e)
            tl, tr = min(t[i][a] for i in range(n)), max(t[i][a] for i in range(n))
            okl = within(iv[a, 0], tl - hi, tl - lo)
            okr = within(iv[a, 1], tr + lo, tr + hi)
        else:
            left = [t[i][a] - r[i] for i in range(n)]
            right = [t[i][a] + r[i] for i in range(n)]
            okl = within(iv[a, 0], *lower_bounds(left, e))
            okr = within(iv[a, 1], *bounds(right, e))
        ctx.check(okl and okr, f"{meth}:interval", lambda: dict(key=key, error=e, test=a, got=iv[a], r=r, t=t))
    if len(set(r)) > 1:
        ctx.nt((meth, key, e))
