"""C03 adaptive conformal inference: the coverage-error state machine."""
import itertools
from collections import deque

import numpy as np

ID = "C03"
LEVEL = "model_checking"
RULE = (
    "breadth-first exploration of the error-update machine from every initial error on the dyadic grid, to closure, "
    "one transition per observed target; weighted variant over every 0/1 history up to the bound; "
    "non-trivial = distinct transition (machine, error, history, target) taken on the real code"
)
ASSUMPTIONS = ["errors, step sizes and weights are dyadic, so float32 arithmetic is exact"]

GAMMAS = [(0.25, 0.25), (0.5, 0.125), (0.125, 0.5), (2.0, 0.25), (1.0, 0.0), (1.0, 1.0)]
WEIGHTS = {
    1: [[1.0]],
    2: [[0.5, 0.5], [0.25, 0.75], [0.0, 1.0]],
    3: [[0.25, 0.25, 0.5], [0.0, 0.25, 0.75], [0.125, 0.375, 0.5]],
    4: [[0.25] * 4, [0.0, 0.125, 0.375, 0.5], [0.125, 0.125, 0.25, 0.5]],
    5: [[0.0, 0.125, 0.125, 0.25, 0.5]],
}


def units(tier):
    u = []
    for m in ("clf", "reg"):
        for g in GAMMAS:
            u.append(("plain", m, *g))
        for L in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
            u.append(("weighted", m, L))
        u.append(("reject", m))
        u.append(("loop", m, 5 if tier == "quick" else 8))
    return u


def clip(x):
    return min(1.0, max(0.0, x))


def make(m):
    import fortuna.conformal as fc

    if m == "clf":
        return fc.AdaptiveConformalClassifier(fc.AdaptivePredictionConformalClassifier())
    return fc.AdaptiveConformalRegressor(fc.QuantileConformalRegressor())


# (region, targets) pairs; membership includes the boundary of an interval
CLF = [([2, 0], [0, 1, 2, 3]), ([], [0]), ([1], [1, 0]), ([0, 1, 2], [1])]
REG = [((-1.0, 2.0), [-1.0, 2.0, 0.0, -1.5, 2.5]), ((1.0, -1.0), [0.0]), ((0.5, 0.5), [0.5, 0.25])]


def step(obj, m, region, y, shape, **kw):
    import jax.numpy as jnp

    if m == "clf":
        t = np.array(y) if shape == 0 else np.array([y])
        return obj.update_error(conformal_set=list(region), target=t, **kw)
    t = jnp.array(y) if shape == 0 else jnp.array([y])
    return obj.update_error(conformal_interval=jnp.array(region), target=t, **kw)


def member(m, region, y):
    return (y in region) if m == "clf" else (region[0] <= y <= region[1])


def run_unit(u, ctx):
    import jax.numpy as jnp

    what, m = u[0], u[1]
    obj = make(m)
    space = [(r, y) for r, ys in (CLF if m == "clf" else REG) for y in ys]
    if what == "plain":
        _, _, gamma, target = u
        q = deque([k / 8 for k in range(9)])
        seen = set(q)
        ctx.state(len(seen))
        while q:
            e = q.popleft()
            for (r, y), shape in itertools.product(space, (0, 1)):
                inn = member(m, r, y)
                want = clip(e + gamma * (target - (0 if inn else 1)))
                got = step(obj, m, r, y, shape, error=e, target_error=target, gamma=gamma)
                ctx.trans()
                ctx.trace()
                ctx.nt((m, gamma, target, e, r, y, shape))
                ctx.check(
                    np.ndim(got) == 0 and abs(float(got) - want) < 1e-6, f"{m}:transition",
                    lambda: dict(error=e, gamma=gamma, target_error=target, region=r, y=y, shape=shape, got=str(got), want=want),
                )
                got2 = step(obj, m, r, y, shape, error=e, target_error=target, gamma=gamma, return_were_in=True)
                ctx.check(
                    abs(got2[0] - want) < 1e-6 and np.asarray(got2[1]).reshape(-1).astype(int).tolist() == [int(inn)],
                    f"{m}:were-in", lambda: dict(error=e, region=r, y=y, got=str(got2)),
                )
                if want not in seen:
                    seen.add(want)
                    ctx.state()
                    q.append(want)
        ctx.sample(dict(unit=u, reachable_errors=sorted(seen)[:8]))
        return
    if what == "weighted":
        L = u[2]
        for w, hist, (r, y), shape in itertools.product(
            WEIGHTS[L], itertools.product((0, 1), repeat=L - 1), space, (0, 1)
        ):
            inn = member(m, r, y)
            ctx.state()
            for e, gamma, target in ((0.5, 0.25, 0.25), (0.0, 0.5, 0.125), (1.0, 1.0, 0.5)):
                miss = sum(a * (1 - b) for a, b in zip(w, hist + (int(inn),)))
                want = clip(e + gamma * (target - miss))
                got = step(
                    obj, m, r, y, shape, error=e, target_error=target, gamma=gamma,
                    weights=jnp.array(w), were_in=jnp.array(hist, dtype="int32"), return_were_in=True,
                )
                ctx.trans()
                ctx.trace()
                ctx.nt((m, w, hist, r, y, e))
                ctx.check(
                    abs(got[0] - want) < 1e-6
                    and np.asarray(got[1]).astype(int).tolist() == list(hist) + [int(inn)],
                    f"{m}:weighted-transition",
                    lambda: dict(w=w, hist=hist, region=r, y=y, error=e, got=str(got), want=want),
                )
                got1 = step(
                    obj, m, r, y, shape, error=e, target_error=target, gamma=gamma,
                    weights=jnp.array(w), were_in=jnp.array(hist, dtype="int32"),
                )
                ctx.check(abs(float(got1) - want) < 1e-6, f"{m}:weighted-transition", str(got1))
        return
    if what == "reject":
        r, y = space[0]
        base = dict(error=0.1, target_error=0.05)
        bad = [
            dict(gamma=0.0), dict(gamma=-1.0),
            dict(weights=jnp.array([0.5, 0.5])), dict(were_in=jnp.array([1])),
            dict(weights=jnp.array([0.75, 0.25]), were_in=jnp.array([1])),
            dict(weights=jnp.array([0.5, 0.25, 0.25]), were_in=jnp.array([1, 1])),
            dict(weights=jnp.array([0.25, 0.5]), were_in=jnp.array([1])),
            dict(weights=jnp.array([-0.5, 1.5]), were_in=jnp.array([1])),
            dict(weights=jnp.array([0.5, 0.5]), were_in=jnp.array([2])),
            dict(weights=jnp.array([0.5, 0.5]), were_in=jnp.array([1, 0])),
            dict(weights=jnp.array([0.25, 0.25, 0.5]), were_in=jnp.array([0])),
            dict(weights=jnp.array([0.5, 0.5]), were_in=jnp.array([[1]])),
            dict(weights=jnp.array([[0.5, 0.5]]), were_in=jnp.array([1])),
        ]
        for b in bad:
            try:
                step(obj, m, r, y, 1, **base, **b)
                ctx.fail(f"{m}:bad-argument-accepted", str(b))
            except ValueError:
                pass
            ctx.trans()
            ctx.state()
            ctx.nt((m, "reject", str(b)))
        return
    if what == "loop":
        # closed loop: the region comes from the wrapped predictor at the current error; every target sequence
        depth = u[2]
        import fortuna.conformal as fc

        if m == "clf":
            vp = jnp.array([[0.5, 0.25, 0.25], [0.125, 0.75, 0.125], [0.25, 0.25, 0.5]])
            vt = jnp.array([0, 1, 0])
            tp = jnp.array([[0.5, 0.375, 0.125]])
            inner = fc.AdaptivePredictionConformalClassifier()
            reg = lambda o, e: tuple(o.conformal_set(vp, vt, tp, e)[0])
            ys = [0, 1, 2]
        else:
            z = jnp.array([0.0, 0.0, 0.0, 0.0])
            vt = jnp.array([[1.0], [-2.0], [0.5], [4.0]])
            inner = fc.QuantileConformalRegressor()
            reg = lambda o, e: tuple(
                float(x) for x in np.asarray(o.conformal_interval(z, z, z[:1], z[:1], vt, e))[0]
            )
            ys = [0.0, 1.0, 2.0, 4.0, 5.0]
        obj = type(obj)(inner)
        gamma, target = 0.25, 0.25
        front, seen = {0.25}, {0.25}
        for _ in range(depth):
            nxt = set()
            for e in front:
                r = reg(obj, e)
                ctx.check(r == reg(inner, e), f"{m}:wrapper-differs", (e, r))
                for y in ys:
                    got = float(step(obj, m, r, y, 1, error=e, target_error=target, gamma=gamma))
                    want = clip(e + gamma * (target - (0 if member(m, r, y) else 1)))
                    ctx.trans()
                    ctx.trace()
                    ctx.nt((m, "loop", e, y))
                    ctx.check(abs(got - want) < 1e-6, f"{m}:loop-transition", lambda: dict(e=e, r=r, y=y, got=got, want=want))
                    if want not in seen:
                        seen.add(want)
                        nxt.add(want)
                        ctx.state()
            front = nxt
