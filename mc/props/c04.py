"""C04 EnbPI: out-of-bag residuals, intervals, and the sliding residual window over batch histories."""
import itertools

import numpy as np

ID = "C04"
LEVEL = "model_checking"
RULE = (
    "every bootstrap index matrix B x T up to the bound, with fixed distinct predictions, against an out-of-bag "
    "reference; breadth-first exploration of the online machine: every sequence of batches (size and data from a small "
    "alphabet) up to the depth bound, the residual window compared with a first-in-first-out queue after every step; "
    "non-trivial = distinct index matrix or distinct history"
)
ASSUMPTIONS = ["numbers are small integers or dyadic fractions, so float32 arithmetic is exact up to rounding of quantiles"]


def units(tier):
    u = []
    shapes = [(1, 2), (2, 2), (3, 2), (1, 3), (2, 3)] if tier == "quick" else [(1, 2), (2, 2), (3, 2), (4, 2), (1, 3), (2, 3), (1, 4)]
    for B, T in shapes:
        n = T ** (B * T)
        k = max(1, n // 120)
        u += [("oob", B, T, j, k) for j in range(k)]
    # three samples of three points: rows up to order (a sample is a multiset), all of them in the thorough tier
    u += [("oob", 3, 3, j, 12) for j in range(12)]
    depth = 3 if tier == "quick" else 4
    for W in (1, 2, 3):
        for first in BATCHES:
            u.append(("online", W, first, depth))
    u.append(("reject",))
    return u


# (number of new points, offset that makes the targets distinct)
BATCHES = [(1, 0), (1, 3), (2, 0), (2, 5), (3, 1), (5, 2)]
ERR = [0.0, 0.25, 0.5, 1.0]


def q(v, p):
    return np.quantile(np.asarray(v, dtype="float64"), p, axis=0)


def close(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(np.asarray(a, "float64"), b, atol=2e-4)


def run_unit(u, ctx):
    import jax.numpy as jnp

    from fortuna.conformal import EnbPI

    if u[0] == "oob":
        _, B, T, j, k = u
        rs = np.arange(1, 200)
        train = np.array([[(3 * b + 5 * t * t + b * t) % 11 for t in range(T)] for b in range(B)], dtype="float32")
        test = np.array([[(7 * b + 2 * t + 1) % 13 for t in range(2)] for b in range(B)], dtype="float32")
        y = np.array([4.0 - 3 * t for t in range(T)], dtype="float32")
        aggs = [("mean", None, lambda x: np.mean(x, 0)), ("max", lambda x: jnp.max(x, 0), lambda x: np.max(x, 0))]
        space = itertools.product(range(T), repeat=B * T)
        if B == 3 and T == 3 and ctx.tier == "quick":
            space = (sum(r, ()) for r in itertools.product(itertools.combinations_with_replacement(range(T), T), repeat=B))
        for c, idx in enumerate(space):
            if c % k != j:
                continue
            c = c // k
            idx = np.array(idx).reshape(B, T)
            for an, agg, ragg in aggs if c % 2 == 0 else aggs[:1]:
                res = np.zeros(T)
                at = np.zeros((T, 2))
                for t in range(T):
                    out = [b for b in range(B) if t not in idx[b]]
                    if out:
                        res[t] = abs(y[t] - ragg(train[out, t]))
                        at[t] = ragg(test[out])
                    else:
                        res[t] = abs(y[t])
                o = EnbPI() if agg is None else EnbPI(aggregation_fun=agg)
                e = ERR[c % 4]
                third = (c // 4) % 2
                copies = [a.copy() for a in (idx, train, test, y)]
                a = (idx, train[..., None], test[..., None], y[:, None]) if third else (idx, train, test, y)
                if (c // 8) % 2:
                    a = tuple([a[0]] + [jnp.array(x) for x in a[1:]])
                ci, r = o.conformal_interval(*a, error=e, return_residuals=True)
                ctx.ev()
                ctx.state()
                want = np.stack([q(at, 1 - e) - q(res, 1 - e), q(at, 1 - e) + q(res, 1 - e)], 1)
                d = lambda: dict(idx=idx.tolist(), agg=an, error=e, residuals=np.asarray(r).tolist(), want_residuals=res.tolist(),
                                 interval=np.asarray(ci).tolist(), want=want.tolist())
                ctx.check(close(r, res), "oob-residuals", d)
                ctx.check(close(ci, want), "oob-interval", d)
                ci2 = o.conformal_interval(*a, error=e)
                ctx.check(close(ci2, want), "oob-interval", d)
                ctx.check(all((p == q_).all() for p, q_ in zip(copies, (idx, train, test, y))), "inputs-modified", d)
                if any(len(set(row)) < T for row in idx.tolist()):
                    ctx.nt(("oob", B, T, idx.tolist(), e, an))
        return
    if u[0] == "online":
        _, W, first, depth = u
        o = EnbPI()
        B = 2

        def batch(b, pos):
            n, off = b
            tr = np.array([[(i * 3 + off + pos + 2 * k) % 7 for i in range(n)] for k in range(B)], dtype="float32")
            te = np.array([[(i + off + 4 * k) % 5 for i in range(2)] for k in range(B)], dtype="float32")
            y = np.array([(5 * i + 2 * off + pos) % 9 for i in range(n)], dtype="float32")
            return tr, te, y

        init = [float(2 * i + 1) for i in range(W)]
        for form in ("np", "jnp", "np3"):
            start = np.array(init) if form != "jnp" else jnp.array(init)
            stack = [((), start, list(init))]
            while stack:
                hist, real, model = stack.pop()
                ctx.state()
                if len(hist) == depth:
                    continue
                for b in [first] if not hist else BATCHES:
                    tr, te, y = batch(b, len(hist))
                    before = np.array(real)
                    e = ERR[len(hist) % 3 + (1 if W > 1 else 0)]
                    a = (tr, te, y) if form == "np" else (tr[..., None], te[..., None], y[:, None]) if form == "np3" else tuple(map(jnp.array, (tr, te, y)))
                    ci, new = o.conformal_interval_from_residuals(real, *a, error=e)
                    m2 = (model + [float(v) for v in np.abs(y - tr.mean(0))])[-W:]
                    ctx.trans()
                    ctx.trace()
                    ctx.nt((W, form, hist + (b,)))
                    d = lambda: dict(window=W, history=hist + (b,), form=form, residuals=np.asarray(new).tolist(), want=m2)
                    ctx.check(close(new, np.array(m2)), "window", d)
                    c = te.mean(0)
                    w = float(q(m2, 1 - e))
                    ctx.check(close(ci, np.stack([c - w, c + w], 1)), "online-interval", lambda: dict(d(), interval=np.asarray(ci).tolist(), half_width=w, error=e))
                    ctx.check((np.array(real) == before).all(), "residuals-modified", d)
                    stack.append((hist + (b,), new, m2))
        ctx.sample(dict(window=W, first=first, depth=depth))
        return
    if u[0] == "reject":
        z = lambda *s: np.zeros(s, dtype="float32")
        o = EnbPI()
        ok = dict(bootstrap_indices=np.array([[0, 0], [1, 1]]), bootstrap_train_preds=z(2, 2), bootstrap_test_preds=z(2, 3), train_targets=z(2), error=0.1)
        o.conformal_interval(**ok)
        for k, v in [
            ("bootstrap_indices", np.array([[0, 2], [1, 1]])), ("bootstrap_indices", np.array([[0, -1], [1, 1]])),
            ("bootstrap_train_preds", z(3, 2)), ("bootstrap_train_preds", z(2, 3)), ("bootstrap_train_preds", z(2, 2, 2)),
            ("bootstrap_test_preds", z(3, 3)), ("bootstrap_test_preds", z(2, 3, 2)), ("train_targets", z(3)), ("train_targets", z(2, 2)),
        ]:
            ctx.state()
            ctx.nt(("reject", k, v.shape))
            try:
                o.conformal_interval(**{**ok, k: v})
                ctx.fail("bad-argument-accepted", (k, v.tolist()))
            except ValueError:
                pass
        ok = dict(train_residuals=z(2), bootstrap_new_train_preds=z(2, 2), bootstrap_new_test_preds=z(2, 3), new_train_targets=z(2), error=0.1)
        o.conformal_interval_from_residuals(**ok)
        for k, v in [
            ("bootstrap_new_train_preds", z(3, 2)), ("bootstrap_new_train_preds", z(2, 3)), ("bootstrap_new_train_preds", z(2, 2, 2)),
            ("bootstrap_new_test_preds", z(3, 3)), ("bootstrap_new_test_preds", z(2, 3, 2)), ("new_train_targets", z(1)), ("new_train_targets", z(2, 2)),
        ]:
            ctx.state()
            ctx.nt(("reject2", k, v.shape))
            try:
                o.conformal_interval_from_residuals(**{**ok, k: v})
                ctx.fail("bad-argument-accepted", (k, v.tolist()))
            except ValueError:
                pass
