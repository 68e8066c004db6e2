"""C06 one-shot multicalibration: bucket means, pointwise application, calibration on the calibration data."""
import itertools

import numpy as np

ID = "C06"
LEVEL = "exploration"
RULE = (
    "every vector of initial values over a small alphabet and every vector of scores, for each number of buckets and "
    "minimal probability; every calibrated value is compared with the bucket mean, applied to every test batch over the "
    "alphabet up to the bound; non-trivial = distinct data set in which some bucket is patched with a value other than its centre"
)
ASSUMPTIONS = ["values on which two buckets are equally near, or on a bucket border, may take either bucket"]
H = 1e-5
AL = [0.0, 0.12, 0.3, 0.36, 0.7, 1.0]


def units(tier):
    u = []
    n = 3 if tier == "quick" else 4
    for nb in (2, 4, 5):
        for minp in ("auto", 0.0, 0.4):
            for meth in ("multi", "binary"):
                u.append((meth, nb, minp, n))
            u.append(("top", nb, minp, n))
    u.append(("misc",))
    return u


TOPROWS = [(0.7, 0.3, 0.0), (0.12, 0.58, 0.3), (0.3, 0.3, 0.4), (0.0, 0.0, 1.0), (0.36, 0.34, 0.3)]


def cands(v, c, nb, minp, vals, top, scores):
    """Set of admissible calibrated values for value v of class c."""
    bk = np.linspace(0, 1, nb)
    d = abs(bk - v)
    out = []
    for k in np.where(d <= d.min() + H)[0]:
        m = np.abs(vals[:, c] - bk[k])
        near = abs(m - 0.5 / nb) < H
        opts = [m < 0.5 / nb] if not near.any() else [m < 0.5 / nb - H, m < 0.5 / nb + H]
        for o in opts:
            o = o & top[:, c]
            p = o.mean()
            if p > 0 and p > minp - H:
                out.append(scores[o, c].mean())
            if p < minp + H:
                out.append(bk[k])
    return out


def ok(x, cs):
    return any(abs(x - c) < 2e-5 for c in cs)


def run_unit(u, ctx):
    import jax.numpy as jnp

    import fortuna.conformal as fc

    if u[0] == "misc":
        for mk, V in ((fc.OneShotMulticalibrator, [0.1, 0.7]), (fc.OneShotBinaryClassificationMulticalibrator, [0.1, 0.7]),
                      (lambda: fc.OneShotTopLabelMulticalibrator(n_classes=3), [TOPROWS[0], TOPROWS[1]])):
            o = mk()
            ctx.state()
            ctx.check(np.allclose(o.apply_patches(jnp.array(V)), np.array(V)), "uncalibrated-not-identity")
            s = jnp.array([0, 1])
            ctx.nt(str(mk))
            for bad in ((s, jnp.array(V) * 3), (s, jnp.array(V) - 2), (s[:, None], jnp.array(V)), (s, None)):
                try:
                    o.calibrate(*bad)
                    ctx.fail("bad-argument-accepted", str(bad))
                except ValueError:
                    ctx.ev()
            for p in (-0.1, 1.1):
                try:
                    o.calibrate(s, jnp.array(V), min_prob_b=p)
                    ctx.fail("bad-argument-accepted", str(p))
                except ValueError:
                    ctx.ev()
        return
    meth, nb, minp, n = u
    if meth == "top":
        vals = list(itertools.product(TOPROWS, repeat=n))
        sc = list(itertools.product(range(3), repeat=n))
        obj = fc.OneShotTopLabelMulticalibrator(n_classes=3)
        tests = [list(t) for k in (1, 2) for t in itertools.combinations(TOPROWS, k)]
        nd = 3
    else:
        vals = list(itertools.combinations_with_replacement(AL, n))
        sc = list(itertools.product([0.0, 0.5, 1.0] if meth == "multi" else [0, 1], repeat=n))
        obj = (fc.OneShotMulticalibrator if meth == "multi" else fc.OneShotBinaryClassificationMulticalibrator)()
        tests = [list(t) for k in (1, 2, 3) for t in itertools.combinations(AL, k)] + [list(AL), [0.25, 0.5, 0.9]]
        nd = 1
    mp = 1 / (nb * nd) if minp == "auto" else minp
    step = 1 if ctx.tier == "thorough" else {"multi": 9, "binary": 5, "top": 40}[meth]
    space = list(itertools.product(vals, sc))
    for i, (v, s) in list(enumerate(space))[::step]:
        if meth == "binary" and len(set(s)) < 2:
            continue
        V, S = jnp.array(v), jnp.array(s)
        v2 = np.array(V, float).reshape(n, -1)
        top = np.ones((n, 1), bool) if nd == 1 else (v2.argmax(1)[:, None] == np.arange(3))
        s2 = np.array(s, float)[:, None] if nd == 1 else (np.array(s)[:, None] == np.arange(3)).astype(float)
        test = tests[i % len(tests)]
        vb = np.array(V)
        got = obj.calibrate(S, V, jnp.array(test), n_buckets=nb, min_prob_b=minp)
        ctx.ev()
        ctx.state()
        inp = dict(method=meth, scores=s, values=v, n_buckets=nb, min_prob_b=minp)
        patched = False
        for T, G in ((np.array(test, float), np.array(got)), (np.array(v, float), np.array(obj.apply_patches(V)))):
            ctx.check(T.shape == G.shape, f"{meth}:shape", lambda: dict(inp, test=T.tolist(), got=G.tolist()))
            T2, G2 = np.float32(T).astype(float).reshape(len(T), -1), G.reshape(len(T), -1)
            for r in range(len(T2)):
                for c in range(T2.shape[1]):
                    if nd > 1 and T2[r].argmax() != c:
                        want = [T2[r, c]]
                    else:
                        want = cands(T2[r, c], c, nb, mp, v2, top, s2)
                        patched |= min(abs(np.linspace(0, 1, nb) - G2[r, c])) > 1e-3
                    ctx.check(ok(G2[r, c], want), f"{meth}:value", lambda: dict(inp, test=T.tolist(), row=r, cls=c, got=G.tolist(), want=want))
        if patched:
            ctx.nt((meth, nb, minp, s, v))
        # pointwise: alone, or in another batch, a point gets the same value
        one = np.array(obj.apply_patches(jnp.array(test)[:1]))
        ctx.check(np.allclose(one[0], np.array(got)[0], atol=1e-6), f"{meth}:not-pointwise", lambda: dict(inp, test=test))
        ctx.check((np.array(V) == vb).all(), f"{meth}:inputs-modified")
        # idempotent calibration data: within a patched bucket, the mean of scores equals the value given
        G = np.array(obj.apply_patches(V)).reshape(n, -1)
        bk = np.linspace(0, 1, nb)
        for c in range(v2.shape[1]):
            d = np.abs(v2[:, c][:, None] - bk)
            inb = (d.min(1) < 0.5 / nb - H) & top[:, c]
            k = d.argmin(1)
            for kk in set(k[inb]):
                m = inb & (k == kk)
                if m.mean() > mp + H and not ((np.abs(d[:, kk] - 0.5 / nb) < H) & top[:, c]).any():
                    ctx.check(abs(G[m, c].mean() - s2[m, c].mean()) < 2e-5, f"{meth}:not-calibrated", lambda: dict(inp, got=G.tolist()))
        ms = float(obj.mean_squared_error(V, S))
        ctx.check(abs(ms - np.mean((v2 - s2) ** 2)) < 1e-5, f"{meth}:mse", lambda: dict(inp, got=ms))
    ctx.sample(dict(unit=u, space=len(space), step=step))
