"""C24 metrics, losses and kernel regression equal their definitions."""
import itertools

import numpy as np

ID = "C24"
LEVEL = "exploration"
RULE = (
    "accuracy: all predictions and targets of up to four points over three classes; Brier score: all probability rows over an alphabet with extremes, arrays and loaders of targets; "
    "calibration errors: all confidences over an alphabet with extremes x all hit patterns up to four points (and multisets of six), bins decoded from the counts; "
    "regression metrics and interval coverage: all predictions, bounds and targets over alphabets, one or two columns; losses: all logits over an alphabet with extremes, values and gradients; "
    "Nadaraya-Watson: all training sets up to three points x inputs x bandwidths x kernels; non-trivial = a case whose points differ"
)
ASSUMPTIONS = ["float32 arithmetic: relative tolerance 1e-4", "which bin a confidence belongs to is not fixed: bins must be ten consecutive ranges of confidence which cover all points",
               "kernel regression is checked where the kernel does not underflow"]


def units(tier):
    q = tier == "quick"
    u = [("accuracy", n) for n in (1, 2, 3, 4)] + [("brier", n) for n in (1, 2, 3)]
    u += [("bins", n, k) for n in (1, 2, 3, 4) for k in range(8 if n == 4 else 1)]
    u += [("bins6", k) for k in range(4 if q else 16)]
    u += [("regression", n, d) for n in (1, 2, 3) for d in (1, 2) if n * d <= 4]
    u += [("picp", n) for n in (1, 2, 3)]
    u += [("loss", c, n) for c in (1, 2, 3) for n in (1, 2)] + [("mse", n, d) for n in (1, 2) for d in (1, 2)]
    u += [("kernel", n, k) for n in (1, 2, 3) for k in range(3 if n == 3 else 1)]
    return u


def run_unit(u, ctx):
    globals()[u[0]](u, ctx)


def close(a, b, tol=1e-4):
    a, b = np.asarray(a, "float64"), np.asarray(b, "float64")
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def refuses(f, *a):
    try:
        f(*a)
        return False
    except ValueError:
        return True


def accuracy(u, ctx):
    from fortuna.metric.classification import accuracy as f

    n = u[1]
    for p in itertools.product(range(3), repeat=n):
        for t in itertools.product(range(3), repeat=n):
            ctx.ev()
            if len(set(t)) > 1:
                ctx.nt((p, t))
            want = sum(a == b for a, b in zip(p, t)) / n
            got = f(np.array(p), np.array(t))
            ctx.check(close(got, want), "accuracy", lambda: [p, t, float(got), want])
    for a, b in ((np.zeros((n, 1)), np.zeros(n)), (np.zeros(n), np.zeros((n, 1)))):
        ctx.check(refuses(f, a, b), "accuracy of matrices", lambda: [a.shape, b.shape])


ROWS = [(1.0, 0.0, 0.0), (0.0, 0.5, 0.5), (0.2, 0.3, 0.5), (0.0, 0.0, 1.0)]


def brier(u, ctx):
    from fortuna.data import DataLoader
    from fortuna.data.loader import TargetsLoader
    from fortuna.metric.classification import brier_score as f

    n = u[1]
    for rows in itertools.product(ROWS, repeat=n):
        for t in itertools.product(range(3), repeat=n):
            p, y = np.array(rows), np.array(t)
            want = ((p - np.eye(3)[y]) ** 2).sum(1).mean()
            ctx.ev()
            ctx.nt((rows, t))
            got = f(p, y)
            ctx.check(close(got, want), "brier", lambda: [rows, t, float(got), want])
            if t[0] == 0 or n == 1:
                got2 = f(p, TargetsLoader.from_array_targets(y, batch_size=2))
                ctx.check(close(got2, want), "brier of loader", lambda: [rows, t, float(got2), want])
    for p in itertools.product((0.0, 0.25, 1.0), repeat=n):
        for t in itertools.product((0, 1), repeat=n):
            ctx.ev()
            want = np.mean((np.array(p) - np.array(t)) ** 2)
            got = f(np.array(p), np.array(t))
            ctx.check(close(got, want), "binary brier", lambda: [p, t, float(got), want])
    ctx.check(refuses(f, np.zeros((1, 1, 2)), np.zeros(1)), "brier of tensors", "accepted")


CONF = (0.1, 0.34, 0.5, 0.77, 1.0)


def one_bins(ctx, conf, hit, dim):
    from fortuna.metric.classification import compute_counts_confs_accs, ece, expected_calibration_error, maximum_calibration_error, mce

    n = len(conf)
    conf = np.array(conf)
    if dim == 2:
        probs = np.stack([conf, 1 - conf, np.zeros(n)], 1)
        probs[conf < 0.5] = np.stack([conf, conf * 0.5, conf], 1)[conf < 0.5]  # the largest entry is the confidence
    else:
        probs = conf
    preds = np.arange(n) % 3
    targets = np.where(hit, preds, (preds + 1) % 3)
    counts, confs, accs = (np.asarray(a, "float64") for a in compute_counts_confs_accs(preds, probs, targets))
    ctx.ev()
    case = lambda: [conf.tolist(), list(hit), dim, counts.tolist(), confs.tolist(), accs.tolist()]
    if not ctx.check(counts.shape == confs.shape == accs.shape == (10,) and counts.sum() == n and (counts >= 0).all(), "bins count", case):
        return
    # bins are consecutive ranges, so they are runs of the sorted confidences; equal confidences share a bin
    order = np.argsort(conf, kind="stable")
    hits = np.array(hit)[order]
    s = conf[order]
    i = 0
    e = m = 0.0
    for c, cf, ac in zip(counts.astype(int), confs, accs):
        j = i + c
        if c == 0:
            ctx.check(cf == 0 and ac == 0, "empty bin", case)
            continue
        ctx.check(j == n or s[j] > s[j - 1] + 1e-9, "bin cuts equal confidences", case)
        ctx.check(close(cf, s[i:j].mean()) and close(ac, hits[i:j].mean()), "bin averages", case)
        gap = abs(hits[i:j].mean() - s[i:j].mean())
        e, m = e + c * gap / n, max(m, gap)
        i = j
    if len(set(conf)) > 1 and 0 < sum(hit) < n:
        ctx.nt((tuple(conf), tuple(hit)))
    for f, want in ((expected_calibration_error, e), (ece, e), (maximum_calibration_error, m), (mce, m)):
        got = f(preds, probs, targets)
        ctx.check(close(got, want), f.__name__, lambda: [conf.tolist(), list(hit), dim, float(got), want])


def bins(u, ctx):
    _, n, k = u
    for i, conf in enumerate(itertools.product(CONF, repeat=n)):
        if n == 4 and (list(conf) != sorted(conf) and ctx.tier == "quick" or i % 8 != k):
            continue
        for hit in itertools.product((True, False), repeat=n):
            one_bins(ctx, conf, hit, 2 if (i + sum(hit)) % 2 or n < 3 else 1)
            if n < 3:
                one_bins(ctx, conf, hit, 1)


def bins6(u, ctx):
    k = u[1]
    mod = 4 if ctx.tier == "quick" else 16
    for i, conf in enumerate(itertools.combinations_with_replacement(CONF, 6)):
        if i % mod != k:
            continue
        for j, hit in enumerate(itertools.product((True, False), repeat=6)):
            if ctx.tier == "quick" and (i + j) % 7:
                continue
            one_bins(ctx, conf, hit, 2)


V = (-1.0, 0.0, 2.0)


def regression(u, ctx):
    import jax.numpy as jnp

    from fortuna.metric import regression as r

    _, n, d = u
    for i, v in enumerate(itertools.product(V, repeat=2 * n * d)):
        if n * d == 4 and ctx.tier == "quick" and i % 3:
            continue
        a = np.array(v).reshape(2, n, d)
        p, t = jnp.array(a[0]), jnp.array(a[1])
        ctx.ev()
        if n > 1 and not np.allclose(a[0, 0], a[0, 1]):
            ctx.nt(v)
        sq, ab = ((a[0] - a[1]) ** 2).sum(1).mean(), np.abs(a[0] - a[1]).sum(1).mean()
        for f, want in ((r.mean_squared_error, sq), (r.mse, sq), (r.root_mean_squared_error, np.sqrt(sq)), (r.rmse, np.sqrt(sq)),
                        (r.mean_absolute_error, ab), (r.mae, ab), (r.root_mean_absolute_error, np.sqrt(ab)), (r.rmae, np.sqrt(ab))):
            got = f(p, t)
            ctx.check(close(got, want), f.__name__, lambda: [a.tolist(), float(got), want])


def picp(u, ctx):
    from fortuna.metric.regression import picp as f, prediction_interval_coverage_probability as g

    n = u[1]
    alpha = (0.0, 1.0, 2.0)
    for i, v in enumerate(itertools.product(alpha, repeat=3 * n)):
        if n == 3 and ctx.tier == "quick" and i % 7:
            continue
        lo, up, t = np.array(v).reshape(3, n)
        want = np.mean((lo <= t) & (t <= up))
        ctx.ev()
        if n > 1 and 0 < want < 1:
            ctx.nt(v)
        for k, h in ((0, f), (7, g), (i % 8, f)):
            args = [a[:, None] if (k >> j) & 1 else a for j, a in enumerate((lo, up, t))]
            got = h(*args)
            ctx.check(close(got, want), "picp", lambda: [v, k, float(got), want])
    two, one = np.zeros((n, 2)), np.zeros(n)
    for a in ((two, one, one), (one, two, one), (one, one, two)):
        ctx.check(refuses(f, *a), "picp of matrices", lambda: [x.shape for x in a])


LOGITS = (-100.0, -1.0, 0.0, 2.0, 100.0)


def loss(u, ctx):
    import jax
    import jax.numpy as jnp

    from fortuna.loss.classification.cross_entropy import cross_entropy_loss_fn
    from fortuna.loss.classification.focal_loss import focal_loss_fn

    _, c, n = u
    alpha = LOGITS if c * n <= 4 else (-100.0, 0.5, 100.0)
    fs = {None: jax.value_and_grad(cross_entropy_loss_fn)}
    for g in (1.0, 2.0, 3.0):
        fs[g] = jax.value_and_grad(lambda o, t, g=g: focal_loss_fn(o, t, gamma=g))
    fs["default"] = jax.value_and_grad(focal_loss_fn)
    fs = {k: jax.jit(jax.vmap(f)) for k, f in fs.items()}
    outs = np.array(list(itertools.product(alpha, repeat=c * n))).reshape(-1, n, c)
    for t in itertools.product(range(c), repeat=n):
        m = outs.max(-1, keepdims=True)
        lse = (m + np.log(np.exp(outs - m).sum(-1, keepdims=True)))
        lp = outs - lse
        p = np.exp(lp)
        y = np.array(t)
        l = np.take_along_axis(lp, y[None, :, None].repeat(len(outs), 0), -1)[..., 0]
        q = np.exp(l)
        for g, f in fs.items():
            got, grad = f(jnp.array(outs), jnp.array(np.tile(y, (len(outs), 1))))
            k = {None: 0.0, "default": 2.0}.get(g, g)
            rest = -np.expm1(l)
            want = -(rest**k * l).mean(-1)
            d = (k * rest ** (k - 1) * q * l if k else 0.0) - rest**k
            wg = d[..., None] * (np.eye(c)[y][None] - p) / n
            ctx.ev(len(outs))
            for i in range(len(outs)):
                if len(set(outs[i].ravel())) > 1:
                    ctx.nt((tuple(outs[i].ravel()), t))
                name = "cross entropy" if g is None else "focal"
                ctx.check(close(got[i], want[i]), f"{name} value", lambda: [outs[i].tolist(), t, g, float(got[i]), float(want[i])])
                ctx.check(close(grad[i], wg[i], 1e-3), f"{name} gradient", lambda: [outs[i].tolist(), t, g, np.asarray(grad[i]).tolist(), wg[i].tolist()])


def mse(u, ctx):
    import jax
    import jax.numpy as jnp

    from fortuna.loss.regression.scaled_mse import scaled_mse_fn

    _, n, d = u
    f = jax.jit(jax.vmap(jax.value_and_grad(scaled_mse_fn), in_axes=(0, None)))
    alpha = (-1.0, 0.5, 3.0) if n * d <= 2 else (-1.0, 3.0)
    outs = np.array(list(itertools.product(alpha, repeat=2 * n * d))).reshape(-1, n, 2 * d)
    for t in itertools.product((0.0, 2.0), repeat=n * d):
        y = np.array(t).reshape(n, d)
        got, grad = f(jnp.array(outs), jnp.array(y))
        mu, lv = outs[..., :d], outs[..., d:]
        want = (np.exp(-lv) * (y - mu) ** 2 + lv).sum(-1).mean(-1)
        wg = np.concatenate([-2 * np.exp(-lv) * (y - mu), 1 - np.exp(-lv) * (y - mu) ** 2], -1) / n
        ctx.ev(len(outs))
        for i in range(len(outs)):
            ctx.nt((tuple(outs[i].ravel()), t))
            ctx.check(close(got[i], want[i]), "scaled mse", lambda: [outs[i].tolist(), t, float(got[i]), float(want[i])])
            ctx.check(close(grad[i], wg[i]), "scaled mse gradient", lambda: [outs[i].tolist(), t])


def kernel(u, ctx):
    import jax.numpy as jnp

    from fortuna.kernel_regression import NadarayaWatsonKernelRegressor as NW

    _, n, k = u
    kernels = {"gauss": (None, lambda x: np.exp(-0.5 * x**2)), "laplace": (lambda x: jnp.exp(-jnp.abs(x)), lambda x: np.exp(-np.abs(x)))}
    at = np.array([-0.25, 0.0, 0.1, 0.3])
    for i, xs in enumerate(itertools.product((-0.2, 0.0, 0.1), repeat=n)):
        if n == 3 and i % 3 != k:
            continue
        for ys in itertools.product((-1.0, 0.0, 3.0), repeat=n):
            for name, (fn, ref) in kernels.items():
                x, y = np.array(xs), np.array(ys)
                m = NW(jnp.array(x), jnp.array(y), **({} if fn is None else {"kernel": fn}))
                for b in (0.1, 0.06, 1.0):
                    got = np.asarray(m.predict(jnp.array(at), **({} if b == 0.1 else {"bandwidth": b})))
                    w = ref((at[:, None] - x[None]) / b)
                    want = (w * y).sum(1) / w.sum(1)
                    ctx.ev()
                    if len(set(ys)) > 1 and len(set(xs)) > 1:
                        ctx.nt((xs, ys, name, b))
                    ctx.check(close(got, want, 1e-3), "kernel regression", lambda: [xs, ys, name, b, got.tolist(), want.tolist()])
    m = NW(jnp.zeros(n), jnp.arange(n))
    ctx.check(refuses(m.predict, jnp.zeros((2, 1))) and refuses(NW, jnp.zeros((n, 1)), jnp.zeros(n)) and refuses(NW, jnp.zeros(n), jnp.zeros((n, 1))) and refuses(NW, jnp.zeros(n), jnp.zeros(n + 1)),
              "kernel refusals", "malformed arrays are accepted")
