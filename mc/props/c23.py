"""C23 predictive sets of classifiers: credible and conformal sets equal their definitions under one mixture."""
import itertools

import numpy as np

from mc import pm
from mc.props import c20

ID = "C23"
LEVEL = "exploration"
RULE = (
    "posteriors of two known members with smooth or almost deterministic predictions x calibrated or without calibrator x every composition of the training and of the test points in batches x one to three draws "
    "x random keys x one device or two devices; for each call, the sets of a grid of errors including both extremes are compared with the sets by definition of every mixture of members (one mixture must explain "
    "all points and all errors of a key); non-trivial = a set which is neither a single class nor all classes"
)
ASSUMPTIONS = [
    "classes whose cumulative probability is within 1e-4 of the threshold, and scores within 1e-3 of each other in logarithm, may fall on either side",
    "conformal scores are weighted by the posterior draws, as in the cited method: weights proportional to the likelihood of the candidate label",
]
ENV = {"XLA_FLAGS": "--xla_force_host_platform_device_count=2"}

XT = np.array([[0.3, -0.2], [-0.6, 0.4], [0.9, 0.7], [-0.1, -0.8]], "float32")
LABELS = [(0, 2, 1, 0), (1, 1, 2, 0), (2, 0, 0, 1)]
ERRORS = (0.0, 0.02, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99, 1.0)


def members(calib, sharp, x):
    out = []
    for i in range(2):
        o, _ = pm.forward("cls", {k: v.astype("float64") for k, v in c20.weights("cls", i, sharp).items()}, c20.stats(i), x.astype("float64"))
        out.append(o * np.exp(-c20.TEMP[i]) if calib else o)
    return np.array(out)


def logp(o):
    m = o.max(-1, keepdims=True)
    return o - m - np.log(np.exp(o - m).sum(-1, keepdims=True))


def credible(p, error):
    """smallest and largest acceptable sets, as nested lists of classes in descending probability."""
    order = np.argsort(-p)
    cum = np.cumsum(p[order])
    first = lambda t: int(np.argmax(cum > t)) + 1 if (cum > t).any() else len(p)
    return order, first(1 - error - 1e-4), first(1 - error + 1e-4)


def conformal(lp_train, lp_test, error, n):
    """lp_train: (S, n); lp_test: (S, C): {label: True, False or None when either is acceptable}, by definition."""
    out = []
    for c in range(lp_test.shape[1]):
        w = lp_test[:, c]
        norm = np.logaddexp.reduce(w)
        train = np.logaddexp.reduce(w[:, None] - norm + lp_train, axis=0)
        test = np.logaddexp.reduce(2 * w) - norm
        lo = 1 + int((train <= test - 1e-3).sum())
        hi = 1 + int((train <= test + 1e-3).sum())
        bound = error * (n + 1)
        out.append(True if lo > bound + 1e-4 else (False if hi <= bound - 1e-4 or (hi == 0) else None))
        if error in (0.0, 1.0):
            out[-1] = error == 0.0  # every label has rank between 1 and n + 1
    return out


def units(tier):
    return [(what, calib, sharp, dist) for what in ("credible", "conformal") for calib in (True, False) for sharp in (False, True) for dist in (False, True)]


def run_unit(u, ctx):
    import jax

    what, calib, sharp, dist = u
    m, *_ = c20.posterior("cls", calib, sharp)
    (run_credible if what == "credible" else run_conformal)(ctx, m, calib, sharp, dist)
    jax.clear_caches()


def grid(ctx, dist):
    quick = ctx.tier == "quick"
    comps = [c for c in c20.BATCHES if not dist or all(b % 2 == 0 for b in c)]
    if quick:
        comps = comps[:3]
    return comps, (1, 2, 3) if not quick else (1, 3), range(2 if quick else 6)


def lists(sets):
    return [[int(c) for c in s] for s in sets]


def run_credible(ctx, m, calib, sharp, dist):
    import jax

    p = np.exp(logp(members(calib, sharp, pm.X)))
    comps, draws, keys = grid(ctx, dist)
    for n, (comp, S, k) in enumerate(itertools.product(comps, draws, keys)):
        if ctx.tier == "quick" and (n + n // 4) % 2:
            continue
        call = f"credible/{calib}/{sharp}/{dist}/{comp}/S={S}/key={k}"
        left = [(j, S - j) for j in range(S + 1)]
        for e in ERRORS:
            try:
                got = m.predictive.credible_set(c20.inputs(comp), n_posterior_samples=S, error=e, rng=jax.random.PRNGKey(k), distribute=dist)
                got = lists(got)
            except Exception as ex:  # noqa: BLE001
                ctx.fail(f"raise credible {e} {type(ex).__name__}", f"{call}/error={e}: {type(ex).__name__}: {str(ex)[:300]}")
                continue
            ctx.ev()

            def agrees(c):
                mix = (p[0] * c[0] + p[1] * c[1]) / S
                if len(got) != len(mix):
                    return False
                for g, q in zip(got, mix):
                    order, lo, hi = credible(q, e)
                    tie = np.min(np.abs(np.diff(np.sort(q)))) < 1e-5
                    if not lo <= len(g) <= hi or len(set(g)) != len(g) or not set(g) <= set(range(3)):
                        return False
                    if not tie and g != [int(a) for a in order[:len(g)]]:
                        return False
                return True

            ok = [c for c in left if agrees(c)]
            if not ctx.check(bool(ok), f"credible {e} {sharp}", f"{call}: sets of error {e} are {got}, not those of one mixture among {left} of members with probabilities\n{p.round(5).tolist()}"):
                break
            left = ok
            for i, g in enumerate(got):
                if len(g) == 2:
                    ctx.nt(("credible", calib, sharp, i, tuple(g), e))
        ctx.sample(f"{call} -> {left}")


def run_conformal(ctx, m, calib, sharp, dist):
    import jax

    from fortuna.data import DataLoader, InputsLoader

    lptr, lpte = logp(members(calib, sharp, pm.X)), logp(members(calib, sharp, XT))
    comps, draws, keys = grid(ctx, dist)
    quick = ctx.tier == "quick"
    cases = list(itertools.product(comps, comps, LABELS, (2,) if dist and quick else draws, keys))
    if quick:
        cases = [c for i, c in enumerate(cases) if i % (17 if not dist else 5) == 0]
    for tr, te, labels, S, k in cases:
        call = f"conformal/{calib}/{sharp}/{dist}/train {tr} {labels}/test {te}/S={S}/key={k}"
        y = np.array(labels)
        left = [(j, S - j) for j in range(S + 1)]
        train = DataLoader.from_iterable([(pm.X[s], y[s]) for s in c20.cuts(tr)])
        test = InputsLoader.from_iterable([XT[s] for s in c20.cuts(te)])
        errs = (0.0, 0.3, 0.5, 0.7, 1.0) if quick else (0.0, 0.1, 0.3, 0.5, 0.7, 0.9, 1.0)
        for e in errs:
            try:
                got, ess = m.predictive.conformal_set(train, test, n_posterior_samples=S, error=e, rng=jax.random.PRNGKey(k), distribute=dist, return_ess=True)
                got, ess = lists(got), np.asarray(ess)
            except Exception as ex:  # noqa: BLE001
                ctx.fail(f"raise conformal {e} {type(ex).__name__}", f"{call}/error={e}: {type(ex).__name__}: {str(ex)[:300]}")
                continue
            if e == 0.5:
                alone = m.predictive.conformal_set(train, test, n_posterior_samples=S, error=e, rng=jax.random.PRNGKey(k), distribute=dist)
                ctx.check(lists(alone) == got, "conformal alone", f"{call}: with return_ess {got}, without {lists(alone)}")
            ctx.ev()

            def agrees(c):
                idx = [0] * c[0] + [1] * c[1]
                a = lptr[idx][:, np.arange(4), y]
                if len(got) != 4:
                    return False
                for i, g in enumerate(got):
                    want = conformal(a, lpte[idx][:, i], e, 4)
                    if len(set(g)) != len(g) or not set(g) <= {0, 1, 2}:
                        return False
                    if any(w is not None and (l in g) != w for l, w in enumerate(want)):
                        return False
                w = lpte[idx]
                w = np.exp(w - np.logaddexp.reduce(w, 0))
                want = 1 / (w**2).sum(0)
                return ess.shape[:2] == want.shape and ess.size == want.size and np.allclose(ess.reshape(want.shape), want, rtol=1e-2, atol=1e-3)

            ok = [c for c in left if agrees(c)]
            if not ctx.check(bool(ok), f"conformal {e} {sharp}", f"{call}: sets of error {e} are {got} with effective sizes {ess.tolist()}, not those of one mixture among {left} of members with log-probabilities\n"
                             f"train {lptr[:, np.arange(4), y].round(4).tolist()}\ntest {lpte.round(4).tolist()}"):
                break
            left = ok
            for i, g in enumerate(got):
                if len(g) in (1, 2):
                    ctx.nt(("conformal", calib, sharp, i, tuple(g), e))
        ctx.sample(f"{call} -> {left}")
