"""C26 out-of-distribution scores equal their definitions on every small embedded data set."""
import itertools

import numpy as np

ID = "C26"
LEVEL = "exploration"
RULE = (
    "all labelled data sets of up to four (five, thorough) scalar embeddings over an alphabet, and of six planar embeddings as pairs of multisets per class in three orders, "
    "including classes without points, with one point and with degenerate spread; two and three classes; every test point of a grid, alone and in batches; refits; "
    "oracle: numpy transcription (class means, shared or class covariance, squared Mahalanobis distance, mixture density); non-trivial = at least two classes with two or more points"
)
ASSUMPTIONS = [
    "float32 arithmetic: relative tolerance 1e-3", "with a degenerate class covariance the density depends on the jitter, and only finiteness and ordering are required",
    "classes are equally likely in the mixture, as in the cited implementation; classes whose Gaussian cannot be estimated do not contribute",
]
N = 8
P2 = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (2.0, 1.0)]
T1 = np.array([[-4.0], [0.0], [0.5], [1.0], [2.5], [9.0]], "float32")
T2 = np.array([[0.0, 0.0], [0.6, 0.3], [2.0, 1.0], [-3.0, 5.0], [30.0, -20.0]], "float32")


def cases(tier):
    out = []
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for c in (2, 3):
            labels = itertools.product(range(c), repeat=n)
            for y in labels:
                if c == 3 and (max(y) < 2 and y[0]):
                    continue
                for x in itertools.product((0.0, 1.0, 3.0), repeat=n):
                    if tier == "quick" and n == 4 and (sum(x) + sum(i * a for i, a in enumerate(y))) % (2 if c == 2 else 5):
                        continue
                    out.append((c, tuple((a,) for a in x), y))
    ms = list(itertools.combinations_with_replacement(P2, 3))
    for i, (a, b) in enumerate(itertools.product(ms, ms)):
        for o, y in enumerate(((0, 0, 0, 1, 1, 1), (1, 0, 1, 0, 1, 0), (1, 1, 0, 0, 0, 1))):
            if tier == "quick" and (i + o) % 3:
                continue
            ia, ib = iter(a), iter(b)
            out.append((2 + (i % 5 == 0), tuple(next(ia) if l == 0 else next(ib) for l in y), y))
    return out


def units(tier):
    return [(m, k) for m in ("mahalanobis", "ddu") for k in range(N)]


def run_unit(u, ctx):
    import logging

    logging.disable(logging.CRITICAL)
    from fortuna.ood_detection import DeepDeterministicUncertaintyOODClassifier as D, MalahanobisOODClassifier as M
    from fortuna.ood_detection.base import NotFittedError

    m, k = u
    cls = D if m == "ddu" else M
    try:
        cls(2).score(T1)
        ctx.fail("score before fit", f"{m} scores without being fitted")
    except NotFittedError:
        pass
    last = {}
    for i, (c, x, y) in enumerate(cases(ctx.tier)):
        if i % N != k:
            continue
        X, Y = np.array(x, "float32"), np.array(y)
        d = X.shape[1]
        T = T1 if d == 1 else T2
        # the classifier is used again for the next data set: a fit forgets the previous one
        o = last.setdefault((c, d), cls(c)) if i % 3 else cls(c)
        o.fit(X, Y)
        sc = np.asarray(o.score(T), "float64")
        ctx.ev()
        (ddu if m == "ddu" else maha)(ctx, o, sc, c, X.astype("float64"), Y, T.astype("float64"), (c, x, y))
        if i % 7 == 0:
            for a in (slice(0, 1), slice(2, 5)):
                s2 = np.asarray(o.score(T[a]), "float64")
                ctx.check(same(s2, sc[a]), f"{m} batch", lambda: [(c, x, y), s2.tolist(), sc[a].tolist()])


def same(a, b, tol=1e-3):
    a, b = np.asarray(a), np.asarray(b)
    with np.errstate(invalid="ignore"):
        return a.shape == b.shape and bool(np.all((a == b) | (np.abs(a - b) <= tol * (1 + np.abs(b)))))


def maha(ctx, o, sc, c, X, Y, T, case):
    d = X.shape[1]
    have = [j for j in range(c) if (Y == j).any()]
    mu = {j: X[Y == j].mean(0) for j in have}
    cov = sum((X[Y == j] - mu[j]).T @ (X[Y == j] - mu[j]) for j in have) / len(Y)
    inv = np.linalg.pinv(cov, rcond=10 * d * np.finfo("float32").eps)
    want = np.min([np.einsum("ni,ij,nj->n", T - mu[j], inv, T - mu[j]) for j in have], 0)
    if sum((Y == j).sum() > 1 for j in have) > 1:
        ctx.nt(case)
    ctx.check(same(np.asarray(o.cov), cov), "mahalanobis covariance", lambda: [case, np.asarray(o.cov).tolist(), cov.tolist()])
    ctx.check(all(same(np.asarray(o.mean)[j], mu[j]) for j in have), "mahalanobis means", lambda: [case, np.asarray(o.mean).tolist()])
    ctx.check(same(sc, want), "mahalanobis score", lambda: [case, sc.tolist(), want.tolist()])


def ddu(ctx, o, sc, c, X, Y, T, case):
    d = X.shape[1]
    good = [j for j in range(c) if (Y == j).sum() > 1]
    if len(good) > 1:
        ctx.nt(case)
    mu = {j: X[Y == j].mean(0) for j in good}
    cov = {j: (X[Y == j] - mu[j]).T @ (X[Y == j] - mu[j]) / ((Y == j).sum() - 1) for j in good}
    for j in good:
        ctx.check(same(np.asarray(o.mean)[j], mu[j]) and same(np.asarray(o.cov)[j], cov[j]), "ddu moments", lambda: [case, j, np.asarray(o.mean).tolist(), np.asarray(o.cov).tolist()])
    if not good:
        ctx.check(not np.isnan(sc).any(), "ddu without any class", lambda: [case, sc.tolist()])
        return
    if all(np.linalg.matrix_rank(cov[j]) == d for j in good):
        ll = []
        for j in good:
            z = T - mu[j]
            ll.append(-0.5 * np.einsum("ni,ij,nj->n", z, np.linalg.inv(cov[j]), z) - 0.5 * np.log(np.linalg.det(cov[j])) - 0.5 * d * np.log(2 * np.pi))
        want = -np.logaddexp.reduce(ll, 0)
        ctx.check(same(sc, want), "ddu score", lambda: [case, sc.tolist(), want.tolist()])
    else:
        ctx.check(not np.isnan(sc).any(), "ddu score of degenerate classes", lambda: [case, sc.tolist()])
        near = np.asarray(o.score(np.array([mu[good[0]]], "float32")), "float64")[0]
        ctx.check(near < sc[-1], "ddu ordering", lambda: [case, near, sc.tolist()])
