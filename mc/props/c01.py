"""C01 conformal classification sets: exact rank rule, alignment, exchangeable coverage."""
import itertools
import math
from fractions import Fraction as F

import numpy as np

from mc.core import simplex

ID = "C01"
LEVEL = "exploration"
RULE = (
    "every multiset of validation points (probability vector from a dyadic simplex grid x target) up to the "
    "size bound, against all grid points as test points, for every error on the grid and all classifiers; "
    "non-trivial = a distinct (classifier, validation set, error) whose test points do not all get the same set"
)
ASSUMPTIONS = ["scores are dyadic rationals, so float32 sums are exact and thresholds have no rounding slack"]
ERRORS = [0.0, 0.05, 0.1, 0.25, 0.5, 0.75, 1.0]


def grid(k, den):
    return [tuple(F(i, den) for i in p) for p in simplex(k, den)]


def allowed_scores(kind, p, c):
    """Scores the definition allows for class c: a set (ties in p may be broken either way)."""
    if kind == "simple":
        return {1 - p[c]}
    bigger = sum(q for q in p if q > p[c])
    ties = sum(1 for q in p if q == p[c])
    return {bigger + p[c] * j for j in range(1, ties + 1)}


def rule(val, s, e, n):
    """True/False if the label is decidedly in/out; None on a rounding boundary."""
    cnt = sum(1 for v in val if v < s)
    thr = (1 - F(str(e))) * (n + 1)
    if cnt == thr and F(str(e)).denominator & (F(str(e)).denominator - 1):
        return None
    return cnt < thr


def units(tier):
    u = []
    u += [("scores", k, den) for k, den in ((2, 8), (3, 8), (4, 4), (3, 4))]
    for kind in ("simple", "adaptive"):
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
            u.append(("split", kind, 2, 8 if n < 3 else 4, n))
        u.append(("split", kind, 3, 4, 1))
        u += [("split", kind, 3, 4, 2, j) for j in range(4)]
        if tier == "thorough":
            u.append(("split", kind, 3, 8, 1))
            for j in range(8):
                u.append(("split3", kind, 3, 4, 3, j))
        u.append(("cv", kind, 2, 4))
        u.append(("cv", kind, 3, 4))
        u.append(("rot", kind, 3))
        u.append(("long", kind))
    return u


def _cls(kind, cv=False):
    import fortuna.conformal as fc

    return {
        ("simple", False): fc.SimplePredictionConformalClassifier,
        ("adaptive", False): fc.AdaptivePredictionConformalClassifier,
        ("simple", True): fc.CVPlusSimplePredictionConformalClassifier,
        ("adaptive", True): fc.CVPlusAdaptivePredictionConformalClassifier,
    }[(kind, cv)]()


def arr(ps):
    return np.array([[float(x) for x in p] for p in ps], dtype="float32")


def scores_of(obj, ps):
    """score matrix (len(ps), K) through the public score function."""
    import jax.numpy as jnp

    k = len(ps[0])
    P = jnp.array(arr(ps))
    return np.stack(
        [np.asarray(obj.score_fn(P, jnp.full(len(ps), c, dtype="int32"))) for c in range(k)], 1
    )


def compare(ctx, kind, tag, sets, val, test_scores, test, e, n, key):
    ok = ctx.check(len(sets) == len(test), f"{kind}:{tag}:number-of-sets", (key, e, len(sets)))
    if not ok:
        return
    for t, (p, got) in enumerate(zip(test, sets)):
        got = [int(g) for g in got]
        ctx.evals += 1
        if len(set(got)) != len(got):
            ctx.fail(f"{kind}:{tag}:duplicate-label", (key, e, p, got))
        for c in range(len(p)):
            want = rule(val, test_scores[t][c], e, n)
            if want is not None and want != (c in got):
                ctx.fail(
                    f"{kind}:{tag}:membership",
                    dict(val=key, error=e, probs=[str(x) for x in p], label=c, got=got, expected=want),
                )
        if any(g not in range(len(p)) for g in got):
            ctx.fail(f"{kind}:{tag}:unknown-label", (key, e, p, got))
    if len({tuple(sorted(s)) for s in sets}) > 1:
        ctx.nt((kind, tag, key, e))


def run_unit(u, ctx):
    import jax.numpy as jnp

    what, kind = u[0], u[1]
    if what == "scores":
        _, k, den = u
        ps = grid(k, den)
        for kd in ("simple", "adaptive"):
            for cv in (False, True):
                sc = scores_of(_cls(kd, cv), ps)
                for p, row in zip(ps, sc):
                    for c in range(k):
                        ctx.check(
                            F(float(row[c])) in allowed_scores(kd, p, c),
                            f"{kd}:score",
                            lambda: dict(p=[str(x) for x in p], c=c, got=float(row[c]), cv=cv),
                        )
                        ctx.nt((kd, p, c))
        return
    if what in ("split", "split3"):
        _, _, k, den, n = u[:5]
        obj = _cls(kind)
        ps = grid(k, den)
        sc = [[F(float(x)) for x in r] for r in scores_of(obj, ps)]
        items = [(i, c) for i in range(len(ps)) for c in range(k)]
        P = arr(ps)
        combos = itertools.combinations_with_replacement(range(len(items)), n)
        if len(u) > 5 and what == "split":
            combos = [c for i, c in enumerate(combos) if i % 4 == u[5]]
        if what == "split3":
            # thin the multiset to items with distinct scores (membership depends on scores only)
            seen, keep = set(), []
            for j, (i, c) in enumerate(items):
                if sc[i][c] not in seen:
                    seen.add(sc[i][c])
                    keep.append(j)
            combos = itertools.combinations_with_replacement(keep, n)
        for ci, combo in enumerate(combos):
            if what == "split3" and ci % 8 != u[5]:
                continue
            # alternate orders so that position in the validation array cannot matter
            ch = combo if ci % 2 == 0 else combo[::-1]
            vp = P[[items[j][0] for j in ch]]
            vt = np.array([items[j][1] for j in ch])
            val = [sc[items[j][0]][items[j][1]] for j in ch]
            es = ERRORS if (n <= 1 or what == "split3") else [ERRORS[ci % len(ERRORS)], (0.25, 0.5)[ci % 2]]
            for e in es:
                sets = obj.conformal_set(jnp.array(vp), jnp.array(vt), jnp.array(P), e)
                compare(ctx, kind, "split", sets, val, sc, ps, e, n, str([items[j] for j in ch]))
        ctx.sample(dict(unit=str(u), last=str(sets)))
        return
    if what == "cv":
        # folds of unequal sizes; each (fold, test point) gets a set from the pooled scores
        _, _, k, den = u
        obj = _cls(kind, True)
        ps = grid(k, den)
        P = arr(ps)
        sc = [[F(float(x)) for x in r] for r in scores_of(obj, ps)]
        items = [(i, c) for i in range(len(ps)) for c in range(k)]
        step = max(1, len(items) // 9)
        pick = items[::step]
        for sizes in ((1, 1), (2, 1), (1, 2), (1, 1, 1)):
            for ci, combo in enumerate(itertools.combinations_with_replacement(pick, sum(sizes))):
                if len(combo) == 3 and ci % 3 != sizes[0] % 3:
                    continue
                e = ERRORS[ci % len(ERRORS)]
                folds, o = [], 0
                for s in sizes:
                    folds.append(combo[o : o + s])
                    o += s
                cvp = [jnp.array(P[[i for i, _ in f]]) for f in folds]
                cvt = [jnp.array([c for _, c in f]) for f in folds]
                # each fold's model sees the test points in a different (rotated) order
                tests = [ps[f:] + ps[:f] for f in range(len(sizes))]
                ctp = [jnp.array(arr(t)) for t in tests]
                tsc = [sc[f:] + sc[:f] for f in range(len(sizes))]
                sets = obj.conformal_set(cvp, cvt, ctp, e)
                compare(
                    ctx, kind, "cv+", sets, [sc[i][c] for i, c in combo], sum(tsc, []), sum(tests, []), e,
                    sum(sizes), str((sizes, combo)),
                )
        return
    if what == "rot":
        # exchangeability: hold each point out in turn; coverage over the rotations is guaranteed
        _, _, k = u
        obj = _cls(kind)
        ps = grid(k, 4)
        P = arr(ps)
        items = [(i, c) for i in range(len(ps)) for c in range(k)]
        pool = [items[j] for j in range(0, len(items), 7)]
        for m in (2, 4):
            for pts in itertools.combinations(pool, m):
                for e in (0.25, 0.5):
                    hit = 0
                    for h in range(m):
                        rest = [pts[j] for j in range(m) if j != h]
                        s = obj.conformal_set(
                            jnp.array(P[[i for i, _ in rest]]), jnp.array([c for _, c in rest]),
                            jnp.array(P[[pts[h][0]]]), e,
                        )[0]
                        hit += pts[h][1] in s
                    ctx.check(hit >= m * (1 - e), f"{kind}:coverage", dict(points=str(pts), error=e, hit=hit))
                    ctx.nt((kind, "rot", pts, e))
                if m == 4 and pool.index(pts[0]) > 0:
                    break
        return
    if what == "long":
        # larger validation sets: every rank position of a test score among n validation scores
        obj = _cls(kind)
        for n in (5, 9, 10, 19, 20, 39):
            den = 64
            ps = [(F(den - i, den), F(i, den)) for i in range(den + 1)]
            P = arr(ps)
            sc = [[F(float(x)) for x in r] for r in scores_of(obj, ps)]
            idx = [1 + (i * 60) // n for i in range(n)]
            val = [sc[i][i % 2] for i in idx]
            for e in (0.05, 0.1, 0.2, 0.25, 0.5, 0.9):
                sets = obj.conformal_set(jnp.array(P[idx]), jnp.array([i % 2 for i in idx]), jnp.array(P), e)
                compare(ctx, kind, "split", sets, val, sc, ps, e, n, f"long{n}")
