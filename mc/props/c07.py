"""C07 maximum-coverage fixed-precision calibration of binary classifiers."""
import itertools

import numpy as np

ID = "C07"
LEVEL = "exploration"
RULE = (
    "every multiset of (probability, label) pairs over a small alphabet up to the size bound, for each pair of "
    "thresholds, margin and number of candidate scalings; non-trivial = distinct data set for which some scaling other "
    "than the identity is chosen"
)
ASSUMPTIONS = ["scalings that put a point within 1e-6 of a threshold may count either way (float32)"]
PR = [0.0, 0.1, 0.3, 0.45, 0.5, 0.55, 0.7, 0.85, 1.0]


def units(tier):
    ns = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)
    u = []
    for n in ns:
        k = {1: 1, 2: 1, 3: 6, 4: 24}[n]
        for th in ((0.75, 0.75), (0.6, 0.9), (0.9, 0.55)):
            for nt, margin in ((2, 0.0), (5, 0.0), (9, 0.1)):
                u += [("cal", n, th, nt, margin, j, k) for j in range(k)]
    u.append(("misc",))
    return u


def side(p, y, T, margin, taus, sign):
    """(set of admissible best taus indices, best coverage)"""
    cov = []
    for t in taus:
        q = np.where((p - 0.5) * sign > 0, p * t, p)
        if sign > 0:
            q = np.minimum(q, 1)
            d = q - T
        else:
            d = (1 - T) - q
        opts = []
        for eps in (0.0, 1e-6, -1e-6):
            b = d >= -eps if eps else d >= 0
            if not b.any():
                opts.append(0.0)
            else:
                prec = (y if sign > 0 else 1 - y)[b].mean()
                opts.append(b.mean() if prec >= T + margin - 1e-6 else 0.0)
                if abs(prec - T - margin) <= 1e-6:
                    opts.append(0.0)
        cov.append((min(opts), max(opts)))
    lo = max(c[0] for c in cov)
    return [i for i, c in enumerate(cov) if c[1] >= lo - 1e-9], lo


def run_unit(u, ctx):
    import jax.numpy as jnp

    from fortuna.conformal import MaxCoverageFixedPrecisionBinaryClassificationCalibrator as K

    if u[0] == "misc":
        p = jnp.array([0.2, 0.9])
        ctx.state()
        ctx.nt("misc")
        ctx.check(np.allclose(K().apply_patches(p), p), "uncalibrated-not-identity")
        for a, b in ((0.5, 0.9), (0.9, 0.5), (0.2, 0.9)):
            try:
                K().calibrate(jnp.array([0, 1]), p, a, b)
                ctx.fail("bad-threshold-accepted", (a, b))
            except ValueError:
                ctx.ev()
        return
    _, n, (tp, tn), nt, margin, j, k = u
    pts = [(p, y) for p in PR for y in (0, 1)]
    space = list(itertools.combinations_with_replacement(pts, n))[j::k]
    obj = K()
    for ds in space:
        p = np.array([d[0] for d in ds], "float32").astype(float)
        y = np.array([d[1] for d in ds])
        P, Y = jnp.array(p), jnp.array(y)
        tst = jnp.array(PR)
        out = np.array(obj.calibrate(Y, P, tp, tn, test_probs=tst, n_taus=nt, margin=margin), float)
        cal = np.array(obj.apply_patches(P), float)
        ctx.ev()
        ctx.state()
        inp = lambda: dict(data=ds, thresholds=(tp, tn), margin=margin, n_taus=nt, patches={a: float(b) for a, b in obj.patches.items()}, calibrated=cal.tolist())
        tpos = np.linspace(1, 2 * tp, nt)
        tneg = np.linspace(2 * (1 - tn), 1, nt)[::-1]
        best = {}
        for sign, taus, T in ((1, tpos, tp), (-1, tneg, tn)):
            idx, lo = side(p, y, T, margin, taus, sign)
            grid = np.float32(PR).astype(float)
            m = (grid - 0.5) * sign > 0
            wants = [np.minimum(grid[m] * taus[i], 1) for i in idx]
            nm = "pos" if sign > 0 else "neg"
            ctx.check(any(np.allclose(out[m], w, atol=1e-5) for w in wants), f"{nm}:not-max-coverage", lambda: dict(inp(), allowed=[taus[i] for i in idx]))
            if lo > 0:
                # the guarantee, measured with the library's own metric and independently
                b = cal >= T - 1e-6 if sign > 0 else cal <= 1 - T + 1e-6
                prec = (y if sign > 0 else 1 - y)[b].mean() if b.any() else 0
                amb = (abs(cal - (T if sign > 0 else 1 - T)) < 1e-5).any()
                if not amb:
                    ctx.check(prec >= T + margin - 1e-6, f"{nm}:precision", lambda: dict(inp(), precision=prec))
                    f = K.true_positive_precision if sign > 0 else K.true_negative_precision
                    g = K.true_positive_coverage if sign > 0 else K.true_negative_coverage
                    ctx.check(abs(float(f(jnp.array(cal), Y, T)) - prec) < 1e-6, f"{nm}:precision-metric", inp)
                    ctx.check(abs(float(g(jnp.array(cal), T)) - b.mean()) < 1e-6, f"{nm}:coverage-metric", inp)
                    ctx.check(b.mean() >= lo - 1e-6, f"{nm}:coverage", inp)
        ctx.check(abs(out[PR.index(0.5)] - 0.5) < 1e-7, "half-changed", inp)
        ctx.check((out >= 0).all() and (out <= 1).all(), "range", inp)
        if float(obj.patches["tau_pos"]) != 1 or float(obj.patches["tau_neg"]) != 1:
            ctx.nt((ds, tp, tn, nt, margin))
