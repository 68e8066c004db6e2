"""C05 iterative multivalid calibration: every round patches a worst cell, what is reported is what is applied."""
import itertools

import numpy as np

ID = "C05"
LEVEL = "model_checking"
RULE = (
    "state = vector of calibrated values; from every initial state (scores x values x groups x options over small "
    "alphabets) the real method is run for 1..R rounds and every round must be a transition of the non-deterministic "
    "model: one of the worst eligible cells is patched as documented, or the method stopped for a reason the model "
    "allows; non-trivial = distinct initial state in which at least one patch was made"
)
ASSUMPTIONS = [
    "the split into calibration and validation data is any split of the right sizes consistent with the reported losses",
    "rounds in which a value lies within 1e-5 of a bucket border are not judged (float32 comparison could go either way)",
]
G1 = [[1, 0], [1, 1], [0, 1], [1, 0]]
G2 = [[1, 0], [0, 1], [0, 1], [0, 0]]
G3 = [[1], [1], [1], [1]]
OPTS = [
    dict(eta=1.0, bucket_types=("<=", ">="), min_prob_b=0.0, patch_type="additive"),
    dict(eta=0.5, bucket_types=("=",), min_prob_b="auto", patch_type="additive"),
    dict(eta=1.0, bucket_types=("=", ">=", "<="), min_prob_b=0.4, patch_type="additive"),
    dict(eta=1.0, bucket_types=("=",), min_prob_b=0.0, patch_type="multiplicative"),
    dict(eta=0.5, bucket_types=(">=", "<="), min_prob_b=0.3, patch_type="multiplicative"),
]
NB = 4


def units(tier):
    u = []
    for o in range(len(OPTS)):
        for meth in ("multi", "binary", "top", "mvp"):
            if meth == "mvp" and OPTS[o]["patch_type"] != "additive":
                continue
            for split in (1.0, 0.5):
                k = (3 if tier == "quick" else 2) if split == 1.0 else (2 if tier == "quick" else 1)
                for gi in range(3):
                    u.append((meth, o, split, gi, tier))
    u.append(("reject",))
    return u


VALUES = [[0.1, 0.1, 0.6, 0.9], [0.0, 0.35, 0.35, 1.0]]
MVALUES = [[0.0, 0.0, 0.0, 0.0], [1 / 3, 0.0, 2 / 3, 2 / 3], [1.0, 1 / 3, 1 / 3, 0.0]]
TOPV = [
    [[0.6, 0.2, 0.2], [0.35, 0.4, 0.25], [0.05, 0.9, 0.05], [0.1, 0.15, 0.75]],
    [[1.0, 0.0, 0.0], [0.6, 0.4, 0.0], [0.6, 0.1, 0.3], [0.0, 0.0, 1.0]],
]


def datasets(meth, tier):
    if meth == "multi":
        sc = itertools.product([0.0, 0.45, 1.0], repeat=4)
        return [(s, v) for i, s in enumerate(sc) for v in (VALUES if tier == "thorough" else [VALUES[i % 2]])]
    if meth == "binary":
        return [(s, v) for s in itertools.product([0, 1], repeat=4) if 0 < sum(s) < 4 for v in VALUES]
    if meth == "top":
        sc = itertools.product([0, 1, 2], repeat=4)
        return [(s, v) for i, s in enumerate(sc) for v in (TOPV if tier == "thorough" else [TOPV[i % 2]])]
    sc = itertools.product([0.15, 0.45, 0.85], repeat=4)
    return [(s, v) for i, s in enumerate(sc) for v in (MVALUES if tier == "thorough" else [MVALUES[i % 3]])]


COVERAGE = 0.7


class Model:
    """Documented behaviour, naive."""

    def __init__(self, meth, opt, targets, groups):
        self.meth, self.opt = meth, opt
        self.g = np.array(groups, bool)
        t = np.array(targets)
        self.s = np.stack([t == c for c in range(3)], 1).astype(float) if meth == "top" else t.astype(float)[:, None]
        self.nd = self.s.shape[1]
        self.vs = np.linspace(0, 1, NB)
        m = opt["min_prob_b"]
        self.minp = 1 / (NB * self.nd) if m == "auto" else m

    def loss(self, v, rows):
        s, v = self.s[rows], np.asarray(v, float).reshape(len(v), -1)[rows]
        if self.meth == "mvp":
            d = (s - v)[:, 0]
            return float(np.mean(np.where(d > 0, d * COVERAGE, -d * (1 - COVERAGE))))
        return float(np.mean((s - v) ** 2))

    def cells(self, v, rows):
        """[(tau, g, vt, c, mask over all points)], or None when a border is too close to call."""
        v = np.asarray(v, float).reshape(len(v), -1)
        top = v.argmax(1)
        out = []
        if self.meth == "top":
            w = np.sort(v, 1)
            if (w[:, -1] - w[:, -2] < 1e-5).any():
                return None
        for tau in self.opt["bucket_types"]:
            for g in range(self.g.shape[1]):
                for vt in self.vs:
                    for c in range(self.nd):
                        d = v[:, c] - vt
                        h = 0.5 / NB
                        if (abs(abs(d) - h) < 1e-5).any():
                            return None
                        m = {"=": abs(d) < h, ">=": d + h >= 0, "<=": d - h <= 0}[tau]
                        m = m & self.g[:, g]
                        if self.meth == "top":
                            m = m & (top == c)
                        out.append((tau, g, vt, c, m))
        return out

    def error(self, v, cell, rows):
        v = np.asarray(v, float).reshape(len(v), -1)
        _, _, _, c, m = cell
        m = m[rows]
        p = m.mean()
        if p == 0:
            return 0.0, 0.0
        if self.meth == "mvp":
            cov = (self.s[rows][m, 0] <= v[rows][m, 0]).mean()
            return p, p * (COVERAGE - cov) ** 2
        return p, p * (self.s[rows][m, c].mean() - v[rows][m, c].mean()) ** 2

    def successors(self, v, rows):
        """Possible next value vectors (all points), None = undecidable, [] = no eligible cell."""
        cells = self.cells(v, rows)
        if cells is None:
            return None
        el = []
        for cell in cells:
            p, e = self.error(v, cell, rows)
            if abs(p - self.minp) < 1e-6 and self.minp > 0 or p >= self.minp:
                el.append((e, cell))
        if not el:
            return []
        # cells below the minimal probability count as error zero
        best = max(e for e, _ in el)
        cand = [cell for e, cell in el if e >= best - 1e-6]
        if best <= 1e-6:
            cand = [cell for e, cell in el if e >= best - 1e-6] + [c for c in cells]
        res = []
        eta = self.opt["eta"]
        shape = np.asarray(v).shape
        for tau, g, vt, c, m in cand:
            mr = m[rows]
            if self.meth == "mvp":
                vv = np.asarray(v, float)
                deltas = np.concatenate([-self.vs[::-1][:-1], self.vs])
                sc, vr = self.s[rows][:, 0], vv[rows]
                if mr.any():
                    errs = [(COVERAGE - (sc[mr] <= vr[mr] + d).mean()) ** 2 for d in deltas]
                else:
                    errs = [COVERAGE**2] * len(deltas)
                for d, e in zip(deltas, errs):
                    if e <= min(errs) + 1e-6:
                        res.append(np.where(m, np.clip(vv + eta * d, 0, 1), vv))
                continue
            vv = np.asarray(v, float).reshape(len(v), -1)
            new = vv.copy()
            if mr.any():
                ey, ef = self.s[rows][mr, c].mean(), vv[rows][mr, c].mean()
                if self.opt["patch_type"] == "additive":
                    f = lambda x: x + eta * (ey - ef)
                else:
                    r = ey / ef if ef > 1e-9 else 1.0
                    f = lambda x: x * (1 - eta * (1 - r))
                new[m, c] = np.clip(f(vv[m, c]), 0, 1)
            res.append(new.reshape(shape))
        return res


def make(meth):
    import fortuna.conformal as fc

    return {
        "multi": fc.Multicalibrator, "binary": fc.BinaryClassificationMulticalibrator,
        "top": lambda: fc.TopLabelMulticalibrator(n_classes=3), "mvp": fc.BatchMVPConformalClassifier,
    }[meth]()


def near(a, b, tol=3e-5):
    return np.shape(a) == np.shape(b) and np.allclose(np.asarray(a, float), np.asarray(b, float), atol=tol)


def run_unit(u, ctx):
    import jax.numpy as jnp

    if u[0] == "reject":
        return reject(ctx)
    meth, oi, split, gi, tier = u
    opt = OPTS[oi]
    groups = [G1, G2, G3][gi]
    val = {"multi": "values", "binary": "probs", "top": "probs", "mvp": "thresholds"}[meth]
    tgt = "targets" if meth in ("binary", "top") else "scores"
    R = 3 if tier == "quick" else 5
    data = datasets(meth, tier)
    if tier == "quick":
        if split == 1.0:
            data = data[(oi + gi) % 3 :: 3] if meth != "binary" else data
        else:
            data = data[(oi + gi) % 4 :: 4] if meth != "binary" else data[(oi + gi) % 2 :: 2]
    G = jnp.array(groups, dtype=bool)
    for targets, values in data:
        mo = Model(meth, opt, targets, groups)
        T = jnp.array(targets)
        V = jnp.array(values)
        obj = make(meth)
        kw = dict(n_buckets=NB, split=split, atol=1e-3, rtol=0.01, **opt)
        if meth == "mvp":
            kw["coverage"] = COVERAGE
        states = [np.array(V)]
        stat = []
        inp = lambda: dict(method=meth, targets=targets, values=values, groups=groups, options=kw)
        for r in range(1, R + 1):
            out, st = obj.calibrate(**{tgt: T, val: V, "test_" + val: V}, groups=G, test_groups=G, n_rounds=r, **kw)
            out = np.array(out)
            ctx.trans()
            ctx.trace()
            stat.append(st)
            ctx.check(st["n_rounds"] == len(obj.patches) <= r, f"{meth}:n-rounds", lambda: dict(inp(), r=r, status=st))
            ctx.check(np.isfinite(out).all() and (out >= 0).all() and (out <= 1).all(), f"{meth}:range", lambda: dict(inp(), r=r, out=out.tolist()))
            if len(stat) > 1:
                k = len(stat[-2]["losses"])
                ctx.check(near(st["losses"][:k], stat[-2]["losses"]) or split == 1.0, f"{meth}:losses-prefix", lambda: dict(inp(), losses=[s["losses"] for s in stat]))
            stopped = st["n_rounds"] < r
            if stopped:
                ctx.check(near(out, states[-1]), f"{meth}:changed-after-stop", lambda: dict(inp(), r=r, out=out.tolist(), prev=states[-1].tolist()))
                break
            if not st["n_rounds"] == r:
                break
            states.append(out)
            if st["converged"]:
                break
        if len(states) > 1:
            ctx.nt((meth, oi, split, gi, targets, str(values)))
        ctx.state(len(states))
        last = stat[-1]
        npatch = len(states) - 1
        # points outside all groups are untouched; each point alone gives what it gives in the batch
        none = ~mo.g.any(1)
        ctx.check(near(states[-1][none], states[0][none]), f"{meth}:outside-groups-changed", inp)
        full = np.array(obj.apply_patches(G, V))
        ctx.check(st["n_rounds"] < len(states) - 1 or near(full, states[-1]), f"{meth}:apply-twice", lambda: dict(inp(), out=states[-1].tolist(), again=full.tolist()))
        for i in range(4) if tier == "thorough" else (ctx.states % 4,):
            one = obj.apply_patches(G[i : i + 1], V[i : i + 1])
            ctx.check(near(one[0], full[i]), f"{meth}:not-pointwise", lambda: dict(inp(), point=i))
        # existence of a split for which every round is a transition of the model
        n = 4
        ncal = int(np.ceil(split * n))
        good, why = False, []
        for cal in itertools.combinations(range(n), ncal):
            cal = list(cal)
            vl = [i for i in range(n) if i not in cal]
            w = explain(mo, states, last, cal, vl, stat, R, kw)
            if w is None:
                good = True
                break
            why.append((cal, w))
        ctx.check(good, f"{meth}:not-a-model-run", lambda: dict(inp(), states=[s.tolist() for s in states], status=[dict(s) for s in stat], why=why[:6]))
        # reported calibration error per group
        cells = Model(meth, {**opt, "bucket_types": ("=",)}, targets, groups).cells(states[0], range(n))
        if cells is not None:
            got = obj.calibration_error(**{tgt: T, val: V}, groups=G, n_buckets=NB)
            want = np.zeros((mo.g.shape[1], mo.nd))
            for cell in cells:
                want[cell[1], cell[3]] += mo.error(states[0], cell, list(range(n)))[1]
            want /= mo.g.mean(0)[:, None]
            if mo.nd == 1:
                want = want[:, 0]
            ctx.check(near(got, want), f"{meth}:calibration-error", lambda: dict(inp(), got=np.array(got).tolist(), want=want.tolist()))
        loss = (lambda: obj.pinball_loss(V, T, coverage=COVERAGE)) if meth == "mvp" else (
            lambda: obj.mean_squared_error(V, T))
        ctx.check(near(loss(), mo.loss(states[0], list(range(n)))), f"{meth}:loss-metric", lambda: dict(inp(), got=float(loss())))
    ctx.sample(dict(unit=u, cases=len(data)))


def explain(mo, states, last, cal, vl, stat, R, kw):
    """None when the observed run is a run of the model for this split, else the reason why not."""
    n_p = len(states) - 1
    L = last["losses"]
    if vl:
        for t in range(n_p + 1):
            if abs(L[t] - mo.loss(states[t], vl)) > 2e-5:
                return f"validation loss {t}: {L[t]} vs {mo.loss(states[t], vl)}"
        for t in range(n_p):
            if L[t + 1] > L[t] + 1e-6 and L[t + 1] > kw["atol"]:
                return f"round {t} kept although the validation loss increased"
    for t in range(n_p):
        succ = mo.successors(states[t], cal)
        if succ is None:
            continue
        if not any(near(s, states[t + 1]) for s in succ):
            return f"round {t}: not a patch of a worst cell, expected one of {[s.tolist() for s in succ][:4]}"
        if mo.loss(states[t + 1], cal) > mo.loss(states[t], cal) + 1e-6:
            return f"round {t} kept although the calibration loss increased"
    if last["converged"]:
        a, b = L[-2], L[-1]
        if len(L) != n_p + 1:
            return "converged, but the last reported loss is not the loss of the returned patches"
        if not (b <= kw["atol"] + 1e-7 or (a - b) / a <= kw["rtol"] + 1e-6):
            return "converged flag without reaching a tolerance"
        return None
    if n_p < R:  # stopped early without convergence: needs a reason
        succ = mo.successors(states[-1], cal)
        if succ is None or succ == []:
            return None
        if any(mo.loss(s, cal) > mo.loss(states[-1], cal) - 1e-6 for s in succ):
            return None
        if vl and any(mo.loss(s, vl) > L[n_p] - 1e-6 for s in succ):
            return None
        return "stopped without a reason"
    elif vl and n_p >= 1 and (L[-1] <= kw["atol"] - 1e-7):
        return "tolerance reached but not reported as converged"
    return None


def reject(ctx):
    import jax.numpy as jnp

    s = jnp.array([0.0, 0.2, 0.9, 1.0])
    v = jnp.array([0.1, 0.1, 0.8, 0.8])
    G = jnp.array(G1, dtype=bool)
    for meth in ("multi", "mvp"):
        val = "values" if meth == "multi" else "thresholds"
        base = dict(scores=s, groups=G, n_rounds=1, n_buckets=NB, **{val: v})
        make(meth).calibrate(**base)
        for bad in [
            dict(n_rounds=0), dict(eta=0.0), dict(eta=1.5), dict(split=0.0), dict(split=1.5), dict(min_prob_b=-0.1), dict(min_prob_b=1.1),
            dict(patch_type="x"), dict(bucket_types=("<",)), dict(scores=s * 2), dict(scores=s[:, None]), dict(groups=G.astype("int32")),
            dict(groups=G[:, 0]), {"test_groups": G}, {"test_" + val: v}, {val: v * 2}, {val: v - 1},
        ] + ([dict(coverage=1.5), dict(coverage=-0.5)] if meth == "mvp" else []):
            ctx.state()
            ctx.nt((meth, "reject", str(bad)))
            try:
                make(meth).calibrate(**{**base, **bad})
                ctx.fail(f"{meth}:bad-argument-accepted", {k: str(x) for k, x in bad.items()})
            except ValueError:
                ctx.ev()
    # nothing to patch: the initial values come back, with and without groups
    for meth in ("multi", "binary", "top", "mvp"):
        o = make(meth)
        V = jnp.array(TOPV[0]) if meth == "top" else v
        ctx.check(near(o.apply_patches(G, V), V), f"{meth}:no-patches")
        ctx.check(near(o.apply_patches(None, V), V), f"{meth}:no-patches")
        out = o.apply_patches(G)
        ctx.check(out is not None and np.shape(out) == np.shape(V), f"{meth}:no-patches-none", str(out))
    o = make("mvp")
    o.calibrate(scores=s, groups=G, n_rounds=2, n_buckets=NB, coverage=0.5)
    a = o.calibration_error(scores=s, groups=G)
    b = o.calibration_error(scores=s, groups=G, thresholds=jnp.zeros(4))
    ctx.check(near(a, b), "mvp:default-thresholds")
    # conformal sets of the classification variant: score <= threshold
    from fortuna.conformal import BatchMVPConformalClassifier

    vals = [0.2, 0.5, 0.9]
    for sc in itertools.product(vals, repeat=3):
        for th in [[0.1, 0.2], [0.5, 0.9], [0.3, 1.0], [0.9, 0.0]]:
            cs = jnp.array([sc, sc[::-1]])
            got = BatchMVPConformalClassifier.conformal_set(cs, jnp.array(th))
            want = [[j for j in range(3) if float(cs[i, j]) <= float(jnp.array(th)[i])] for i in range(2)]
            ctx.check([list(g) for g in got] == want, "mvp:conformal-set", lambda: dict(scores=sc, thresholds=th, got=got, want=want))
            ctx.state()
            ctx.nt(("set", sc, tuple(th)))
