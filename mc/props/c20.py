"""C20 predictive: every statistic is that of one mixture of posterior members, whatever the batching."""
import itertools

import numpy as np

from mc import pm

ID = "C20"
LEVEL = "exploration"
RULE = (
    "posteriors of two known, distinct members (parameters, running statistics, calibration); classification and regression x calibrated or without calibrator x every predictive "
    "statistic x every composition of four points in batches up to reversal of repeated shapes x one to three draws x several random keys x one device, or two devices with distribution; "
    "each result is decoded as a mixture of the members (all count vectors enumerated), which must be the same for all points; "
    "non-trivial = a mixture which contains both members"
)
ASSUMPTIONS = ["floating-point tolerance 2e-4", "different keys may draw the same members: over the keys of a unit at least two mixtures must be seen"]
ENV = {"XLA_FLAGS": "--xla_force_host_platform_device_count=2"}

N = 4
BATCHES = [(4,), (2, 2), (1, 3), (3, 1), (1, 1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2)]
METHODS = {
    "cls": ["mean", "mode", "aleatoric_variance", "epistemic_variance", "variance", "std", "aleatoric_entropy", "epistemic_entropy", "entropy",
            "ensemble_log_prob", "log_prob", "outputs", "calibrated", "sample", "sample_aux", "joint", "loader"],
    "reg": ["mean", "mode", "aleatoric_variance", "epistemic_variance", "variance", "std", "aleatoric_entropy", "epistemic_entropy", "entropy",
            "ensemble_log_prob", "log_prob", "outputs", "calibrated", "sample", "sample_aux", "quantile", "interval", "joint", "loader"],
}
TEMP = (0.25, -0.5)


def weights(kind, m, sharp=False):
    """Parameters of member m; sharp: predictions are almost deterministic and differ among members."""
    w = {}
    off = {"b": 0, "a": 6, "u": 2, "v": 9}
    for p in shapes(kind):
        top, _, n, l = p
        v = (((np.arange(int(np.prod(shapes(kind)[p]))) * (7 + 3 * m) + 5 * m + off.get(n, 4) + 2 * (l == "bias")) % 11) - 5.0) / 6
        w[p] = v.reshape(shapes(kind)[p]).astype("float32")
        if l == "scale":
            w[p] = np.abs(w[p]) + 0.5
    if sharp:
        if kind == "cls":
            for l in ("kernel", "bias"):
                w[("model", "params", "a", l)] *= 80 * (-1) ** m
        else:
            w[("lik_log_var", "params", "v", "bias")] -= 30
    return {k: np.asarray(v, "float32") for k, v in w.items()}


def shapes(kind):
    s = {}
    c = 3 if kind == "cls" else 1
    for n, sh in (("b", (2, 2)), ("a", (2, c))):
        s[("model", "params", n, "kernel")], s[("model", "params", n, "bias")] = sh, sh[1:]
    s[("model", "params", "nb", "scale")] = s[("model", "params", "nb", "bias")] = (2,)
    if kind == "reg":
        s[("lik_log_var", "params", "v", "kernel")], s[("lik_log_var", "params", "v", "bias")] = (2, 1), (1,)
    return s


def stats(m):
    return {("model", "batch_stats", "nb", "mean"): np.array([0.25, -0.5], "float32") * (1 + m), ("model", "batch_stats", "nb", "var"): np.array([0.5, 2.0], "float32") / (1 + m)}


YC = np.array([0, 2, 1, 0])


def posterior(kind, calib, sharp=False):
    """A model whose posterior has two known members, and the calibrated outputs of the members."""
    from flax.core import FrozenDict
    from fortuna.prob_model import ProbClassifier, ProbRegressor

    a = pm.approximator("ensemble")
    off = {} if calib else {"output_calibrator": None}
    if kind == "cls":
        m = ProbClassifier(model=pm.mlp(3, norm=True), posterior_approximator=a, **off)
    else:
        m = ProbRegressor(model=pm.mlp(1, norm=True), likelihood_log_variance_model=pm.mlp(1, 3, ("v",)), posterior_approximator=a, **off)
    m.train(train_data_loader=data(kind, (4,)), fit_config=pm.config(lr=0.0, epochs=1))
    outs, raw = [], []
    for i in range(2):
        w, st = weights(kind, i, sharp), stats(i)
        s = m.posterior.state.get(i)
        kw = {}
        if calib:
            kw["calib_params"] = FrozenDict({"output_calibrator": {"params": {"log_temp": np.array([TEMP[i]], "float32")}}})
        mut = pm.unflat({k: v for k, v in st.items()})
        if kind == "reg":
            have = s.mutable
            mut = FrozenDict({**{k: have[k] for k in have}, "model": mut["model"]})
        m.posterior.state.put(state=s.replace(params=pm.unflat(w), mutable=mut, **kw), i=i)
        o, _ = pm.forward(kind, {k: v.astype("float64") for k, v in w.items()}, st, pm.X.astype("float64"))
        raw.append(o)
        if calib:
            o = o * np.exp(-TEMP[i]) if kind == "cls" else np.concatenate([o[:, :1], o[:, 1:] + TEMP[i]], -1)
        outs.append(o)
    return m, np.array(outs), np.array(raw)


def cuts(comp):
    e = np.cumsum((0,) + tuple(comp))
    return [slice(a, b) for a, b in zip(e[:-1], e[1:])]


def data(kind, comp):
    from fortuna.data import DataLoader

    y = YC if kind == "cls" else pm.YR
    return DataLoader.from_iterable([(pm.X[s], y[s]) for s in cuts(comp)])


def inputs(comp):
    from fortuna.data import InputsLoader

    return InputsLoader.from_iterable([pm.X[s] for s in cuts(comp)])


# ---- statistics of mixtures, by definition
def stat(kind, what, o, y):
    """o: (S, n, d) outputs of the drawn members."""
    S = len(o)
    if kind == "cls":
        p = np.array([pm.softmax(a) for a in o])
        mean = p.mean(0)
        alea, epi = (p * (1 - p)).mean(0), p.var(0)
        ent = lambda q: -(q * np.log(q)).sum(-1)
        ha, h = np.array([ent(q) for q in p]).mean(0), ent(mean)
    else:
        mean = o[..., :1].mean(0)
        alea, epi = np.exp(o[..., 1:]).mean(0), o[..., :1].var(0)
        ha = h = None
    ll = np.array([pm.log_lik(kind, a, y) for a in o])
    mix = lambda l: np.logaddexp.reduce(l, 0) - np.log(S)
    return {"mean": mean, "mode": mean.argmax(-1) if kind == "cls" else mean, "aleatoric_variance": alea, "epistemic_variance": epi, "variance": alea + epi,
            "std": np.sqrt(alea + epi), "aleatoric_entropy": ha, "epistemic_entropy": None if h is None else h - ha, "entropy": h, "log_prob": mix(ll),
            "joint": mix(ll.sum(-1)), "ll": ll}[what]


def close(a, b, tol=2e-4):
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def mixtures(S):
    return [(k, S - k) for k in range(S + 1)]


def rows(a, members, tol=2e-4):
    """the member to which each draw (leading axis) belongs, as a list, or None."""
    out = []
    for r in a:
        hit = [i for i, m in enumerate(members) if close(r, np.asarray(m), tol)]
        if len(hit) != 1:
            return None
        out.append(hit[0])
    return out


SHARP = ("sample", "sample_aux", "quantile", "interval")


def units(tier):
    u = []
    for kind in ("cls", "reg"):
        for sharp in (False, True):
            meths = [m for m in METHODS[kind] if (m in SHARP) == sharp]
            size = 4 if sharp else 5
            for g in range(0, len(meths), size):
                u += [(kind, calib, tuple(meths[g:g + size]), dist) for calib in (True, False) for dist in (False, True)]
    return u


def run_unit(u, ctx):
    import jax

    kind, calib, meths, dist = u
    m, outs, raw = posterior(kind, calib, meths[0] in SHARP)
    for meth in meths:
        explore(ctx, m, outs, raw, kind, calib, meth, dist)
    jax.clear_caches()


def explore(ctx, m, outs, raw, kind, calib, meth, dist):
    import jax

    quick = ctx.tier == "quick"
    y = YC if kind == "cls" else pm.YR
    comps = [c for c in BATCHES if not dist or all(b % 2 == 0 for b in c)]
    if quick and not dist:
        comps = [(4,), (2, 2), (1, 2, 1)] if calib else [(3, 1)]
    draws = ((1, 2, 3) if calib else (2, 3)) if quick else (1, 2, 3, 5)
    keys = range(2 if quick else 5)
    seen, n_calls = set(), 0
    for comp, S, k in itertools.product(comps, draws, keys):
        if quick and ((k and (comp != comps[0] or S != 2)) or (comp != comps[0] and S == 1)):
            continue
        key = jax.random.PRNGKey(10 * k + S)
        call = f"{kind}/{'calibrated' if calib else 'plain'}/{meth}/{comp}/S={S}/key={k}/{'2 devices' if dist else 'jit'}"
        try:
            got = evaluate(m, m.predictive, kind, meth, comp, S, key, dist)
        except Exception as e:  # noqa: BLE001
            ctx.fail(f"raise {kind} {meth} {type(e).__name__} {dist}", f"{call}: {type(e).__name__}: {str(e)[:300]}")
            continue
        n_calls += 1
        ctx.ev()
        c = judge(ctx, kind, meth, S, got, outs, raw, y, call, dist)
        if c is not None:
            found = c if isinstance(c, list) else [c]
            seen.update(found)
            ctx.sample(f"{call} -> {c}")
            for v in found:
                if isinstance(v, tuple) and min(v) > 0:
                    ctx.nt((kind, calib, meth, S, v))
    if n_calls >= 4 and not (kind == "reg" and "entropy" in meth):
        ctx.check(len(seen) > 1, f"one mixture {kind} {meth}", f"{kind} {meth} {dist}: every key gave the same mixture {seen}")


def evaluate(m, pred, kind, meth, comp, S, key, dist):
    kw = dict(rng=key, distribute=dist)
    il, dl = inputs(comp), data(kind, comp)
    if meth in ("ensemble_log_prob", "log_prob"):
        return np.asarray(getattr(pred, meth)(dl, n_posterior_samples=S, **kw))
    if meth == "outputs":
        return np.asarray(pred._sample_outputs(il, n_output_samples=S, **kw))
    if meth == "calibrated":
        return np.asarray(pred.sample_calibrated_outputs(il, n_output_samples=S, **kw))
    if meth == "sample":
        return np.asarray(pred.sample(il, n_target_samples=S, **kw))
    if meth == "sample_aux":
        s, aux = pred.sample(il, n_target_samples=S, return_aux=["outputs"], **kw)
        return np.asarray(s), {k: np.asarray(v) for k, v in aux.items()}
    if meth == "quantile":
        qs = np.array([0.0, 0.25, 0.5, 0.9, 1.0])
        return qs, np.asarray(pred.quantile(q=list(qs), inputs_loader=il, n_target_samples=S, **kw))
    if meth == "interval":
        return {(t, e): np.asarray(pred.credible_interval(il, n_target_samples=S, error=e, interval_type=t, **kw))
                for t in ("two-tailed", "left-tailed", "right-tailed") for e in (0.2,)}
    if meth == "joint":
        import jax.numpy as jnp

        out = []
        for b in data(kind, comp):
            v = pred._batched_log_joint_prob(b, 12, n_posterior_samples=S, rng=key)
            w = pred._batched_negative_log_joint_prob(b, 12, n_posterior_samples=S, rng=key)
            a, aux = pred._batched_log_joint_prob(b, 12, n_posterior_samples=S, return_aux=["outputs"], rng=key)
            out.append((float(v), float(w), float(a), np.asarray(aux["outputs"])))
        return out, comp
    if meth == "loader":
        tl, size = pred._sample_outputs_loader(il, n_output_samples=S, return_size=True, **kw)
        return [np.asarray(t) for t in tl], size, comp
    f = getattr(pred, meth)
    extra = {"n_target_samples": 3000} if kind == "reg" and "entropy" in meth else {}
    return np.asarray(f(il, n_posterior_samples=S, **extra, **kw))


def judge(ctx, kind, meth, S, got, outs, raw, y, call, dist):
    bad = lambda what, g, w: ctx.fail(f"{what} {kind} {meth}", f"{call}: {what}\n got {np.asarray(g).tolist()}\n members {np.asarray(w).tolist()}")
    mix = lambda c: np.concatenate([np.repeat(outs[i:i + 1], c[i], 0) for i in range(2)], 0)
    if meth in ("outputs", "calibrated", "ensemble_log_prob"):
        members = {"outputs": raw, "calibrated": outs, "ensemble_log_prob": np.array([pm.log_lik(kind, o, y) for o in outs])}[meth]
        if got.shape != (S,) + members[0].shape:
            return bad("shape", got, members)
        r = rows(got, members)
        if r is None:
            return bad("a draw is not one member for all points", got, members)
        return (r.count(0), r.count(1))
    if meth in ("sample", "sample_aux"):
        aux = None
        if meth == "sample_aux":
            got, aux = got
        targets = outs.argmax(-1) if kind == "cls" else outs[..., :1]
        if got.shape != (S,) + targets[0].shape:
            return bad("shape", got, targets)
        r = rows(got, targets, 1e-3)
        if r is None:
            return bad("a target sample does not follow one member for all points", got, targets)
        if aux is not None:
            if "outputs" not in aux:
                return ctx.fail(f"aux {kind}", f"{call}: the requested outputs are not returned")
            o = aux["outputs"]
            if o.shape != (S,) + outs[0].shape or rows(o, outs) != r:
                return bad("returned outputs are not those behind the samples", o, outs)
        return (r.count(0), r.count(1))
    if meth == "quantile":
        qs, g = got
        ok = [c for c in mixtures(S) if close(g, np.quantile(mix(c)[..., :1], qs, axis=0), 1e-3)]
        return ok[0] if ok else bad("not the quantiles of one mixture", g, outs)
    if meth == "interval":
        ok = mixtures(S)
        for (t, e), g in got.items():
            def want(c):
                s = mix(c)[..., :1]
                if t == "two-tailed":
                    return np.stack([np.quantile(s, e / 2, axis=0)[:, 0], np.quantile(s, 1 - e / 2, axis=0)[:, 0]], -1)
                return np.quantile(s, e if t == "left-tailed" else 1 - e, axis=0)

            ok2 = [c for c in ok if close(g, want(c), 1e-3)]
            if not ok2:
                return bad(f"{t} interval is not that of one mixture", g, outs)
            ok = ok2
        return ok[0]
    if meth == "joint":
        out, comp = got
        ok = mixtures(S)
        for (v, w, a, o), s in zip(out, cuts(comp)):
            ok = [c for c in ok if abs(v - lse_scaled(kind, mix(c)[:, s], y[s], 12)) <= 1e-3 * (1 + abs(v))]
            ctx.check(v == -w and abs(a - v) <= 1e-4 * (1 + abs(v)), f"joint variants {kind}", f"{call}: {v} {w} {a}")
            okc = [c for c in ok if close(o, mix(c)[:, s].mean(0), 1e-3)]
            ctx.check(bool(okc) or not ok, f"joint outputs {kind}", f"{call}: auxiliary outputs are not the average of the members")
        return ok[0] if ok else bad("not the log-probability of one mixture", [v for v, *_ in out], outs)
    if meth == "loader":
        bs, size, comp = got
        ctx.check(size == N, f"size {kind}", f"{call}: reported size {size} of {N} points")
        g = np.concatenate(bs, 1) if len({b.shape[0] for b in bs}) == 1 else None
        if g is None or g.shape != (S,) + raw[0].shape or [b.shape[1] for b in bs] != list(comp):
            return bad("shape", [b.shape for b in bs], raw)
        # with distribution, each device draws members of its own
        r = [rows(g[:, i], raw[:, i]) for i in range(N)]
        if None in r or (len({tuple(x) for x in r}) > 1 and not dist):
            return bad("a draw is not one member for all points", g, raw)
        return [(x.count(0), x.count(1)) for x in r]
    if meth in ("variance", "std"):
        # the two components are drawn independently
        parts = [(a, e) for a in mixtures(S) for e in mixtures(S)]
        ok = []
        for a, e in parts:
            v = stat(kind, "aleatoric_variance", mix(a), y) + stat(kind, "epistemic_variance", mix(e), y)
            if close(got, np.sqrt(v) if meth == "std" else v):
                ok.append(a)
        return ok[0] if ok else bad("not the total variance of mixtures", got, outs)
    if kind == "reg" and "entropy" in meth:
        return regression_entropy(ctx, meth, S, got, outs, call, mix, bad)
    ok = [c for c in mixtures(S) if close(got.astype("float64"), np.asarray(stat(kind, meth, mix(c), y), "float64"))]
    if not ok:
        return bad("not the statistic of one mixture", got, outs)
    if meth == "mode":
        return ok if len(ok) > 1 else ok[0]
    if meth == "epistemic_variance" or meth == "epistemic_entropy":
        return ok[0] if len(ok) == 1 else ("degenerate" if S == 1 or all(min(c) == 0 for c in ok) else ok[0])
    return ok[0]


def lse_scaled(kind, o, y, n_data):
    ll = np.array([n_data / len(y) * pm.log_lik(kind, a, y).sum() for a in o])
    return np.logaddexp.reduce(ll) - np.log(len(o))


def regression_entropy(ctx, meth, S, got, outs, call, mix, bad):
    """Monte-Carlo over targets by design of the method: compared with quadrature within a tolerance above its error."""
    z, wq = np.polynomial.hermite_e.hermegauss(60)
    wq = wq / wq.sum()
    ok = []
    for c in mixtures(S):
        o = mix(c)
        mu, lv = o[..., 0], o[..., 1]
        ha = (0.5 * (1 + np.log(2 * np.pi)) + 0.5 * lv).mean(0)
        yy = mu[..., None] + np.exp(0.5 * lv)[..., None] * z  # (S, n, q)
        lp = -0.5 * ((yy[None] - mu[:, None, :, None]) ** 2 * np.exp(-lv)[:, None, :, None] + lv[:, None, :, None] + np.log(2 * np.pi))
        h = -((np.logaddexp.reduce(lp, 0) - np.log(S)) * wq).sum(-1).mean(0)
        want = {"aleatoric_entropy": ha, "entropy": h, "epistemic_entropy": h - ha}[meth]
        if got.shape == want.shape and np.all(np.abs(got - want) < 0.12):
            ok.append(c)
    return ok[0] if ok else bad("not the entropy of one mixture", got, outs)
