"""C21 likelihoods, priors and probabilistic output layers equal their definitions, whatever the batching."""
import itertools

import numpy as np

from mc import pm

ID = "C21"
LEVEL = "exploration"
RULE = (
    "output layers: every matrix of outputs over an alphabet with extreme values (up to three classes, or one to three target dimensions) x every target; "
    "likelihoods: two known parameter sets x with or without calibrator x every composition of four points in batches x one device or two with distribution, every statistic; "
    "joint: every batch size x data-set size x auxiliary objects x training or not x pre-computed outputs or not x priors; "
    "oracle: numpy transcription of the definitions; non-trivial = more than one batch, or outputs which are not all equal"
)
ASSUMPTIONS = ["float32 arithmetic: relative tolerance 1e-4", "statistics estimated from random target samples are compared with their exact values at a fixed margin, or on degenerate distributions exactly"]
ENV = {"XLA_FLAGS": "--xla_force_host_platform_device_count=2"}
AC = (-2.0, 0.0, 0.5, 40.0)
AR = (-1.0, 0.25, 2.0)
COMPS = [c for n in range(1, 5) for c in itertools.product((1, 2, 3, 4), repeat=n) if sum(c) == 4]


def close(a, b, tol=1e-4):
    a, b = np.asarray(a, "float64"), np.asarray(b, "float64")
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def units(tier):
    u = [("layer cls", c, m) for c in (2, 3) for m in (False, True)]
    u += [("layer reg", d) for d in (1, 2, 3)]
    u += [("samples", k) for k in ("cls", "reg")]
    u += [("prior",)]
    for kind in ("cls", "reg"):
        for calib in (True, False):
            for dist in (False, True):
                u.append(("lik", kind, calib, dist))
            u.append(("joint", kind, calib))
    u += [("vector", d, cal) for d in (2, 3) for cal in (None, "temp", "run")]
    return u


def run_unit(u, ctx):
    import jax

    {"layer cls": layer_cls, "layer reg": layer_reg, "samples": samples, "prior": prior, "lik": lik, "joint": joint, "vector": vector}[u[0]](ctx, *u[1:])
    jax.clear_caches()


def layer_cls(ctx, C, masked):
    import jax.numpy as jnp
    from fortuna.prob_output_layer.classification import ClassificationMaskedProbOutputLayer, ClassificationProbOutputLayer

    lay = (ClassificationMaskedProbOutputLayer if masked else ClassificationProbOutputLayer)()
    name = f"classification layer{' masked' if masked else ''}"
    o = np.array(list(itertools.product(AC, repeat=C)), "float32")
    p = np.array([pm.softmax(r.astype("float64")) for r in o])
    logp = o - np.logaddexp.reduce(o.astype("float64"), -1)[:, None]
    tot = 0.0
    for y in range(C):
        got = np.asarray(lay.log_prob(jnp.array(o), jnp.full(len(o), y)))
        want = logp[:, y] * (0.0 if masked and y == 0 else 1.0)
        ctx.check(close(got, want), f"{name}: log_prob", f"class {y}: {got.tolist()} != {want.tolist()}")
        tot = tot + np.exp(got)
        ctx.ev(len(o))
        if not masked:
            # each point has a target of its own
            t = (np.arange(len(o)) + y) % C
            got = np.asarray(lay.log_prob(jnp.array(o), jnp.array(t)))
            ctx.check(close(got, logp[np.arange(len(o)), t]), f"{name}: log_prob of mixed targets", f"{got.tolist()}")
    if not masked:
        ctx.check(close(tot, np.ones(len(o)), 1e-4), f"{name}: normalization", tot.tolist())
        # leading axes (time, ensembles)
        got = np.asarray(lay.log_prob(jnp.array(o)[None].repeat(2, 0), jnp.array(t)[None].repeat(2, 0)))
        ctx.check(close(got, logp[np.arange(len(o)), t][None].repeat(2, 0)), f"{name}: log_prob with leading axes", "")
    arg = o.argmax(-1)
    v = p * (1 - p)
    h = -np.where(p > 0, p * np.log(np.where(p > 0, p, 1)), 0).sum(-1)
    for what, got, want in (
        ("predict", lay.predict(jnp.array(o)), arg), ("mode", lay.mode(jnp.array(o)), arg), ("mean", lay.mean(jnp.array(o)), p),
        ("variance", lay.variance(jnp.array(o)), v), ("std", lay.std(jnp.array(o)), np.sqrt(v)),
        ("std of given variances", lay.std(jnp.array(o), variances=jnp.array(v, "float32")), np.sqrt(v)),
    ) + (() if masked else (("entropy", lay.entropy(jnp.array(o)), h),)):
        ctx.ev(len(o))
        ctx.check(close(got, want, 2e-3 if "std" in what else 1e-4), f"{name}: {what}", f"{np.asarray(got).tolist()[:5]} != {want.tolist()[:5]}")
    for r in o:
        if len(set(r)) > 1:
            ctx.nt((C, tuple(r.tolist())))
    ctx.sample(f"{name}: {len(o)} rows of {C} logits")


def layer_reg(ctx, d):
    import jax
    import jax.numpy as jnp
    from fortuna.prob_output_layer.regression import RegressionProbOutputLayer

    lay = RegressionProbOutputLayer()
    o = np.array(list(itertools.product(AR, repeat=2 * d)), "float32")
    mu, lv = o[:, :d].astype("float64"), o[:, d:].astype("float64")
    for y in itertools.product(AR, repeat=d):
        t = np.tile(np.array(y), (len(o), 1))
        want = (-0.5 * (t - mu) ** 2 * np.exp(-lv) - 0.5 * lv - 0.5 * np.log(2 * np.pi)).sum(-1)
        got = np.asarray(lay.log_prob(jnp.array(o), jnp.array(t)))
        ctx.check(close(got, want), "regression layer: log_prob", f"{y}: {got.tolist()[:5]} != {want.tolist()[:5]}")
        ctx.ev(len(o))
    for what, got, want in (
        ("predict", lay.predict(jnp.array(o)), mu), ("mode", lay.mode(jnp.array(o)), mu), ("mean", lay.mean(jnp.array(o)), mu),
        ("variance", lay.variance(jnp.array(o)), np.exp(lv)), ("std", lay.std(jnp.array(o)), np.exp(lv / 2)),
        ("std of given variances", lay.std(jnp.array(o), variances=jnp.array(np.exp(lv))), np.exp(lv / 2)),
    ):
        ctx.check(close(got, want), f"regression layer: {what}", f"{np.asarray(got).tolist()[:5]} != {want.tolist()[:5]}")
    # degenerate distributions: samples, quantiles and intervals are the mean
    z = np.concatenate([mu, np.full_like(lv, -60.0)], -1).astype("float32")
    key = jax.random.PRNGKey(3)
    s = np.asarray(lay.sample(4, jnp.array(z), rng=key))
    ctx.check(close(s, np.tile(mu, (4, 1, 1))), "regression layer: degenerate sample", s[:, :3].tolist())
    q = np.asarray(lay.quantile([0.1, 0.9], jnp.array(z), n_target_samples=5, rng=key))
    ctx.check(close(q, np.tile(mu, (2, 1, 1))), "regression layer: degenerate quantile", q[:, :3].tolist())
    for t in ("two-tailed", "left-tailed", "right-tailed"):
        try:
            iv = np.asarray(lay.credible_interval(jnp.array(z), n_target_samples=5, error=0.1, interval_type=t, rng=key))
            ctx.check(d == 1, "regression layer: interval of vectors", f"{t}: no error for {d} dimensions")
            want = np.stack([mu[:, 0]] * 2, -1) if t == "two-tailed" else mu
            ctx.check(close(iv, want), "regression layer: degenerate interval", f"{t}: {iv[:3].tolist()}")
        except ValueError:
            ctx.check(d > 1, "regression layer: interval raises", f"{t} {d}")
    try:
        lay.credible_interval(jnp.array(z), interval_type="centered", rng=key)
        ctx.fail("regression layer: unknown interval accepted", "centered")
    except ValueError:
        pass
    except Exception as e:  # noqa: BLE001
        ctx.fail("regression layer: unknown interval", f"{type(e).__name__}: {e}")
    for r in o:
        ctx.nt((d, tuple(r.tolist())))
    ctx.sample(f"regression layer: {len(o)} rows of {2 * d} outputs")


def samples(ctx, kind):
    """Frequencies, quantiles and one-sided intervals of samples with fixed keys."""
    import jax
    import jax.numpy as jnp
    from fortuna.prob_output_layer.classification import ClassificationProbOutputLayer
    from fortuna.prob_output_layer.regression import RegressionProbOutputLayer

    n = 4000
    for seed in range(2):
        key = jax.random.PRNGKey(seed)
        if kind == "cls":
            o = np.array([[0.0, 0.0, 0.0], [1.0, 0.0, -1.0], [0.0, 30.0, 0.0], [-2.0, 0.5, 0.5]], "float32")
            s = np.asarray(ClassificationProbOutputLayer().sample(n, jnp.array(o), rng=key))
            f = np.stack([(s == c).mean(0) for c in range(3)], -1)
            p = np.array([pm.softmax(r) for r in o])
            ctx.check(s.shape == (n, 4) and np.all(np.abs(f - p) < 0.05), "classification layer: frequencies of samples", f"{f.tolist()} != {p.tolist()}")
            # points are sampled independently of each other
            pair = ((s[:, 0] == 0) & (s[:, 3] == 1)).mean()
            ctx.check(abs(pair - p[0, 0] * p[3, 1]) < 0.05, "classification layer: dependent samples", f"{pair}")
            s2 = np.asarray(ClassificationProbOutputLayer().sample(n, jnp.array(o), rng=key, probs=jnp.array([[0.9, 0.1, 0.0]] * 4)))
            ctx.check(np.all(np.abs((s2 == 0).mean(0) - 0.9) < 0.05), "classification layer: given probabilities", "")
        else:
            lay = RegressionProbOutputLayer()
            o = np.array([[0.0, 0.0], [3.0, 2.0], [-1.0, -3.0]], "float32")
            s = np.asarray(lay.sample(n, jnp.array(o), rng=key))
            sd = np.exp(o[:, 1] / 2)
            zed = (s[..., 0] - o[:, 0]) / sd
            ctx.check(s.shape == (n, 3, 1) and np.all(np.abs(zed.mean(0)) < 0.08) and np.all(np.abs(zed.std(0) - 1) < 0.06), "regression layer: moments of samples", f"{zed.mean(0)} {zed.std(0)}")
            ctx.check(abs((zed[:, 0] * zed[:, 1]).mean()) < 0.1, "regression layer: dependent samples", "")
            h = np.asarray(lay.entropy(jnp.array(o), n_target_samples=n, rng=key))
            ctx.check(np.all(np.abs(h - 0.5 * (1 + np.log(2 * np.pi) + o[:, 1])) < 0.06), "regression layer: entropy", h.tolist())
            z = {0.05: -1.645, 0.1: -1.282, 0.5: 0.0, 0.9: 1.282, 0.95: 1.645}
            for e in (0.1, 0.2):
                iv = np.asarray(lay.credible_interval(jnp.array(o), n, error=e, rng=key))
                ctx.check(np.all(np.abs((iv - o[:, :1]) / sd[:, None] - np.array([z[e / 2], -z[e / 2]])) < 0.12) if e / 2 in z else True, "regression layer: two-tailed interval", iv.tolist())
            for t, q in (("left-tailed", -1.282), ("right-tailed", 1.282)):
                iv = np.asarray(lay.credible_interval(jnp.array(o), n, error=0.1, interval_type=t, rng=key))
                ctx.check(np.all(np.abs((iv[:, 0] - o[:, 0]) / sd - q) < 0.12), f"regression layer: {t} interval", iv.tolist())
        ctx.ev(n)
        ctx.nt((kind, seed))


def prior(ctx):
    import jax
    import jax.numpy as jnp
    from fortuna.prob_model.prior import DiagonalGaussianPrior, IsotropicGaussianPrior

    for vals in itertools.product((-1.0, 0.0, 2.0), repeat=3):
        tree = {"b": {"x": jnp.array(vals[:1])}, "a": {"y": jnp.array(vals[1:]).reshape(2, 1)}}
        flat = np.array(vals[1:] + vals[:1])  # ravel order: sorted keys
        for lv in (-2.0, 0.0, 3.0):
            want = (-0.5 * flat**2 * np.exp(-lv) - 0.5 * lv - 0.5 * np.log(2 * np.pi)).sum()
            got = float(IsotropicGaussianPrior(log_var=lv).log_joint_prob(tree))
            ctx.check(abs(got - want) < 1e-4 * (1 + abs(want)), "isotropic prior: log_joint_prob", f"{vals} {lv}: {got} != {want}")
            ctx.ev()
        for lvs in itertools.product((-2.0, 1.0), repeat=3):
            lvs = np.array(lvs)
            want = (-0.5 * flat**2 * np.exp(-lvs) - 0.5 * lvs - 0.5 * np.log(2 * np.pi)).sum()
            got = float(DiagonalGaussianPrior(log_var=jnp.array(lvs)).log_joint_prob(tree))
            ctx.check(abs(got - want) < 1e-4 * (1 + abs(want)), "diagonal prior: log_joint_prob", f"{vals} {lvs}: {got} != {want}")
            ctx.ev()
        ctx.nt(vals)
    like = {"b": {"x": jnp.zeros((1000,))}, "a": {"y": jnp.zeros((600, 2))}}
    for seed in range(2):
        key = jax.random.PRNGKey(seed)
        for lv in (-2.0, 1.0):
            s = IsotropicGaussianPrior(log_var=lv).sample(like, rng=key)
            ctx.check(s["b"]["x"].shape == (1000,) and s["a"]["y"].shape == (600, 2), "prior sample: structure", "")
            for v in (s["b"]["x"], s["a"]["y"]):
                ctx.check(abs(float(v.mean()) / np.exp(lv / 2)) < 0.15 and abs(float(v.std()) / np.exp(lv / 2) - 1) < 0.15, "isotropic prior: sample moments", f"{lv}")
        lvs = jnp.concatenate([jnp.full(1200, 2.0), jnp.full(1000, -3.0)])
        s = DiagonalGaussianPrior(log_var=lvs).sample(like, rng=key)
        ctx.check(abs(float(s["a"]["y"].std()) / np.exp(1.0) - 1) < 0.15 and abs(float(s["b"]["x"].std()) / np.exp(-1.5) - 1) < 0.15, "diagonal prior: sample moments", "")


# ---- likelihoods
def setup(kind, calib):
    from flax.core import FrozenDict

    from mc.props import c20

    m, outs, raw = c20.posterior(kind, calib)
    states = [m.posterior.state.get(i) for i in range(2)]
    return m, states, outs, raw


def lik(ctx, kind, calib, dist):
    import jax

    from mc.props import c20

    m, states, outs, raw = setup(kind, calib)
    L = m.likelihood
    y = c20.YC if kind == "cls" else pm.YR
    for comp in COMPS:
        if dist and any(b % 2 for b in comp):
            continue
        if ctx.tier == "quick" and not calib and comp not in ((4,), (1, 3)):
            continue
        for i, s in enumerate(states):
            if ctx.tier == "quick" and i == 0 and len(comp) > 1:
                continue
            o, r = outs[i], raw[i]
            args = lambda ld: (s.params, ld, s.mutable)
            kw = dict(calib_params=s.calib_params, calib_mutable=s.calib_mutable, distribute=dist)
            il, dl = (lambda: c20.inputs(comp)), (lambda: c20.data(kind, comp))
            if kind == "cls":
                p = np.array([pm.softmax(a) for a in o])
                v = p * (1 - p)
                want = {"mean": p, "mode": o.argmax(-1), "variance": v, "std": np.sqrt(v), "entropy": -(p * np.log(p)).sum(-1)}
            else:
                v = np.exp(o[:, 1:])
                want = {"mean": o[:, :1], "mode": o[:, :1], "variance": v, "std": np.sqrt(v), "entropy": 0.5 * (1 + np.log(2 * np.pi) + o[:, 1])}
            call = f"{kind}/{'calibrated' if calib else 'plain'}/member {i}/{comp}/{'2 devices' if dist else 'jit'}"
            for what, w in want.items():
                extra = {"n_target_samples": 4000, "rng": jax.random.PRNGKey(1)} if what == "entropy" and kind == "reg" else {}
                got = getattr(L, what)(*args(il()), **kw, **extra)
                ctx.ev()
                ctx.check(close(got, w, 0.08 if extra else 2e-4), f"{kind} likelihood: {what}", f"{call}: {np.asarray(got).tolist()} != {w.tolist()}")
            got = L.std(*args(il()), variance=np.asarray(v), **kw)
            ctx.check(close(got, want["std"]), f"{kind} likelihood: std of given variance", call)
            ll = pm.log_lik(kind, o, y)
            got = L.log_prob(*args(dl()), **kw)
            ctx.check(close(got, ll, 2e-4), f"{kind} likelihood: log_prob", f"{call}: {np.asarray(got).tolist()} != {ll.tolist()}")
            ctx.check(close(L.get_calibrated_outputs(*args(il()), **kw), o, 2e-4), f"{kind} likelihood: calibrated outputs", call)
            ctx.check(close(L.get_outputs(s.params, il(), s.mutable, distribute=dist), r, 2e-4), f"{kind} likelihood: outputs", call)
            ctx.ev(4)
            n = 4000 if kind == "reg" else 3000
            smp, aux = L.sample(n, *args(il()), return_aux=["outputs"], rng=jax.random.PRNGKey(0), **kw)
            smp = np.asarray(smp)
            ctx.check(close(aux["outputs"], o, 2e-4), f"{kind} likelihood: outputs behind samples", call)
            if kind == "cls":
                f = np.stack([(smp == c).mean(0) for c in range(3)], -1)
                ctx.check(smp.shape == (n, 4) and np.all(np.abs(f - p) < 0.06), "cls likelihood: sample", f"{call}: {f.tolist()} != {p.tolist()}")
            else:
                z = (smp - o[:, :1]) / np.exp(o[:, 1:] / 2)
                ctx.check(smp.shape == (n, 4, 1) and np.all(np.abs(z.mean(0)) < 0.1) and np.all(np.abs(z.std(0) - 1) < 0.1), "reg likelihood: sample", call)
                q = np.asarray(L.quantile(np.array([0.1, 0.5, 0.9]), *args(il()), n_target_samples=n, rng=jax.random.PRNGKey(0), **kw))
                zq = (q - o[:, :1]) / np.exp(o[:, 1:] / 2)
                ctx.check(q.shape == (3, 4, 1) and np.all(np.abs(zq[..., 0] - np.array([[-1.282], [0.0], [1.282]])) < 0.12), "reg likelihood: quantile", f"{call}: {zq.tolist()}")
            if len(comp) > 1:
                ctx.nt((kind, calib, dist, comp, i))
        ctx.sample(f"{kind} {comp}")


def vector(ctx, d, cal):
    """Targets of several dimensions; calibrators with a running state."""
    import jax
    from flax.core import FrozenDict
    from fortuna.likelihood.regression import RegressionLikelihood
    from fortuna.model.model_manager.regression import RegressionModelManager
    from fortuna.output_calibrator.output_calib_manager.base import OutputCalibManager
    from fortuna.output_calibrator.regression import RegressionTemperatureScaler
    from fortuna.prob_output_layer.regression import RegressionProbOutputLayer

    from mc.props import c20, c22

    names = ("b", "a")
    man = RegressionModelManager(pm.mlp(d, norm=True), pm.mlp(d, 3, ("v",)))
    L = RegressionLikelihood(man, RegressionProbOutputLayer(), OutputCalibManager({None: None, "temp": RegressionTemperatureScaler(), "run": c22.running("reg", 0)}[cal]))
    v = man.init((2,), rng=jax.random.PRNGKey(0))
    fl = pm.flat({k: dict(t) for k, t in v.items()})
    w = {k: t for k, t in fl.items() if k[1] == "params"}
    params = pm.unflat(w)
    st = {k: t + 0.25 for k, t in fl.items() if k[1] == "batch_stats"}
    mutable = FrozenDict({"model": {"batch_stats": {"nb": {k[-1]: t for k, t in st.items()}}}, "lik_log_var": None})
    phi, shift = np.array([0.3]), np.linspace(-0.5, 0.5, 2 * d)
    cp = cm = None
    if cal:
        cp = FrozenDict({"output_calibrator": {"params": {"log_temp": phi.astype("float32")}}})
        cm = FrozenDict({"output_calibrator": {"state": {"shift": shift.astype("float32")}} if cal == "run" else None})
    y = (np.arange(4 * d).reshape(4, d) % 5 - 2.0) / 2
    W = {k: t.astype("float64") for k, t in w.items()}
    ro, new = pm.forward("reg", W, st, pm.X.astype("float64"))
    g = lambda o, train=False: c22.g("reg", cal, phi if cal else 0.0, shift, o, train, np)
    o, _ = g(ro)
    mu, var = o[:, :d], np.exp(o[:, d:])
    want = {"mean": mu, "mode": mu, "variance": var, "std": np.sqrt(var)}
    ll = pm.log_lik("reg", o, y)
    for comp in COMPS:
        call = f"{d} dimensions/{cal}/{comp}"
        kw = dict(calib_params=cp, calib_mutable=cm, distribute=False)
        il = lambda: c20.inputs(comp)
        from fortuna.data import DataLoader

        dl = DataLoader.from_iterable([(pm.X[c], y[c]) for c in c20.cuts(comp)])
        for what, x in want.items():
            got = getattr(L, what)(params, il(), mutable, **kw)
            ctx.ev()
            ctx.check(close(got, x, 2e-4), f"vector likelihood: {what}", f"{call}: {np.asarray(got).tolist()} != {x.tolist()}")
        got = L.log_prob(params, dl, mutable, **kw)
        ctx.check(close(got, ll, 2e-4), "vector likelihood: log_prob", f"{call}: {np.asarray(got).tolist()} != {ll.tolist()}")
        got = L.get_calibrated_outputs(params, il(), mutable, **kw)
        ctx.check(close(got, o, 2e-4), "vector likelihood: calibrated outputs", f"{call}: {np.asarray(got).tolist()} != {o.tolist()}")
        q = np.asarray(L.quantile(np.array([0.1, 0.9]), params, il(), mutable, n_target_samples=3000, rng=jax.random.PRNGKey(0), **kw))
        z = (q - mu) / np.sqrt(var)
        ctx.check(q.shape == (2, 4, d) and np.all(np.abs(z - np.array([-1.282, 1.282])[:, None, None]) < 0.15), "vector likelihood: quantile", f"{call}: {q.shape} {z.tolist()}")
        ctx.ev(3)
        if len(comp) > 1:
            ctx.nt(("vector", d, cal, comp))
    # one batch, with auxiliary objects
    for train, aux in itertools.product((False, True), [[], ["outputs"], ["calib_mutable"], ["outputs", "calib_mutable"]]):
        kw = dict(mutable=mutable, calib_params=cp, calib_mutable=cm, train=train, return_aux=aux + (["mutable"] if train else []))
        oo, nw = pm.forward("reg", W, st, pm.X.astype("float64"), train)
        c, sh = g(oo, "calib_mutable" in aux)
        call = f"{d} dimensions/{cal}/train={train}/aux={aux}"
        try:
            got = L._batched_log_joint_prob(params, (pm.X, y), 12, **kw)
        except Exception as e:  # noqa: BLE001
            ctx.fail(f"vector likelihood raises {type(e).__name__}", f"{call}: {str(e)[:200]}")
            continue
        got, extra = got if kw["return_aux"] else (got, {})
        x = 3 * pm.log_lik("reg", c, y).sum()
        ctx.ev()
        ctx.check(abs(float(got) - x) < 5e-4 * (1 + abs(x)), "vector likelihood: batch", f"{call}: {float(got)} != {x}")
        ctx.check(set(extra) == set(kw["return_aux"]), "vector likelihood: auxiliary objects", f"{call}: {sorted(extra)}")
        if "outputs" in extra:
            ctx.check(close(extra["outputs"], c, 1e-3), "vector likelihood: auxiliary outputs", call)
        if "calib_mutable" in extra:
            t = extra["calib_mutable"]["output_calibrator"]
            ctx.check(t is None if cal != "run" else close(t["state"]["shift"], sh, 1e-3), "vector likelihood: state of the calibrator", f"{call}: {t} instead of {sh.tolist()}")
        if train:
            h = pm.flat({k: t for k, t in extra["mutable"].items() if t})
            ctx.check(all(close(h[k], t, 1e-3) for k, t in nw.items()), "vector likelihood: running statistics", call)
    ctx.sample(f"vector {d} {cal}")


def joint(ctx, kind, calib):
    """Batched log-likelihood and log-joint: n/|B| times the sum over the batch, plus the log-prior once."""
    import jax
    from fortuna.prob_model.joint.base import Joint
    from fortuna.prob_model.prior import DiagonalGaussianPrior, IsotropicGaussianPrior

    from mc.props import c20

    m, states, outs, raw = setup(kind, calib)
    y = c20.YC if kind == "cls" else pm.YR
    priors = [("isotropic", IsotropicGaussianPrior(log_var=0.5))]
    size = sum(v.size for v in pm.flat(states[0].params).values())
    priors.append(("diagonal", DiagonalGaussianPrior(log_var=np.linspace(-1, 1, size).astype("float32"))))
    # log-priors by definition, the diagonal one over the leaves in sorted order
    def log_prior(name, params):
        f = np.concatenate([np.ravel(v) for _, v in sorted(pm.flat(params).items())]).astype("float64")
        lv = 0.5 if name == "isotropic" else np.linspace(-1, 1, size)
        return (-0.5 * f**2 * np.exp(-lv) - 0.5 * lv - 0.5 * np.log(2 * np.pi) * np.ones_like(f)).sum()

    subsets = [s for k in range(1, 5) for s in itertools.combinations(range(4), k)]
    if ctx.tier == "quick":
        subsets = [s for s in subsets if len(s) in (1, 4) or s in ((0, 2), (1, 3), (0, 1, 3))]
    for i, s in enumerate(states):
        st = c20.stats(i)
        w = {k: v.astype("float64") for k, v in c20.weights(kind, i).items()}
        for sub in subsets:
            sub = list(sub)
            batch = (pm.X[sub], y[sub])
            for n_data, train, given in itertools.product((1, 4, 30), (False, True), (False, True)):
                if train and given:
                    continue
                ro, new = pm.forward(kind, w, st, pm.X[sub].astype("float64"), train=train)
                o = ro
                if calib:
                    T = c20.TEMP[i]
                    o = ro * np.exp(-T) if kind == "cls" else np.concatenate([ro[:, :1], ro[:, 1:] + T], -1)
                ll = n_data / len(sub) * pm.log_lik(kind, o, y[sub]).sum()
                auxes = [["mutable"], ["mutable", "outputs"], ["mutable", "outputs", "calib_mutable"]] if train else [None, [], ["outputs"], ["calib_mutable"], ["outputs", "calib_mutable"]]
                for aux in auxes:
                    kw = dict(mutable=None if given else s.mutable, calib_params=s.calib_params, calib_mutable=s.calib_mutable, train=train,
                              outputs=ro.astype("float32") if given else None)
                    if aux is not None:
                        kw["return_aux"] = aux
                    call = f"{kind}/{'calibrated' if calib else 'plain'}/member {i}/points {sub}/n={n_data}/train={train}/given={given}/aux={aux}"
                    try:
                        res = [("likelihood", m.likelihood._batched_log_joint_prob(s.params, batch, n_data, **kw), ll)]
                        if n_data == 30 or ctx.tier != "quick":
                            for name, pr in priors:
                                j = Joint(prior=pr, likelihood=m.likelihood)
                                lp = log_prior(name, s.params)
                                res.append((f"joint {name}", j._batched_log_joint_prob(s.params, batch, n_data, **kw), ll + lp))
                                res.append((f"negative joint {name}", j._batched_negative_log_joint_prob(s.params, batch, n_data, **kw), -ll - lp))
                    except Exception as e:  # noqa: BLE001
                        ctx.fail(f"{kind} joint raises {type(e).__name__}", f"{call}: {e}")
                        continue
                    for name, got, want in res:
                        ctx.ev()
                        extra = {}
                        if aux:
                            got, extra = got
                        ctx.check(abs(float(got) - want) <= 5e-4 * (1 + abs(want)), f"{kind} {name}", f"{call}: {float(got)} != {want}")
                        ctx.check(set(extra) == set(aux or []), f"{kind} {name}: auxiliary objects", f"{call}: {sorted(extra)}")
                        if "outputs" in extra:
                            ctx.check(close(extra["outputs"], o, 1e-3), f"{kind} {name}: auxiliary outputs", call)
                        if "mutable" in extra:
                            g = pm.flat(extra["mutable"])
                            ctx.check(all(close(g[k], v, 1e-3) for k, v in new.items()), f"{kind} {name}: auxiliary running statistics", f"{call}: {g} {new}")
                    if len(sub) > 1:
                        ctx.nt((kind, calib, i, tuple(sub), n_data, train))
        ctx.sample(f"{kind} joint member {i}")
    if not calib:
        # a likelihood without any calibration manager
        bare = type(m.likelihood)(m.likelihood.model_manager, m.likelihood.prob_output_layer)
        s, o = states[1], raw[1]
        want = 2 * pm.log_lik(kind, o, y).sum()
        _, new = pm.forward(kind, {k: v.astype("float64") for k, v in c20.weights(kind, 1).items()}, c20.stats(1), pm.X.astype("float64"), train=True)
        for aux, given, train in itertools.product((None, ["outputs"], ["mutable", "outputs"]), (False, True), (False, True)):
            if train != (aux is not None and "mutable" in aux) or (train and given):
                continue
            call = f"{kind} without calibration manager/aux={aux}/given={given}/train={train}"
            try:
                got = bare._batched_log_joint_prob(s.params, (pm.X, y), 8, mutable=None if given else s.mutable, return_aux=aux, train=train, outputs=o.astype("float32") if given else None)
                ctx.ev()
                extra = {}
                if aux:
                    got, extra = got
                if not train:
                    ctx.check(abs(float(got) - want) < 5e-4 * (1 + abs(want)), f"{kind} bare likelihood", f"{call}: {float(got)} != {want}")
                ctx.check(set(extra) == set(aux or []), f"{kind} bare likelihood: auxiliary objects", f"{call}: {sorted(extra)}")
                if train:
                    g = pm.flat(extra["mutable"])
                    ctx.check(all(close(g[k], v, 1e-3) for k, v in new.items()), f"{kind} bare likelihood: running statistics", call)
            except Exception as e:  # noqa: BLE001
                ctx.fail(f"{kind} bare likelihood raises {type(e).__name__}", f"{call}: {e}")
    # what cannot be asked for is refused
    s = states[0]
    b = (pm.X, y)
    for what, kw in (
        ("unknown auxiliary object", dict(return_aux=["nothing"])),
        ("training with given outputs", dict(train=True, outputs=raw[0].astype("float32"))),
        ("running statistics with given outputs", dict(return_aux=["mutable"], outputs=raw[0].astype("float32"), mutable=s.mutable)),
        ("running statistics without training", dict(return_aux=["mutable"], mutable=s.mutable)),
        ("running statistics without any", dict(return_aux=["mutable"], train=True)),
        ("training drops running statistics", dict(mutable=s.mutable, train=True)),
    ):
        try:
            m.likelihood._batched_log_joint_prob(s.params, b, 4, calib_params=s.calib_params, calib_mutable=s.calib_mutable, **kw)
            ctx.fail(f"{what} accepted", kind)
        except (ValueError, AttributeError):
            ctx.ev()
        except Exception as e:  # noqa: BLE001
            ctx.fail(f"{what}: {type(e).__name__}", str(e))
