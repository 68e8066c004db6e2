"""C28 Laplace: the posterior is the Gaussian of the diagonal generalized Gauss-Newton Hessian at the maximum, plus the prior."""
import itertools

import numpy as np

from mc import pm
from mc.props import c20

ID = "C28"
LEVEL = "exploration"
RULE = (
    "classification and regression at a known maximum x every subset of trainable leaves x isotropic and diagonal priors x with or without calibrator and normalization x all batchings of four points "
    "x one or two (simulated) devices; oracle: dense Jacobians and closed-form output Hessians; samples over 512 fixed keys whitened with the oracle precision; "
    "tuning of the prior: all assignments of validation scores to three grid points and the current value over a two-letter alphabet, all batchings and devices; "
    "non-trivial = an instance with both trainable and frozen leaves, or a tuning whose best candidate is not the first"
)
ASSUMPTIONS = ["floating-point tolerance 1e-3", "moments of 512 whitened draws within 0.25 (five standard deviations)"]
ENV = {"XLA_FLAGS": "--xla_force_host_platform_device_count=2"}
TEMP = 0.375


def build(kind, norm, calib, prior):
    from fortuna.prob_model import ProbClassifier, ProbRegressor
    from fortuna.prob_model.prior.gaussian import DiagonalGaussianPrior, IsotropicGaussianPrior

    off = {} if calib else {"output_calibrator": None}
    n = sum(v.size for v in start(kind, norm).values())
    off["prior"] = IsotropicGaussianPrior(log_var=prior) if prior != "diag" else DiagonalGaussianPrior(log_var=np.asarray(diag(n), "float32"))
    a = pm.approximator("laplace")
    if kind == "cls":
        return ProbClassifier(model=pm.mlp(2, norm=norm), posterior_approximator=a, **off)
    return ProbRegressor(model=pm.mlp(1, norm=norm), likelihood_log_variance_model=pm.mlp(1, 3, ("v",)), posterior_approximator=a, **off)


def diag(n):
    return ((np.arange(n) * 5) % 7 - 3.0) / 4


def start(kind, norm):
    w = pm.initial(kind)
    if norm:
        w[("model", "params", "nb", "scale")] = np.array([1.5, 0.75], "float32")
        w[("model", "params", "nb", "bias")] = np.array([-0.25, 0.5], "float32")
    return w


def state(m, kind, norm, calib):
    """A MAP state with known parameters, running statistics and calibration."""
    import optax
    from flax.core import FrozenDict
    from fortuna.prob_model.posterior.map.map_state import MAPState

    js = m.joint.init(input_shape=(2,))
    mut = js.mutable
    if norm:
        mut = FrozenDict({**{k: mut[k] for k in mut}, "model": pm.unflat(c20.stats(0))["model"]})
    calib_params = FrozenDict({"output_calibrator": {"params": {"log_temp": np.array([TEMP], "float32")}}}) if calib else js.calib_params
    return MAPState.init(params=pm.unflat(start(kind, norm)), mutable=mut, optimizer=optax.sgd(0.1), calib_params=calib_params, calib_mutable=js.calib_mutable)


def outputs(kind, norm, calib, w, x, xp):
    o, _ = pm.forward(kind, w, c20.stats(0) if norm else {}, x, xp=xp)
    if calib:
        o = o * np.exp(-TEMP) if kind == "cls" else xp.concatenate([o[:, :1], o[:, 1:] + TEMP], -1)
    return o


def hessian(kind, norm, calib, y):
    """diagonal of sum_i J_i^T (-d^2 log p / d o^2) J_i for each leaf."""
    import jax
    import jax.numpy as jnp

    w = {k: jnp.asarray(v) for k, v in start(kind, norm).items()}
    f = lambda w: outputs(kind, norm, calib, w, jnp.asarray(pm.X), jnp)
    o = np.array(f(w), "float64")
    if kind == "cls":
        p = np.array([pm.softmax(r) for r in o])
        lam = np.array([np.diag(q) - np.outer(q, q) for q in p])
    else:
        r, e = y[:, 0] - o[:, 0], np.exp(-o[:, 1])
        lam = np.array([[e, r * e], [r * e, 0.5 * r * r * e]]).transpose(2, 0, 1)
    J = jax.jacfwd(f)(w)
    return {k: np.einsum("nap,nab,nbp->p", j, lam, j).reshape(w[k].shape) for k, j in ((k, np.array(v, "float64").reshape(4, 2, -1)) for k, v in J.items())}


def fitted(m, kind, norm, calib, trainable, comp, devices):
    import contextlib

    from fortuna.prob_model.posterior.posterior_state_repository import PosteriorStateRepository

    m.posterior.state = PosteriorStateRepository(None)
    m.posterior.state.put(state(m, kind, norm, calib))
    freeze = None if trainable is None else pm.freezer(trainable)
    with pm.gpus() if devices > 1 else contextlib.nullcontext():
        m.train(train_data_loader=data(kind, comp), fit_config=pm.config(freeze=freeze, start_from_current_state=True))
    return m.posterior.state.get()


def data(kind, comp):
    from fortuna.data import DataLoader

    y = pm.YC if kind == "cls" else pm.YR
    return DataLoader.from_iterable([(pm.X[s], y[s]) for s in c20.cuts(comp)])


def ggn(u, ctx):
    import jax

    _, kind, norm, calib, prior, trainable, comps, devices = u
    w = start(kind, norm)
    order = sorted(w)
    want = hessian(kind, norm, calib, pm.YR if kind == "reg" else pm.YC)
    lv = dict(zip(order, np.split(diag(sum(v.size for v in w.values())), np.cumsum([w[k].size for k in order])[:-1]))) if prior == "diag" else {k: np.full(w[k].size, prior) for k in order}
    m = build(kind, norm, calib, prior)
    free = set(order if trainable is None else trainable)
    for comp in comps:
        tag = f"{kind}:norm{int(norm)}:calib{int(calib)}:{prior}:{'all' if trainable is None else 'some'}:{devices}"
        s = fitted(m, kind, norm, calib, trainable, comp, devices)
        got = pm.flat(s.params)
        ctx.ev(); ctx.state(); ctx.trans()
        if 0 < len(free) < len(order):
            ctx.nt((u[:6], comp))
        # the state: means and Hessians of the trainable leaves, the others as they were
        # stored as (.., 'mean') and (.., 'hess_lik_diag') at the leaf, or below 'params' without freezing
        mean, hess = {}, {}
        for k, v in got.items():
            if "hess_lik_diag" in k:
                hess[tuple(a for a in k if a != "hess_lik_diag")] = v
            else:
                mean[tuple(a for a in k if a != "mean")] = v
        ctx.check(pm.same(mean, w), f"mean:{tag}", lambda: f"{u} {comp}: means differ from the maximum")
        ctx.check(set(hess) == free, f"leaves:{tag}", lambda: f"{u}: Hessian for {sorted(hess)}")
        bad = [k for k in free & set(hess) if hess[k].shape != w[k].shape or np.abs(hess[k] - want[k]).max() > 1e-3 * (1 + np.abs(want[k]).max())]
        ctx.check(not bad, f"hessian:{tag}", lambda: f"{u} batches {comp}: Hessian of {bad[0]} is {hess[bad[0]].tolist()}, expected {want[bad[0]].tolist()}")
    # samples are Gaussian with that precision
    keys = jax.random.split(jax.random.PRNGKey(5), 512)
    draw = jax.jit(jax.vmap(lambda k: m.posterior.sample(rng=k, inputs=pm.X).params))(keys)
    d = pm.flat(draw)
    ctx.ev(); ctx.trace()
    if not ctx.check(set(d) == set(order), f"sample:leaves:{tag}", sorted(d)):
        return
    z = []
    for k in order:
        r = (d[k] - w[k]).reshape(512, -1)
        if k in free:
            z.append(r * np.sqrt(np.exp(-lv[k]) + want[k].ravel()))
        else:
            ctx.check(not r.any(), f"sample:frozen:{tag}", lambda: f"{u}: samples move the frozen {k}")
    z = np.concatenate(z, 1) if z else np.zeros((512, 0))
    if z.size:
        ctx.check(bool(np.all(np.abs(z.mean(0)) < 0.25)), f"sample:mean:{tag}", lambda: f"{u}: means of whitened draws {z.mean(0)}")
        ctx.check(bool(np.all(np.abs(z.std(0) - 1) < 0.2)), f"sample:std:{tag}", lambda: f"{u}: standard deviations of whitened draws {z.std(0)}")
        c = np.corrcoef(z.T) - np.eye(z.shape[1]) if z.shape[1] > 1 else np.zeros((1, 1))
        ctx.check(bool(np.all(np.abs(c) < 0.25)), f"sample:corr:{tag}", lambda: f"{u}: correlations of draws up to {np.abs(c).max()}")
    ctx.sample(f"{tag}: trainable {sorted(free)}")


def tuning(u, ctx):
    """the tuned prior variance is the candidate with the best validation score; fits use it."""
    import contextlib

    import jax.numpy as jnp

    _, kind, prior, dist, devices, n_grid = u
    m = build(kind, False, False, prior)
    fitted(m, kind, False, False, None, (4,), 1)
    n = sum(v.size for v in start(kind, False).values())
    cur = diag(n) if prior == "diag" else np.float64(prior)
    cands = list(np.linspace(-3, 3, n_grid)) + [cur]
    real = m.posterior._batched_log_prob
    first = lambda c: float(np.ravel(c)[0])
    table = None

    def score(batch, lpv, n_posterior_samples=1, rng=None, **kw):
        # stands for the log-probability of the batch: depends on the prior and on the points
        l = jnp.ravel(jnp.asarray(lpv))[0]
        s = sum(jnp.where(jnp.abs(l - first(c)) < 1e-4, float(t), 0.0) for c, t in zip(cands, table))
        return s * jnp.ones(batch[1].shape[0]) + jnp.sum(batch[0], -1)

    comps = c20.BATCHES if dist is False else [(4,), (2, 2)]
    for table in itertools.product((0, 1), repeat=len(cands)):
        for comp in comps[: 2 if sum(table) != 1 else None]:
            # a new function each time, as compiled code is cached by function
            m.posterior._batched_log_prob = lambda *a, **k: score(*a, **k)
            try:
                with pm.gpus() if devices > 1 else contextlib.nullcontext():
                    got = m.posterior.prior_log_variance_tuning(val_data_loader=data(kind, comp), n_posterior_samples=2, grid_size=n_grid, distribute=dist)
                got = np.array(got)
            except Exception as e:
                got = e
            m.posterior._batched_log_prob = real
            ctx.ev(); ctx.state(); ctx.trans(len(cands))
            if table[0] < max(table):
                ctx.nt((u, table, comp))
            ok = not isinstance(got, Exception) and any(t == max(table) and got.shape == np.shape(c) and np.allclose(got, c, atol=1e-5) for c, t in zip(cands, table))
            ctx.check(ok, f"tuning:{'diag' if prior == 'diag' else 'iso'}:{'distributed' if dist else 'plain'}:{devices}",
                      lambda: f"{u}, scores {dict(zip(map(str, cands), table))}, batches {comp}: {got!r:.300}")
    # a fit with validation data stores the tuned value, and samples use it
    m.posterior.posterior_approximator.tune_prior_log_variance = True
    m.posterior.prior_log_variance_tuning = lambda **k: jnp.array(1.5)
    try:
        m.train(train_data_loader=data(kind, (2, 2)), val_data_loader=data(kind, (2, 2)), fit_config=pm.config(start_from_current_state=True))
        got = float(m.posterior.state.get().prior_log_var)
    except Exception as e:
        got = repr(e)[:200]
    ctx.ev()
    ctx.check(got == 1.5, f"tuning:used:{kind}", f"stored prior log-variance {got}")
    del m.posterior.prior_log_variance_tuning
    # end to end: the real score
    m = build(kind, False, False, prior)
    m.posterior.posterior_approximator.tune_prior_log_variance = True
    m.posterior.state = None
    try:
        from fortuna.prob_model.posterior.posterior_state_repository import PosteriorStateRepository

        m.posterior.state = PosteriorStateRepository(None)
        m.posterior.state.put(state(m, kind, False, False))
        with pm.gpus() if devices > 1 else contextlib.nullcontext():
            m.train(train_data_loader=data(kind, (2, 2)), val_data_loader=data(kind, (2, 2)), fit_config=pm.config(start_from_current_state=True, devices=-1 if dist else 0))
        got = np.array(m.posterior.state.get().prior_log_var)
        ok = any(got.shape == np.shape(c) and np.allclose(got, c, atol=1e-4) for c in list(np.linspace(-3, 3, 20)) + [cur])
    except Exception as e:
        got, ok = e, False
    ctx.ev()
    ctx.check(ok, f"tuning:fit:{'diag' if prior == 'diag' else 'iso'}:{'distributed' if dist else 'plain'}:{devices}", lambda: f"{u}: {got!r:.300}")


def subsets(kind, norm, tier):
    w = sorted(start(kind, norm))
    out = [None] + [tuple(k for k, b in zip(w, bits) if b) for bits in itertools.product((0, 1), repeat=len(w)) if any(bits)]
    if tier == "quick" and len(w) > 4:
        out = out[:1] + [s for s in out[1:] if len(s) in (1, len(w) - 1)]
    # the freeze function lists paths in the order of the tree: also with one device and one order only
    return out


def units(tier):
    q = tier == "quick"
    out = []
    for kind in ("cls", "reg"):
        for norm, calib, prior in itertools.product((False, True), (False, True), (0.5, -1.0, "diag")):
            base = not norm and not calib
            if q and not base and prior == -1.0:
                continue
            subs = subsets(kind, norm, tier)
            if not base:
                subs = [None, tuple(k for k in sorted(start(kind, norm)) if k[-1] == "kernel"), subs[2]] if q else subs
            elif q and prior != "diag":
                subs = subs[::2]
            for t in subs:
                comps = c20.BATCHES if t is None else [(4,), (1, 2, 1)]
                out.append(("ggn", kind, norm, calib, prior, t, tuple(comps), 1))
            out.append(("ggn", kind, norm, calib, prior, None if base else subs[1], ((4,), (2, 2)), 2))
        for prior in (0.5, "diag"):
            for dist, dev in ((False, 1), (True, 2)):
                out.append(("tuning", kind, prior, dist, dev, 2 if q else 4))
    return out


def run_unit(u, ctx):
    import jax

    {"ggn": ggn, "tuning": tuning}[u[0]](u, ctx)
    run_unit.n = getattr(run_unit, "n", 0) + 1
    if run_unit.n % 10 == 0:
        jax.clear_caches()
