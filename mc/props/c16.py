"""C16 model state: running statistics advance once per training batch, in order, and only there; evaluation only reads them."""
import itertools
import shutil
import tempfile

import numpy as np

from .. import pm

ID = "C16"
LEVEL = "model_checking"
RULE = (
    "state = (parameters, running statistics, batches seen); models with batch normalization in the classifier, the mean model, the "
    "variance model or both, for every posterior approximation, number of points, batch size, epochs, accumulation, freezing, one or two "
    "devices, refitting and continuing; every sequence of batches is followed by an independent numpy model of the network and its statistics, and the "
    "statistics of every stored state compared with it; predictions of every batching of the data are compared with the network "
    "evaluated on each point alone; non-trivial = distinct configuration with at least two batches"
)
ASSUMPTIONS = ["steps of size zero keep the parameters at known values for the stochastic posteriors", "after multi-device training the statistics are the average over devices"]
ENV = {"XLA_FLAGS": "--xla_force_host_platform_device_count=2"}
KINDS = (("cls", True), ("reg", "mean"), ("reg", "var"), ("reg", "both"))


def units(tier):
    u = []
    sizes = ((1, 3), (2, 4), (3, 4), (4, 4)) if tier == "quick" else [(b, n) for n in (1, 2, 3, 4) for b in range(1, n + 1)]
    for kd, (bs, n) in itertools.product(range(4), sizes):
        for acc in (1, 2):
            u.append(("map", kd, bs, n, acc, 0.05))
        for name in pm.NAMES[1:]:
            if tier == "quick" and (bs, n) not in ((3, 4), (1, 3)):
                continue
            if tier == "quick" and kd in (1, 2) and (bs, n) == (1, 3):
                continue
            u.append(("post", kd, bs, n, name))
    u += [("again", kd, how) for kd in range(4) for how in ("twice", "continue", "validate", "freeze", "calibrate", "nojit")]
    u += [("devices", kd, bs, name, fr) for name in pm.NAMES for kd in range(4) for bs in (2, 4) for fr in (0, 1)
          if tier == "thorough" or ((kd, bs) in ((0, 4), (3, 2)) or name == "map") and not (name in ("sghmc", "sgld") and fr and kd)]
    u += [("eval", kd, i) for kd in range(4) for i in range(4)]
    return u


def train_ref(kind, w, stats, batches, epochs, lr, n, acc=1, trainable=None):
    """plain training, returns parameters and the statistics after every step"""
    import jax
    import jax.numpy as jnp

    def loss(w, stats, x, y):
        out, new = pm.forward(kind, w, stats, x, True, jnp)
        return -(n / len(x) * pm.log_lik(kind, out, y, jnp).sum() + pm.log_prior(w, jnp)), new

    vg = jax.jit(jax.grad(loss, has_aux=True))
    hist, g, k = [], None, 0
    for _ in range(epochs):
        for x, y in batches:
            gr, stats = vg(w, stats, x, y)
            stats = {k: np.array(v) for k, v in stats.items()}
            g = gr if g is None else {k: g[k] + gr[k] for k in g}
            k += 1
            if k % acc == 0:
                w = {p: np.array(v - lr * g[p] / acc) if trainable is None or p in trainable else v for p, v in w.items()}
                g = None
            hist.append(stats)
    return w, hist


def stats_of(state):
    f = pm.flat({k: v for k, v in state.mutable.items()}) if state.mutable is not None else {}
    return {k: np.array(v, float) for k, v in f.items() if not isinstance(v, dict) and np.size(v)}


def close(a, b, tol=2e-4):
    return set(a) == set(b) and all(np.allclose(a[k], b[k], rtol=tol, atol=tol) for k in b)


def show(d):
    return {str(k): np.round(v, 5).tolist() for k, v in d.items()}


def data(kind, n, bs):
    y = pm.YC if kind == "cls" else pm.YR
    return [(pm.X[i : min(i + bs, n)], y[i : min(i + bs, n)]) for i in range(0, n, bs)]


_N = [0]


def run_unit(u, ctx):
    import jax

    _N[0] += 1
    if _N[0] % 25 == 0:
        jax.clear_caches()
    globals()[u[0]](u, ctx)


def new(kd, name, **kw):
    kind, norm = KINDS[kd]
    m = pm.model(kind, name, norm=norm, **kw)
    w = pm.flat(m.joint.init(input_shape=(2,)).params)
    return kind, m, w


def map(u, ctx):
    import optax

    _, kd, bs, n, acc, lr = u
    for epochs in (1, 2, 3) if ctx.tier == "thorough" else (3,):
        kind, m, w = new(kd, "map")
        m.train(pm.loader(kind, bs, n), fit_config=pm.config(lr, epochs, devices=0, acc=acc))
        s = m.posterior.state.get()
        want, hist = train_ref(kind, w, pm.fresh_stats(w), data(kind, n, bs), epochs, lr, n, acc)
        ctx.state(len(hist))
        ctx.trans(len(hist))
        ctx.trace()
        if len(hist) > 1:
            ctx.nt((u, epochs))
        ctx.check(close(stats_of(s), hist[-1]), "map:stats", lambda: [u, epochs, show(stats_of(s)), show(hist[-1])])
        got = pm.flat(s.params)
        ctx.check(close(got, want, 1e-3), "map:params", lambda: [u, epochs, show(got), show(want)])


def post(u, ctx):
    _, kd, bs, n, name = u
    kw = {"sghmc": {"step_schedule": 0.0}, "sgld": {"init_step_size": 0.0}}.get(name, {})
    kind, m, w = new(kd, name, **kw)
    dl = pm.loader(kind, bs, n)
    pre = name in ("swag", "laplace")
    e = 4
    m.train(dl, fit_config=pm.config(0.0, e, devices=0), **({"map_fit_config": pm.config(0.0, 2, devices=0)} if pre else {}))
    total = (2 if pre else 0) + (e if name != "laplace" else 0)
    want, hist = train_ref(kind, w, pm.fresh_stats(w), data(kind, n, bs), total, 0.0, n)
    per = len(hist) // total
    ctx.state(len(hist))
    ctx.trans(len(hist))
    ctx.trace()
    ctx.nt(u)
    if name in ("sghmc", "sgld"):
        # a burn-in of one step; a cycle of four of which the first quarter explores
        at = [1, 2]
        states = [(m.posterior.state.get(i), hist[at[i]]) for i in range(2)]
    elif name == "ensemble":
        states = [(m.posterior.state.get(i), hist[-1]) for i in range(2)]
    else:
        states = [(m.posterior.state.get(), hist[-1])]
    for i, (s, h) in enumerate(states):
        ctx.check(close(stats_of(s), h), f"{name}:stats", lambda: [u, i, show(stats_of(s)), show(h), [show(x) for x in hist[:4]]])
    import jax

    for k in range(2):
        s = m.posterior.sample(rng=jax.random.PRNGKey(k), inputs_loader=dl.to_inputs_loader(), input_shape=(2,), prior_log_var=-60.0)
        ctx.check(any(close(stats_of(s), h) for _, h in states), f"{name}:sample", lambda: [u, show(stats_of(s))])
    # predictions read, and do not touch, the statistics
    if name in ("map", "ensemble"):
        check_eval(m, kind, w, states[0][1], data(kind, n, bs), ctx, u)


def check_eval(m, kind, w, stats, batches, ctx, u):
    x = np.concatenate([b[0] for b in batches])
    out, _ = pm.forward(kind, w, stats, x)
    from fortuna.data import DataLoader

    dl = DataLoader.from_iterable([list(b) for b in batches])
    got = np.array(m.predictive.mean(dl.to_inputs_loader(), n_posterior_samples=2, distribute=False))
    want = pm.softmax(out) if kind == "cls" else out[:, :1]
    ctx.ev()
    ctx.check(np.allclose(got, want, rtol=1e-3, atol=1e-4), "eval:mean", lambda: [u, got.tolist(), want.tolist()])
    lp = np.array(m.predictive.log_prob(dl, n_posterior_samples=2, distribute=False))
    y = np.concatenate([b[1] for b in batches])
    wl = pm.log_lik(kind, out, y)
    ctx.ev()
    ctx.check(np.allclose(lp, wl, rtol=1e-3, atol=1e-3), "eval:log_prob", lambda: [u, lp.tolist(), wl.tolist()])


def again(u, ctx):
    _, kd, how = u
    kind, m, w = new(kd, "map")
    bs, n, lr, e = 3, 4, 0.05, 2
    dl = pm.loader(kind, bs, n)
    B = data(kind, n, bs)
    S0 = pm.fresh_stats(w)
    tr = None
    if how == "twice":
        m.train(dl, fit_config=pm.config(lr, 3, devices=0))
        m.train(dl, fit_config=pm.config(lr, e, devices=0))
    elif how == "continue":
        m.train(dl, fit_config=pm.config(lr, e, devices=0))
        m.train(dl, fit_config=pm.config(lr, e, devices=0, start_from_current_state=True))
        e = 2 * e
    elif how == "validate":
        val = pm.loader(kind, 2, 3)
        m.train(dl, val_data_loader=val, fit_config=pm.config(lr, e, devices=0))
    elif how == "freeze":
        tr = [p for p in w if p[2] == "a"]
        m.train(dl, fit_config=pm.config(lr, e, pm.freezer(tr), devices=0))
    elif how == "calibrate":
        from fortuna.prob_model import CalibConfig, CalibMonitor, CalibOptimizer, CalibProcessor

        m.train(dl, calib_data_loader=pm.loader(kind, 2, 4), fit_config=pm.config(lr, e, devices=0),
                calib_config=CalibConfig(optimizer=CalibOptimizer(n_epochs=2), monitor=CalibMonitor(verbose=False), processor=CalibProcessor(devices=0)))
    else:
        m.train(dl, fit_config=pm.config(lr, e, devices=0, jit=False))
    want, hist = train_ref(kind, w, S0, B, e, lr, n, 1, tr)
    s = m.posterior.state.get()
    ctx.state(len(hist))
    ctx.trans(len(hist))
    ctx.trace()
    ctx.nt(u)
    ctx.check(close(stats_of(s), hist[-1]), f"{how}:stats", lambda: [u, show(stats_of(s)), show(hist[-1])])
    got = pm.flat(s.params)
    ctx.check(close(got, want, 1e-3), f"{how}:params", lambda: [u, show(got), show(want)])


def devices(u, ctx):
    import jax

    _, kd, bs, name, frozen = u
    assert jax.local_device_count() == 2
    kw = {"sghmc": {"step_schedule": 0.0}, "sgld": {"init_step_size": 0.0}}.get(name, {})
    kind, m, w = new(kd, name, **kw)
    e = 4
    pre = name in ("swag", "laplace")
    fr = pm.freezer([p for p in w if p[2] == "a"]) if frozen else None
    tmp = tempfile.mkdtemp()
    ck = dict(save_checkpoint_dir=tmp, dump_state=True, save_every_n_steps=2) if (frozen + bs // 2) % 2 else {}
    with pm.gpus():
        m.train(pm.loader(kind, bs, 4), fit_config=pm.config(0.0, e, fr, **ck), **({"map_fit_config": pm.config(0.0, 2)} if pre else {}))
    total = (2 if pre else 0) + (e if name != "laplace" else 0)
    halves = []
    for d in (0, 1):
        B = [(x[d * bs // 2 : (d + 1) * bs // 2], y[d * bs // 2 : (d + 1) * bs // 2]) for x, y in data(kind, 4, bs)]
        halves.append(train_ref(kind, w, pm.fresh_stats(w), B, total, 0.0, 4)[1])
    hist = [{k: (a[k] + b[k]) / 2 for k in a} for a, b in zip(*halves)]
    ctx.state(len(hist))
    ctx.trans(len(hist))
    ctx.trace()
    ctx.nt(u)
    if name in ("sghmc", "sgld"):
        at = [1, 2]
        states = [(m.posterior.state.get(i), hist[at[i]]) for i in range(2)]
    elif name == "ensemble":
        states = [(m.posterior.state.get(i), hist[-1]) for i in range(2)]
    else:
        states = [(m.posterior.state.get(), hist[-1])]
    for i, (s, h) in enumerate(states):
        ctx.check(close(stats_of(s), h), f"devices:{name}:stats", lambda: [u, i, show(stats_of(s)), show(h)])
    s = m.posterior.sample(rng=jax.random.PRNGKey(0), inputs_loader=pm.loader(kind, bs, 4).to_inputs_loader(), input_shape=(2,), prior_log_var=-60.0)
    got = pm.flat(s.params)
    ctx.check(close(got, w, 1e-3), f"devices:{name}:params", lambda: [u, show(got), show(w)])
    shutil.rmtree(tmp)


def compositions(n):
    return [c for r in range(1, n + 1) for c in itertools.product(range(1, n + 1), repeat=r) if sum(c) == n]


def eval(u, ctx):
    _, kd, i = u
    kind, m, w = new(kd, "map")
    m.train(pm.loader(kind, 3, 4), fit_config=pm.config(0.0, 2, devices=0))
    _, hist = train_ref(kind, w, pm.fresh_stats(w), data(kind, 4, 3), 2, 0.0, 4)
    y = pm.YC if kind == "cls" else pm.YR
    before = show(stats_of(m.posterior.state.get()))
    for c in compositions(4)[i::4]:
        cut = np.cumsum((0,) + c)
        B = [(pm.X[a:b], y[a:b]) for a, b in zip(cut, cut[1:])]
        ctx.state()
        ctx.trans(len(B))
        ctx.trace()
        ctx.nt((u, c))
        check_eval(m, kind, w, hist[-1], B, ctx, (u, c))
        ctx.check(show(stats_of(m.posterior.state.get())) == before, "eval:changed", lambda: [u, c])
