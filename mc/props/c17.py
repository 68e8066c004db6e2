"""C17 fits are isolated from each other: a configuration is read and never written, callbacks are called, fits do not interfere."""
import itertools

import numpy as np

from .. import pm

ID = "C17"
LEVEL = "exploration"
RULE = (
    "every ordered pair of posterior approximations fitted one after the other with default, with one shared and with separate "
    "configuration objects, against the second fit alone with fresh objects; every sequence (length two in the quick, three in the thorough check) "
    "of fit configurations on one model object, against the last one on a fresh object; every posterior, number of batches and epochs with "
    "user callbacks, against the documented event sequence; non-trivial = a pair of different fits, or a trace with several batches and epochs"
)
ASSUMPTIONS = ["initial parameters are constant, so a fit depends only on its configuration and data (the seed too, for the first fit of an object)"]
ALL = pm.NAMES + ("sngp",)


def build(name, seed=0):
    if name != "sngp":
        return pm.model("cls", name, seed=seed)
    import flax.linen as nn

    from fortuna.model.utils.spectral_norm import WithSpectralNorm
    from fortuna.prob_model import ProbClassifier
    from fortuna.prob_model.posterior.sngp.sngp_approximator import SNGPPosteriorApproximator

    class Net(WithSpectralNorm, nn.Module):
        @nn.compact
        def __call__(self, x, train=False, **kw):
            d = self.spectral_norm(nn.Dense, train=train)
            return nn.tanh(d(2, name="b", kernel_init=pm.pattern(0), bias_init=pm.pattern(1))(x.reshape(x.shape[0], -1)))

    return ProbClassifier(model=Net(), posterior_approximator=SNGPPosteriorApproximator(output_dim=2, gp_hidden_features=2), seed=seed)


def outcome(m, name):
    n = 2 if name in ("ensemble", "sghmc", "sgld") else 1
    out = []
    for i in range(n):
        s = m.posterior.state.get(i) if n > 1 else m.posterior.state.get()
        out.append(pm.flat(s.params))
        if s.mutable is not None:
            out.append(pm.flat(s.mutable))
        for f in ("mean", "std", "dev"):
            if getattr(s, f, None) is not None:
                v = getattr(s, f)
                out.append(pm.flat(v) if hasattr(v, "items") else {f: np.array(v)})
    return out


def equal(a, b, tol=0.0):
    return len(a) == len(b) and all(pm.same(x, y, tol) for x, y in zip(a, b))


def snap(fc):
    d = {}
    for s in ("optimizer", "checkpointer", "monitor", "processor", "hyperparameters"):
        for k, v in vars(getattr(fc, s)).items():
            d[s, k] = v
        d[s] = getattr(fc, s)
    d["callbacks"] = fc.callbacks
    d["list"] = None if fc.callbacks is None else tuple(fc.callbacks)
    return d


def unchanged(a, b):
    return [str(k) for k in set(a) | set(b) if not (k in a and k in b and (a[k] is b[k] or (k == "list" and a[k] == b[k])))]


class Log:
    """callback which writes down events"""

    def __new__(cls, log, tag=0, last=None):
        from fortuna.prob_model.fit_config.callback import FitCallback

        class C(FitCallback):
            def training_epoch_start(self, state):
                log.append((tag, "start"))
                return state

            def training_epoch_end(self, state):
                log.append((tag, "end"))
                if last is not None and sum(1 for e in log if e == (tag, "end")) % last == 0:
                    import jax

                    state = state.replace(params=jax.tree_util.tree_map(lambda x: x * 0 + 0.75, state.params))
                return state

            def training_step_end(self, state):
                log.append((tag, "step"))
                return state

        return C()


SEQ = ("plain", "freeze_a", "freeze_b", "acc", "clip", "lr", "few", "nojit")


def seq_fit(m, name, what):
    b, a = [[p for p in pm.PATHS["cls"] if p[2] == x] for x in "ba"]
    kw = dict(lr=0.1, epochs=3)
    n = 4
    if what == "freeze_a":
        kw["freeze"] = pm.freezer(b)
    elif what == "freeze_b":
        kw["freeze"] = pm.freezer(a)
    elif what == "acc":
        kw["acc"] = 2
    elif what == "clip":
        kw["clip"] = 0.05
    elif what == "lr":
        kw["lr"] = 0.3
    elif what == "few":
        n = 2
    elif what == "nojit":
        kw.update(jit=False, devices=0)
    pre = {} if name in ("map", "ensemble") else {"map_fit_config": pm.config(0.1, 1)}
    m.train(pm.loader("cls", n=n), fit_config=pm.config(**kw), **pre)
    return outcome(m, name)


def units(tier):
    u = []
    for a, b in itertools.product(ALL, ALL):
        u.append(("pair", a, b, "shared"))
    for a in ALL:
        for b in ("map", "ensemble") if tier == "quick" else ALL:
            u.append(("pair", a, b, "default"))
        u.append(("trace", a, 1, 4))
        u.append(("trace", a, 2, 3))
        u.append(("trace", a, 4, 3))
        if tier == "thorough":
            u += [("trace", a, k, e) for k in (1, 2, 3, 4) for e in (4, 5)]
    names = ("map", "ensemble", "advi", "swag", "laplace")
    for i, name in enumerate(names):
        for j, x in enumerate(SEQ):
            if tier == "thorough":
                u += [("seq", name, (x, y)) for y in SEQ]
            else:
                u.append(("seq", name, x, SEQ if name == "map" else SEQ[(i + j) % 3:: 3]))
    return u


_REF = {}


def run_unit(u, ctx):
    import jax

    if u[0] == "pair":
        return pair(u, ctx)
    if u[0] == "trace":
        return trace(u, ctx)
    if len(u) == 4:
        name, x, ys = u[1:]
        for y in ys:
            seq(name, (x, y), ctx)
    else:
        name, xs = u[1:]
        seq(name, xs, ctx)
        for y in SEQ:
            seq(name, xs + (y,), ctx)
    jax.clear_caches()


def seq(name, xs, ctx):
    m = build(name)
    for x in xs:
        got = seq_fit(m, name, x)
        ctx.trans()
    if (name, x) not in _REF:
        _REF[name, x] = seq_fit(build(name), name, x)
        ctx.trans()
    ctx.state()
    ctx.ev()
    if len(set(xs)) > 1:
        ctx.nt(("seq", name, xs))
    want = _REF[name, x]
    ctx.check(equal(got, want, 1e-5), f"seq:{name}", [name, xs, str(got)[:400], str(want)[:400]])


def fresh(kind):
    import optax

    from fortuna.prob_model.fit_config.base import FitConfig
    from fortuna.prob_model.fit_config.checkpointer import FitCheckpointer
    from fortuna.prob_model.fit_config.hyperparameters import FitHyperparameters
    from fortuna.prob_model.fit_config.monitor import FitMonitor
    from fortuna.prob_model.fit_config.optimizer import FitOptimizer
    from fortuna.prob_model.fit_config.processor import FitProcessor

    if kind == "default":
        o, mo = FitOptimizer(), FitMonitor()
    else:
        o, mo = FitOptimizer(method=optax.sgd(0.1), n_epochs=3), FitMonitor(verbose=False, disable_training_metrics_computation=True)
    return FitConfig(optimizer=o, checkpointer=FitCheckpointer(), monitor=mo, processor=FitProcessor(), hyperparameters=FitHyperparameters())


def pair(u, ctx):
    import logging

    _, a, b, mode = u
    dl = pm.loader("cls")
    pre = ("advi", "swag", "laplace")
    fit_kw = lambda name, fc, mfc: {**({"fit_config": fc} if fc is not None else {}), **({"map_fit_config": mfc} if name in pre and mfc is not None else {})}
    logging.disable(logging.WARNING)
    # the second fit alone, with configuration objects of its own
    m = build(b)
    m.train(dl, **fit_kw(b, fresh(mode), fresh(mode)))
    want = outcome(m, b)
    ctx.trans(3)
    ctx.state()
    ctx.ev()
    if a != b:
        ctx.nt(u)
    if mode == "default":
        from fortuna.prob_model.fit_config.base import FitConfig

        # Laplace needs a preliminary MAP; its configuration consists of default pieces
        build(a).train(dl, **({"map_fit_config": FitConfig()} if a in pre else {}))
        m = build(b)
        m.train(dl, **({"map_fit_config": FitConfig()} if b in pre else {}))
    else:
        fc, mfc = fresh(mode), fresh(mode)
        log = []
        fc.callbacks = [Log(log)]
        s, ms = snap(fc), snap(mfc)
        build(a).train(dl, **fit_kw(a, fc, mfc))
        m = build(b)
        bad = unchanged(s, snap(fc)) + unchanged(ms, snap(mfc))
        ctx.check(not bad, f"config:{a}", [u, bad])
        m.train(dl, **fit_kw(b, fc, mfc))
        bad = unchanged(s, snap(fc)) + unchanged(ms, snap(mfc))
        ctx.check(not bad, f"config:{b}", [u, bad])
    got = outcome(m, b)
    ctx.check(equal(got, want, 1e-5), f"interference:{mode}:{a}->{b}", [u, str(got)[:400], str(want)[:400]])
    import jax

    jax.clear_caches()


def trace(u, ctx):
    import jax

    _, name, nb, epochs = u
    n = 4
    bs = {1: 4, 2: 2, 3: 2, 4: 1}[nb]
    n = 4 if nb != 3 else 5
    dl = pm.loader("cls", bs=bs, n=min(n, 4))
    nb = len(dl)
    for ncb in (1, 2):
        log, mlog = [], []
        cbs = [Log(log, t) for t in range(ncb)]
        keep = list(cbs)
        mfc = pm.config(0.1, 1, callbacks=[Log(mlog, "m")])
        kw = {"map_fit_config": mfc} if name in ("advi", "swag", "laplace") else {}
        build(name).train(dl, fit_config=pm.config(0.05, epochs, callbacks=cbs), **kw)
        ev = lambda e, ts: [(t, e) for t in ts]
        ep = lambda ts: ev("start", ts) + ev("step", ts) * nb + ev("end", ts)
        want = ep(range(ncb)) * epochs * (2 if name == "ensemble" else 1)
        if name == "laplace":
            want = []  # there is no training other than the preliminary MAP
        ctx.state()
        ctx.ev()
        ctx.trans(len(want))
        if nb > 1:
            ctx.nt((u, ncb))
        ctx.check(log == want, f"callbacks:{name}", [u, ncb, log[:40], want[:40]])
        if kw:
            ctx.check(mlog == ep(["m"]), f"callbacks:{name}:map", [u, mlog[:40]])
        ctx.check(cbs == keep, f"callbacks:{name}:list", [u])
    if name in ("map", "ensemble", "sngp"):
        m = build(name)
        log = []
        m.train(dl, fit_config=pm.config(0.05, epochs, callbacks=[Log(log, 0, epochs)]))
        for i in range(2 if name == "ensemble" else 1):
            s = m.posterior.state.get(i) if name == "ensemble" else m.posterior.state.get()
            ctx.check(all(np.all(v == 0.75) for v in pm.flat(s.params).values()), f"callbacks:{name}:state", [u, i])
            ctx.ev()
    jax.clear_caches()
