"""C22 calibration: gradient descent on the calibration parameters only, then used by every prediction."""
import itertools
import tempfile

import numpy as np

from mc import pm
from mc.props import c20

ID = "C22"
LEVEL = "exploration"
RULE = (
    "probabilistic models with two known members x temperature scaling or a calibrator with running state x compositions of the calibration data in batches x validation data x "
    "jit, no jit or two devices; output calibration models and calibration models x losses x calibrator or frozen parts x the same modes; all quantities (parameters, running state, "
    "losses and metrics of every epoch, predictions afterwards) must be those of plain gradient descent with an independent gradient, for one mixture of members (all count vectors "
    "enumerated), and nothing else may change; non-trivial = a calibration which changes predictions"
)
ASSUMPTIONS = ["floating-point tolerance 5e-4", "the members used for the whole calibration set, and for the whole validation set, are one draw each",
               "metrics of an ensemble are those of its average calibrated outputs", "with several devices the loss, and validation metrics of calibration models, are averages over devices of those of their parts"]
ENV = {"XLA_FLAGS": "--xla_force_host_platform_device_count=2"}

LR, TOL = 0.05, 5e-4
MODES = ("jit", "nojit", "gpus")
COMPS = [(4,), (2, 2), (1, 3), (3, 1), (1, 1, 2)]


def units(tier):
    u = []
    for kind, cal, mode in itertools.product(("cls", "reg"), ("temp", "run"), MODES):
        for comp in COMPS:
            if mode == "gpus" and any(b % 2 for b in comp):
                continue
            for val in (None, (2, 2)) if mode == "gpus" else (None, (4,), (3, 1)):
                if tier == "quick" and (mode == "nojit" and comp != (1, 3) or comp in ((3, 1), (1, 1, 2)) and val != (3, 1) or comp == (1, 3) and val == (4,)):
                    continue
                for S in (1, 3) if tier == "thorough" else (3,):
                    u.append(["prob", kind, cal, mode, comp, val, S])
    for kind, cal, mode, val in itertools.product(("cls", "reg"), ("temp", "run"), MODES, (0, 1)):
        for loss in (None, "other"):
            u.append(["out", kind, cal, mode, val, loss])
    for kind, norm, mode, loss in itertools.product(("cls", "reg"), (0, 1), MODES, (None, "other")):
        for fr in (0, 1):
            if tier == "quick" and (mode == "nojit" and fr or loss and fr):
                continue
            u.append(["model", kind, norm, mode, loss, fr])
    u += [["ckpt", kind, name, a, b] for kind in ("cls", "reg") for name in ("map", "ensemble") for a, b in (((1, 2), (2, 1)) if tier == "quick" else itertools.product((1, 2, 3), (1, 2)))]
    u += [["early", what, v] for what, v in itertools.product(("out", "prob"), range(3))]
    u += [["refuse", k] for k in ("cls", "reg")]
    return u


_N = [0]


def run_unit(u, ctx):
    import jax

    _N[0] += 1
    if _N[0] % 25 == 0:
        jax.clear_caches()
    globals()[u[0]](u, ctx)


# ---- the two calibrators; state is a vector, parameter a scalar
def running(kind, d):
    import flax.linen as nn
    import jax.numpy as jnp

    class Running(nn.Module):
        """Centres its inputs with a running mean, then rescales."""

        @nn.compact
        def __call__(self, x, train=False, **kw):
            first = not self.has_variable("state", "shift")
            a = self.param("log_temp", nn.initializers.zeros, (1,))
            s = self.variable("state", "shift", lambda: jnp.zeros(x.shape[-1]))
            if train and not first:
                s.value = 0.5 * s.value + 0.5 * x.mean(0)
            x = x - s.value
            if x.shape[-1] == 2 * (x.shape[-1] // 2) and kind == "reg":
                m, v = jnp.split(x, 2, -1)
                return jnp.concatenate([m, v + a], -1)
            return x * jnp.exp(-a)

    return Running()


def g(kind, cal, phi, s, o, train, xp):
    """Calibrated outputs and advanced state of one member."""
    if cal == "run":
        if train:
            s = 0.5 * s + 0.5 * o.mean(0)
        o = o - s
    if kind == "cls":
        return o * xp.exp(-phi), s
    m, v = xp.split(o, 2, -1)
    return xp.concatenate([m, v + phi], -1), s


def mix_loss(kind, cal, phi, s, outs, y, n, train, xp):
    """-log of the average over members of the likelihood of the data, from a batch."""
    js, ss, os = [], [], []
    for o in outs:
        c, t = g(kind, cal, phi, s, o, train, xp)
        js.append(n / len(o) * pm.log_lik(kind, c, y, xp).sum())
        ss.append(t)
        os.append(c)
    j = xp.stack(js)
    m = j.max()
    return -(m + xp.log(xp.exp(j - m).mean())), (xp.stack(ss).mean(0), xp.stack(os).mean(0))


def metric(preds, uncertainties, targets):
    """Not symmetric in the points, linear in the uncertainties, depends on predictions and targets."""
    import jax.numpy as jnp

    return metric_def(preds, uncertainties, targets, jnp)


def metric_def(p, u, y, xp):
    p, u, y = xp.asarray(p), xp.asarray(u), xp.asarray(y)
    assert len(p) == len(y) == len(u) and p.shape == y.shape, "shape"
    k = xp.arange(1, len(p) + 1)
    return (k * (u.reshape(len(u), -1) @ xp.arange(1, u.size // len(u) + 1))).sum() / len(p) + xp.abs(p - y).sum() * 0.5


metric.__name__ = "metric"


def summary(kind, o):
    """predictions and uncertainties of outputs, by definition"""
    if kind == "cls":
        return o.argmax(-1), pm.softmax(o)
    return o[..., : o.shape[-1] // 2], np.exp(o[..., o.shape[-1] // 2 :])


def grads(fn):
    import jax

    return jax.jit(jax.value_and_grad(fn, has_aux=True), static_argnums=())


def near(a, b, tol=TOL):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def parts(mode, *arrays):
    """what each device sees, for arrays whose points are the given axis"""
    k = 2 if mode == "gpus" else 1
    return [tuple(np.array_split(a, k, axis=ax)[i] for a, ax in arrays) for i in range(k)]


_VG = {}


def descend(kind, cal, mode, phi, s, batches, n, epochs, val, nval, sync=False):
    """Reference. batches: [(outs (S,b,d), y)]; returns history of (phi, s) and of losses and metrics."""
    import jax
    import jax.numpy as jnp

    key = (kind, cal)
    if key not in _VG:
        _VG[key] = jax.jit(jax.value_and_grad(lambda phi, s, o, y, n: mix_loss(kind, cal, phi, s, o, y, n, True, jnp), has_aux=True))
    vg = _VG[key]
    k = 2 if mode == "gpus" else 1
    ss = [s] * k
    st = {"loss": [], "metric": [], "val_loss": [], "val_metric": []}
    for _ in range(epochs):
        ls, ms = [], []
        for outs, y in batches:
            res = [vg(phi, ss[i], *p, float(n)) for i, p in enumerate(parts(mode, (outs, 1), (y, 0)))]
            o = np.concatenate([np.array(r[0][1][1]) for r in res])
            ls.append(np.mean([r[0][0] for r in res]))
            ms.append(metric_def(*summary(kind, o), y, np))
            phi = phi - LR * np.mean([np.array(r[1]) for r in res], 0)
            ss = [np.array(r[0][1][0]) for r in res]
        st["loss"].append(np.mean(ls)), st["metric"].append(np.mean(ms))
        if val or sync:
            ss = [np.mean(ss, 0)] * k
        if val:
            ls, ms = [], []
            for outs, y in val:
                res = [mix_loss(kind, cal, phi, ss[0], *p, nval, False, np) for p in parts(mode, (outs, 1), (y, 0))]
                o = np.concatenate([r[1][1] for r in res])
                ls.append(np.mean([r[0] for r in res]))
                ms.append(metric_def(*summary(kind, o), y, np))
            st["val_loss"].append(np.mean(ls)), st["val_metric"].append(np.mean(ms))
    return phi, np.mean(ss, 0), {k: v for k, v in st.items() if v}


def mode_kw(mode):
    return dict(devices=-1 if mode == "gpus" else 0, disable_jit=mode == "nojit")


def on(mode):
    import contextlib

    return pm.gpus() if mode == "gpus" else contextlib.nullcontext()


def prob_model(kind, cal):
    from fortuna.prob_model import ProbClassifier, ProbRegressor

    a = pm.approximator("ensemble")
    kw = {} if cal == "temp" else {"output_calibrator": running(kind, 0)}
    if kind == "cls":
        m = ProbClassifier(model=pm.mlp(3, norm=True), posterior_approximator=a, **kw)
    else:
        m = ProbRegressor(model=pm.mlp(1, norm=True), likelihood_log_variance_model=pm.mlp(1, 3, ("v",)), posterior_approximator=a, **kw)
    m.train(train_data_loader=c20.data(kind, (4,)), fit_config=pm.config(lr=0.0, epochs=1))
    raw = []
    for i in range(2):
        w, st = c20.weights(kind, i), c20.stats(i)
        put(m, kind, i, w, st)
        raw.append(pm.forward(kind, {k: v.astype("float64") for k, v in w.items()}, st, pm.X.astype("float64"))[0])
    return m, np.array(raw)


def put(m, kind, i, w, st):
    from flax.core import FrozenDict

    s = m.posterior.state.get(i)
    mut = pm.unflat(dict(st))
    if kind == "reg":
        mut = FrozenDict({**{k: s.mutable[k] for k in s.mutable}, "model": mut["model"]})
    m.posterior.state.put(state=s.replace(params=pm.unflat(w), mutable=mut), i=i)


def prob(u, ctx):
    import optax

    from fortuna.prob_model.calib_config.base import CalibConfig
    from fortuna.prob_model.calib_config.monitor import CalibMonitor
    from fortuna.prob_model.calib_config.optimizer import CalibOptimizer
    from fortuna.prob_model.calib_config.processor import CalibProcessor

    _, kind, cal, mode, comp, vcomp, S = u
    m, raw = prob_model(kind, cal)
    y = c20.YC if kind == "cls" else pm.YR
    before = [snapshot(m.posterior.state.get(i)) for i in range(2)]
    epochs = 3 if mode != "nojit" else 2
    cfg = CalibConfig(
        optimizer=CalibOptimizer(method=optax.sgd(LR), n_epochs=epochs),
        monitor=CalibMonitor(metrics=(metric,), verbose=False),
        processor=CalibProcessor(n_posterior_samples=S, **mode_kw(mode)),
    )
    ctx.state()
    try:
        with on(mode):
            status = m.calibrate(c20.data(kind, comp), calib_config=cfg, val_data_loader=c20.data(kind, vcomp) if vcomp else None)
    except Exception as e:
        return ctx.fail(f"crash-{kind}-{cal}-{mode}", f"calibrating {u[1:]} raised {type(e).__name__}: {str(e)[:300]}")
    ctx.trans(epochs * len(comp))
    ctx.ev(2)
    members = [m.posterior.state.get(i) for i in range(2)]
    for i, s in enumerate(members):
        ctx.check(same(snapshot(s), before[i]), "touched", f"{u[1:]}: calibration changed parameters or running statistics of member {i}")
        ctx.check(near(phi_of(s.calib_params), phi_of(members[0].calib_params)), "members", f"{u[1:]}: members are calibrated differently")
    # which members were drawn: every pair of count vectors
    got = {k: np.array(v, float) for k, v in status.items()}
    phi, shift = phi_of(members[0].calib_params), shift_of(members[0].calib_mutable)
    s0 = np.zeros(raw.shape[-1])
    ok, ref, who = False, None, None
    for k in range(S + 1):
        outs = raw[[0] * k + [1] * (S - k)]
        batches = [(outs[:, c], y[c]) for c in c20.cuts(comp)]
        ref = descend(kind, cal, mode, np.zeros(1), s0, batches, 4, epochs, None, None, vcomp is not None)
        if near(phi, ref[0]) and all(near(got.get(q, 0), ref[2][q]) for q in ("loss", "metric")) and (cal == "temp" or near(shift, ref[1])):
            ok, who = True, k
            break
    detail = f"{u[1:]}: log temperature {phi.tolist()}, state {None if shift is None else np.round(shift, 4).tolist()}, status { {k: v.tolist() for k, v in got.items()} }"
    ctx.check(ok, "path", detail + f" are not those of gradient descent for any mixture of members; both members give {ref[0].tolist()}, {np.round(ref[1], 4).tolist()}, { {k: np.round(v, 5).tolist() for k, v in ref[2].items()} }")
    want = {"loss", "metric"} | ({"val_loss", "val_metric"} if vcomp else set())
    ctx.check(set(got) == want, "status-keys", f"{u[1:]}: status has {sorted(got)} instead of {sorted(want)}")
    if ok and vcomp and set(got) == want:
        outs = raw[[0] * who + [1] * (S - who)]
        batches = [(outs[:, c], y[c]) for c in c20.cuts(comp)]
        refs = []
        for k in range(S + 1):
            vo = raw[[0] * k + [1] * (S - k)]
            refs.append(descend(kind, cal, mode, np.zeros(1), s0, batches, 4, epochs, [(vo[:, c], y[c]) for c in c20.cuts(vcomp)], 4)[2])
        ctx.check(any(all(near(got[q], r[q]) for q in ("val_loss", "val_metric")) for r in refs), "validation",
                  f"{u[1:]}: validation { {k: got[k].tolist() for k in ('val_loss', 'val_metric')} } is that of no mixture: { [{k: np.round(r[k], 5).tolist() for k in ('val_loss', 'val_metric')} for r in refs] }")
    # predictions use the calibration
    if ok:
        phi, shift = ref[0], ref[1]
        cands = [g(kind, cal, phi, shift, o, False, np)[0] for o in raw]
        p = np.array(m.predictive.mean(c20.inputs((4,)), n_posterior_samples=4, distribute=False), float)
        ms = [c20.stat(kind, "mean", np.array([cands[0]] * k + [cands[1]] * (4 - k)), y) for k in range(5)]
        ctx.check(any(near(p, q) for q in ms), "predictions", f"{u[1:]}: predictive means after calibration are {p.tolist()}, not of any mixture of calibrated members")
        ctx.ev()
        if 0 < who < S or S == 1:
            ctx.nt(("prob", kind, cal, mode))


def phi_of(p):
    return np.array(p["output_calibrator"]["params"]["log_temp"], float)


def shift_of(mut):
    if mut is None or mut["output_calibrator"] is None:
        return None
    d = pm.flat({"x": mut["output_calibrator"]})
    return np.array(d[("x", "state", "shift")], float) if ("x", "state", "shift") in d else np.full(1, np.nan)


def snapshot(s):
    d = {("p",) + k: v for k, v in pm.flat(s.params).items()}
    d.update({("m",) + k: v for k, v in pm.flat({k: v for k, v in s.mutable.items() if v}).items()})
    return d


def same(a, b):
    return set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in b)


# ---- output calibration models
OC = np.array([[2.0, -0.5, 0.3], [0.1, 1.7, -1.0], [-0.4, 0.2, 0.9], [1.1, 0.8, -0.6], [-1.5, 2.5, 0.0], [0.3, -0.2, 1.4]])
OR = np.array([[0.4, -1.0], [-0.8, 0.5], [0.1, -0.3], [1.4, 0.2], [0.0, -2.0], [-1.1, 1.0]])
TC = np.array([0, 1, 0, 2, 2, 1])
TR = np.array([[0.9], [-0.2], [0.3], [1.0], [-0.5], [-1.3]])


def loss_def(kind, which, o, y, xp):
    if kind == "cls":
        lp = pm.log_lik("cls", o, y, xp)
        return -(lp if which else (1 - xp.exp(lp)) ** 2 * lp).mean()
    m, v = xp.split(o, 2, -1)
    if which:
        return (xp.abs(y - m) * xp.exp(-v) + 2 * v).mean()
    return (xp.exp(-v) * (y - m) ** 2 + v).sum(-1).mean()


def loss_arg(kind, which):
    import jax.numpy as jnp

    if which is None:
        return {}
    if kind == "cls":
        from fortuna.loss.classification import cross_entropy_loss_fn

        return {"loss_fn": cross_entropy_loss_fn}
    return {"loss_fn": lambda o, y: loss_def(kind, which, o, y, jnp)}


def other_config(pkg, mode, epochs, freeze=None, metrics=(metric,), **ck):
    import importlib

    import optax

    mod = lambda n: importlib.import_module(f"fortuna.{pkg}.config.{n}")
    kw = {"freeze_fun": freeze} if pkg == "calib_model" else {}
    return mod("base").Config(
        optimizer=mod("optimizer").Optimizer(method=optax.sgd(LR), n_epochs=epochs, **kw),
        monitor=mod("monitor").Monitor(metrics=metrics, verbose=False),
        processor=mod("processor").Processor(**mode_kw(mode)),
        checkpointer=mod("checkpointer").Checkpointer(**ck),
    )


def out(u, ctx):
    import jax
    import jax.numpy as jnp

    from fortuna.output_calib_model import OutputCalibClassifier, OutputCalibRegressor

    _, kind, cal, mode, val, which = u
    O, T = (OC, TC) if kind == "cls" else (OR, TR)
    cls = OutputCalibClassifier if kind == "cls" else OutputCalibRegressor
    kw = {} if cal == "temp" else {"output_calibrator": running(kind, 0)}
    epochs = 3 if mode != "nojit" else 2
    with tempfile.TemporaryDirectory(prefix="mc22.") as d:
        m = cls(**kw)
        vkw = dict(val_outputs=jnp.asarray(O[::-1][:4], "float32"), val_targets=jnp.asarray(T[::-1][:4])) if val else {}
        try:
            with on(mode):
                status = m.calibrate(calib_outputs=jnp.asarray(O, "float32"), calib_targets=jnp.asarray(T), config=other_config(
                    "output_calib_model", mode, epochs, save_checkpoint_dir=d, dump_state=True), **vkw, **loss_arg(kind, which))
        except Exception as e:
            return ctx.fail(f"crash-out-{kind}-{cal}-{mode}", f"calibrating outputs {u[1:]} raised {type(e).__name__}: {str(e)[:300]}")
        ctx.state(), ctx.trans(epochs), ctx.ev(2)
        # reference
        def fn(phi, s, o, y):
            c, t = g(kind, cal, phi, s, o, True, jnp)
            return loss_def(kind, which, c, y, jnp), (t, c)

        vg = jax.jit(jax.value_and_grad(fn, has_aux=True))
        k = 2 if mode == "gpus" else 1
        phi, ss = np.zeros(1), [np.zeros(O.shape[1])] * k
        st = {"loss": [], "metric": [], "val_loss": [], "val_metric": []}
        for _ in range(epochs):
            res = [vg(phi, ss[i], *p) for i, p in enumerate(parts(mode, (O, 0), (T, 0)))]
            o = np.concatenate([np.array(r[0][1][1], float) for r in res])
            st["loss"].append(np.mean([r[0][0] for r in res])), st["metric"].append(metric_def(*summary(kind, o), T, np))
            phi = phi - LR * np.mean([np.array(r[1], float) for r in res], 0)
            ss = [np.array(r[0][1][0], float) for r in res]
            if val:
                ss = [np.mean(ss, 0)] * k
                vo, vt = O[::-1][:4], T[::-1][:4]
                c = g(kind, cal, phi, ss[0], vo, False, np)[0]
                st["val_loss"].append(np.mean([loss_def(kind, which, *p, np) for p in parts(mode, (c, 0), (vt, 0))]))
                st["val_metric"].append(metric_def(*summary(kind, c), vt, np))
        s, st = np.mean(ss, 0), {k: v for k, v in st.items() if v}
        got = {k: np.array(v, float) for k, v in status.items()}
        ctx.check(set(got) == set(st) and all(near(got[k], st[k]) for k in st), "status", f"{u[1:]}: status { {k: v.tolist() for k, v in got.items()} } instead of { {k: np.round(v, 5).tolist() for k, v in st.items()} }")
        state = m.predictive.state.get()
        shift = shift_of(state.mutable)
        ctx.check(near(phi_of(state.params), phi) and (cal == "temp" or near(shift, s)), "path",
                  f"{u[1:]}: calibrated to {phi_of(state.params).tolist()}, {shift} instead of {phi.tolist()}, {s.tolist()}")
        m2 = cls(**({} if cal == "temp" else {"output_calibrator": running(kind, 0)}))
        m2.load_state(d)
        new = O[1:4] * 0.7 - 0.1
        for how, mm in (("calibrated", m), ("loaded", m2), ("uncalibrated", m)):
            c = g(kind, cal, phi, s, new, False, np)[0] if how != "uncalibrated" else new
            preds(ctx, u, how, kind, mm.predictive, c, jnp.asarray(new, "float32"), T[1:4], how != "uncalibrated")
        ctx.nt(("out", kind, cal, mode, which))


def definitions(kind, c, y):
    if kind == "cls":
        p = pm.softmax(c)
        return {"mean": p, "mode": c.argmax(-1), "variance": p * (1 - p), "std": np.sqrt(p * (1 - p)), "entropy": -(p * np.log(p)).sum(-1), "log_prob": pm.log_lik(kind, c, y)}
    m, v = c[:, :1], np.exp(c[:, 1:])
    return {"mean": m, "mode": m, "variance": v, "std": np.sqrt(v), "log_prob": pm.log_lik(kind, c, y)}


def preds(ctx, u, how, kind, p, c, o, y, calibrated):
    import jax

    for k, v in definitions(kind, c, y).items():
        ctx.ev()
        f = getattr(p, k)
        try:
            r = f(o, y, calibrated=calibrated) if k == "log_prob" else f(o, calibrated=calibrated)
        except Exception as e:
            ctx.fail("crash-" + k, f"{k} of {how} outputs {u[1:]} raised {type(e).__name__}: {str(e)[:200]}")
            continue
        ctx.check(near(r, v), "predictive-" + k, f"{u[1:]}: {k} of {how} outputs is {np.array(r).tolist()} instead of {np.array(v).tolist()}")
    if kind == "cls":
        return
    n = 4000
    r = np.array(p.quantile([0.1, 0.5, 0.9], o, n_samples=n, rng=jax.random.PRNGKey(1), calibrated=calibrated), float)
    m, sd = c[:, :1], np.exp(0.5 * c[:, 1:])
    want = np.stack([m - 1.2816 * sd, m, m + 1.2816 * sd])
    ctx.check(r.shape == want.shape and bool(np.all(np.abs(r - want) < 0.2 * sd)), "predictive-quantile", f"{u[1:]}: quantiles of {how} outputs are {r.tolist()}, expected about {want.tolist()}")
    r = np.array(p.credible_interval(o, n_samples=n, error=0.2, rng=jax.random.PRNGKey(2), calibrated=calibrated), float)
    want = np.concatenate([m - 1.2816 * sd, m + 1.2816 * sd], 1)
    ctx.check(r.shape == want.shape and bool(np.all(np.abs(r - want) < 0.2 * sd)), "predictive-interval", f"{u[1:]}: credible interval of {how} outputs is {r.tolist()}, expected about {want.tolist()}")


# ---- calibration models: the whole model is trained with a calibration loss
def model(u, ctx):
    import jax
    import jax.numpy as jnp

    from fortuna.calib_model import CalibClassifier, CalibRegressor
    from fortuna.data import DataLoader

    _, kind, norm, mode, which, fr = u
    y = c20.YC if kind == "cls" else pm.YR
    if kind == "cls":
        new = lambda: CalibClassifier(model=pm.mlp(3, norm=bool(norm)))
    else:
        new = lambda: CalibRegressor(model=pm.mlp(1, norm=bool(norm)), likelihood_log_variance_model=pm.mlp(1, 3, ("v",)))
    m = new()
    w0 = pm.flat(m.likelihood.model_manager.init((2,), rng=jax.random.PRNGKey(0)))
    w = {k: v for k, v in w0.items() if k[1] == "params"}
    train = {k for k in w if not fr or k[2] != "b"}
    epochs = 2
    comp = (4,) if mode == "gpus" else (1, 3) if not norm else (2, 2)
    if kind == "cls" and comp != (4,):
        comp = (4,) if which and norm else comp
    vcomp = (4,)
    with tempfile.TemporaryDirectory(prefix="mc22.") as d:
        cfg = other_config("calib_model", mode, epochs, freeze=pm.freezer(train) if fr else None, save_checkpoint_dir=d, dump_state=True)
        try:
            with on(mode):
                status = m.calibrate(c20.data(kind, comp), val_data_loader=c20.data(kind, vcomp), config=cfg, **loss_arg(kind, which))
        except Exception as e:
            return ctx.fail(f"crash-model-{kind}-{norm}-{mode}", f"calibrating a model {u[1:]} raised {type(e).__name__}: {str(e)[:300]}")
        ctx.state(), ctx.trans(epochs * len(comp)), ctx.ev(2)
        stats = pm.fresh_stats(w)

        def fn(w, stats, x, y):
            o, t = pm.forward(kind, w, stats, x, True, jnp)
            return loss_def(kind, which, o, y, jnp), (t, o)

        vg = jax.jit(jax.value_and_grad(fn, has_aux=True))
        k = 2 if mode == "gpus" else 1
        ss = [stats] * k
        st = {"loss": [], "metric": [], "val_loss": [], "val_metric": []}
        avg = lambda ds: {q: np.mean([np.array(e[q], float) for e in ds], 0) for q in ds[0]}
        for _ in range(epochs):
            ls, ms = [], []
            for c in c20.cuts(comp):
                res = [vg(w, ss[i], *p) for i, p in enumerate(parts(mode, (pm.X[c], 0), (y[c], 0)))]
                o = np.concatenate([np.array(r[0][1][1], float) for r in res])
                ls.append(np.mean([r[0][0] for r in res])), ms.append(metric_def(*summary(kind, o), y[c], np))
                gr = avg([r[1] for r in res])
                w = {q: np.asarray(v - LR * gr[q] if q in train else v, "float32") for q, v in w.items()}
                ss = [{q: np.array(v) for q, v in r[0][1][0].items()} for r in res]
            st["loss"].append(np.mean(ls)), st["metric"].append(np.mean(ms))
            ss = [avg(ss)] * k
            ls, ms = [], []
            for c in c20.cuts(vcomp):
                o = pm.forward(kind, w, ss[0], pm.X[c], False, np)[0]
                ls.append(np.mean([loss_def(kind, which, *p, np) for p in parts(mode, (o, 0), (y[c], 0))])), ms.append(np.mean([metric_def(*summary(kind, q), t, np) for q, t in parts(mode, (o, 0), (y[c], 0))]))
            st["val_loss"].append(np.mean(ls)), st["val_metric"].append(np.mean(ms))
        got = {k: np.array(v, float) for k, v in status.items()}
        ctx.check(set(got) == set(st) and all(near(got[q], st[q]) for q in st), "status", f"{u[1:]}: status { {k: v.tolist() for k, v in got.items()} } instead of { {k: np.round(v, 5).tolist() for k, v in st.items()} }")
        s = m.predictive.state.get()
        have = pm.flat(s.params)
        ctx.check(set(have) == set(w) and all(near(have[q], w[q]) for q in w), "path", f"{u[1:]}: parameters { {str(q): np.round(v, 4).tolist() for q, v in have.items()} } instead of { {str(q): np.round(v, 4).tolist() for q, v in w.items()} }")
        ctx.check(all(np.array_equal(have[q], w0[q]) for q in w0 if q[1] == "params" and q not in train), "frozen", f"{u[1:]}: frozen parameters changed")
        if norm:
            hs = {q: v for q, v in pm.flat({k: v for k, v in s.mutable.items() if v}).items() if np.size(v)}
            ctx.check(set(hs) == set(ss[0]) and all(near(hs[q], ss[0][q]) for q in hs), "stats", f"{u[1:]}: running statistics { {str(q): v.tolist() for q, v in hs.items()} } instead of { {str(q): v.tolist() for q, v in ss[0].items()} }")
        m2 = new()
        m2.load_state(d)
        o = pm.forward(kind, w, ss[0], pm.X, False, np)[0]
        for how, mm in (("calibrated", m), ("loaded", m2)):
            for q, v in definitions(kind, o, y).items():
                ctx.ev()
                try:
                    f = getattr(mm.predictive, q)
                    r = f(c20.data(kind, (1, 3)), distribute=False) if q == "log_prob" else f(c20.inputs((1, 3)), distribute=False)
                except Exception as e:
                    ctx.fail("crash-" + q, f"{q} of a {how} model {u[1:]} raised {type(e).__name__}: {str(e)[:200]}")
                    continue
                ctx.check(near(r, v), "predictive-" + q, f"{u[1:]}: {q} of a {how} model is {np.array(r).tolist()} instead of {np.array(v).tolist()}")
        ctx.nt(("model", kind, norm, mode, which, fr))


def refuse(u, ctx):
    """Data which is shuffled is refused, and a model without calibrator stays as it is."""
    from fortuna.data import DataLoader

    kind = u[1]
    m, raw = prob_model(kind, "temp")
    y = c20.YC if kind == "cls" else pm.YR
    turn = itertools.count()

    def shuffled():
        p = np.roll(np.arange(4), next(turn) % 3)
        yield pm.X[p], y[p]

    l = DataLoader.from_callable_iterable(shuffled)
    for kw in ({"calib_data_loader": l}, {"calib_data_loader": c20.data(kind, (4,)), "val_data_loader": l}):
        ctx.state(), ctx.ev()
        b = snapshot(m.posterior.state.get(0)), phi_of(m.posterior.state.get(0).calib_params)
        try:
            m.calibrate(**kw)
            ctx.fail("shuffled", f"{kind}: calibration with shuffled data was not refused")
        except ValueError:
            pass
        except Exception as e:
            ctx.fail("shuffled-crash", f"{kind}: calibration with shuffled data raised {type(e).__name__}: {e}")
        ctx.check(same(snapshot(m.posterior.state.get(0)), b[0]) and near(phi_of(m.posterior.state.get(0).calib_params), b[1], 0), "refused-changed", f"{kind}: refused calibration changed the state")
    from fortuna.prob_model import ProbClassifier, ProbRegressor

    kw = dict(posterior_approximator=pm.approximator("map"), output_calibrator=None)
    m = ProbClassifier(model=pm.mlp(2), **kw) if kind == "cls" else ProbRegressor(model=pm.mlp(1), likelihood_log_variance_model=pm.mlp(1, 3, ("v",)), **kw)
    m.train(pm.loader(kind), fit_config=pm.config(epochs=1))
    b = snapshot_any(m.posterior.state.get())
    ctx.check(m.calibrate(pm.loader(kind)) is None and same(snapshot_any(m.posterior.state.get()), b), "no-calibrator", f"{kind}: calibrating a model without calibrator did something")
    ctx.ev()
    ctx.nt(("refuse", kind))


def ckpt(u, ctx):
    """Calibration continued from its checkpoint, or loaded with the model from a dump, is that of one run."""
    import optax

    from fortuna.prob_model.calib_config.base import CalibConfig
    from fortuna.prob_model.calib_config.checkpointer import CalibCheckpointer
    from fortuna.prob_model.calib_config.monitor import CalibMonitor
    from fortuna.prob_model.calib_config.optimizer import CalibOptimizer
    from fortuna.prob_model.calib_config.processor import CalibProcessor

    _, kind, name, a, b = u

    def new():
        m = pm.model(kind, name)
        m.train(pm.loader(kind), fit_config=pm.config(lr=0.0, epochs=1))
        return m

    def calibrate(m, epochs, **ck):
        m.calibrate(pm.loader(kind), calib_config=CalibConfig(
            optimizer=CalibOptimizer(method=optax.sgd(LR), n_epochs=epochs), monitor=CalibMonitor(verbose=False),
            processor=CalibProcessor(n_posterior_samples=1, devices=0), checkpointer=CalibCheckpointer(**ck)))
        return phi_of(m.posterior.state.extract_calib_keys()["calib_params"])

    y = pm.YC if kind == "cls" else pm.YR
    o = pm.forward(kind, pm.initial(kind), {}, pm.X)[0]
    ref = lambda e: descend(kind, "temp", "jit", np.zeros(1), np.zeros(o.shape[1]), [(o[None, c], y[c]) for c in (slice(0, 2), slice(2, 4))], 4, e, None, None)[0]
    with tempfile.TemporaryDirectory(prefix="mc22.") as d:
        m = new()
        first = calibrate(m, a, save_checkpoint_dir=d + "/c")
        second = calibrate(new(), b, restore_checkpoint_path=d + "/c")
        ctx.state(2), ctx.trans(2 * (a + b)), ctx.ev(3)
        ctx.check(near(first, ref(a)) and near(second, ref(a + b)), "resume", f"{u[1:]}: log temperature after {a} epochs is {first.tolist()} and {second.tolist()} after {b} more from the checkpoint, instead of {ref(a).tolist()} and {ref(a + b).tolist()}")
        if name == "map":
            m = new()
            calibrate(m, a, save_checkpoint_dir=d + "/s", dump_state=True)
            m2 = new()
            m2.load_state(d + "/s")
            got = phi_of(m2.posterior.state.extract_calib_keys()["calib_params"])
            ctx.check(near(got, ref(a)), "dump", f"{u[1:]}: a model loaded from the dump of a calibration of {a} epochs has log temperature {got.tolist()} instead of {ref(a).tolist()}")
            p = np.array(m2.predictive.mean(c20.inputs((4,)), n_posterior_samples=1, distribute=False), float)
            want = definitions(kind, g(kind, "temp", ref(a), np.zeros(o.shape[1]), o, False, np)[0], y)["mean"]
            ctx.check(near(p, want), "dump-predictions", f"{u[1:]}: its predictive means are {p.tolist()} instead of {want.tolist()}")
    ctx.nt(("ckpt", kind, name))


def early(u, ctx):
    """Validation happens every k epochs, and calibration stops after patience + 1 validations in a row without improvement."""
    import importlib

    import jax.numpy as jnp
    import optax

    _, what, first = u
    n = 4 if ctx.tier == "quick" and what == "out" else 3 if ctx.tier == "quick" else 5 if what == "out" else 4
    mod = lambda q: importlib.import_module(f"fortuna.{'output_calib_model' if what == 'out' else 'prob_model'}.{'' if what == 'out' else 'calib_'}config.{q}")
    get = lambda q, c: getattr(mod(q), c if what == "out" else "Calib" + c)
    m = None
    if what == "prob":
        m = pm.model("cls", "map")
        m.train(pm.loader("cls"), fit_config=pm.config(lr=0.0, epochs=1))
    for rest in itertools.product(range(3), repeat=n - 1):
        for patience, every, delta in ((1, 1, 0.0), (2, 1, 0.0), (1, 2, 0.0), (1, 1, 1.0)) if what == "out" else ((1, 1, 0.0), (1, 2, 0.0))[1 if ctx.tier == "quick" else 0 :]:
            seq = (first,) + rest
            it = iter(seq + (9,) * 9)

            def scripted(*a):
                return jnp.array(float(next(it)))

            scripted.__name__ = "m"
            E = every * (n - 1) + 1
            cfg = get("base", "Config")(
                optimizer=get("optimizer", "Optimizer")(method=optax.sgd(LR), n_epochs=E),
                monitor=get("monitor", "Monitor")(metrics=(scripted,), verbose=False, disable_calibration_metrics_computation=True, early_stopping_patience=patience,
                                                  early_stopping_monitor="val_m", early_stopping_min_delta=delta, eval_every_n_epochs=every),
                processor=get("processor", "Processor")(devices=0, disable_jit=True),
            )
            if what == "out":
                from fortuna.output_calib_model import OutputCalibClassifier

                m = OutputCalibClassifier()
                st = m.calibrate(jnp.asarray(OC), jnp.asarray(TC), jnp.asarray(OC), jnp.asarray(TC), config=cfg)
            else:
                st = m.calibrate(c20_two(), calib_config=cfg, val_data_loader=c20_two())
            best, count, seen, stop = np.inf, 0, 0, E
            for e in range(E):
                if e % every:
                    continue
                v = seq[seen]
                seen += 1
                if np.isinf(best) or best - v > delta:
                    best, count = v, 0
                elif count >= patience:
                    stop = e + 1
                    break
                else:
                    count += 1
            ctx.state(), ctx.trans(stop), ctx.ev()
            got = (len(st["loss"]), np.array(st["val_m"]).tolist())
            ctx.check(got == (stop, [float(v) for v in seq[:seen]]), "early", f"{what}: with validation metrics {seq}, patience {patience}, minimum change {delta}, validation every {every} epochs: "
                      f"{got[0]} epochs with validations {got[1]} instead of {stop} with {list(seq[:seen])}")
            if stop < E:
                ctx.nt(("early", what, seq, patience, every, delta))


def c20_two():
    return pm.loader("cls", 4)


def snapshot_any(s):
    return pm.flat(s.params)
