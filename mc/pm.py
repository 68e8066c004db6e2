"""Tiny probabilistic models with known initial parameters, for checks which drive whole posteriors."""
import contextlib

import numpy as np

PATHS = {  # leaf paths of the models, in the order in which flax creates them
    "cls": [("model", "params", m, l) for m in ("b", "a") for l in ("kernel", "bias")],
    "reg": [("model", "params", m, l) for m in ("b", "a") for l in ("kernel", "bias")]
    + [("lik_log_var", "params", "v", l) for l in ("kernel", "bias")],
}
NAMES = ("map", "advi", "swag", "laplace", "ensemble", "sghmc", "sgld")
X = np.array([[0.5, 1.0], [1.0, -0.25], [0.75, 1.0], [-0.5, -1.0]], "float32")
YC = np.array([0, 1, 1, 0])
YR = np.array([[0.5], [-1.0], [0.25], [1.0]], "float32")


def pattern(i):
    """A distinct deterministic value for each entry of each leaf."""
    def init(key, shape, dtype=None):
        import jax.numpy as jnp

        n = int(np.prod(shape))
        return jnp.asarray((((np.arange(n) * 7 + i * 5) % 11) - 5.0).reshape(shape) / 8, "float32")

    return init


def mlp(out, offset=0, names=("b", "a"), norm=False):
    import flax.linen as nn

    class MLP(nn.Module):
        @nn.compact
        def __call__(self, x, train=False, **kw):
            x = x.reshape(x.shape[0], -1)
            for j, n in enumerate(names[:-1]):
                x = nn.Dense(2, name=n, kernel_init=pattern(offset + 2 * j), bias_init=pattern(offset + 2 * j + 1))(x)
                if norm:
                    x = nn.BatchNorm(use_running_average=not train, name="n" + n, momentum=0.5)(x)
                x = nn.tanh(x)
            return nn.Dense(out, name=names[-1], kernel_init=pattern(offset + 6), bias_init=pattern(offset + 7))(x)

    return MLP()


def approximator(name, **kw):
    from fortuna.prob_model.posterior.deep_ensemble.deep_ensemble_approximator import DeepEnsemblePosteriorApproximator
    from fortuna.prob_model.posterior.laplace.laplace_approximator import LaplacePosteriorApproximator
    from fortuna.prob_model.posterior.map.map_approximator import MAPPosteriorApproximator
    from fortuna.prob_model.posterior.normalizing_flow.advi.advi_approximator import ADVIPosteriorApproximator
    from fortuna.prob_model.posterior.sgmcmc.cyclical_sgld.cyclical_sgld_approximator import CyclicalSGLDPosteriorApproximator
    from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_approximator import SGHMCPosteriorApproximator
    from fortuna.prob_model.posterior.swag.swag_approximator import SWAGPosteriorApproximator

    cls, defaults = {
        "map": (MAPPosteriorApproximator, {}),
        "advi": (ADVIPosteriorApproximator, {"std_init_params": 0.0, "log_std_base": -60.0, "n_loss_samples": 2}),
        "swag": (SWAGPosteriorApproximator, {"rank": 2}),
        "laplace": (LaplacePosteriorApproximator, {"tune_prior_log_variance": False}),
        "ensemble": (DeepEnsemblePosteriorApproximator, {"ensemble_size": 2}),
        "sghmc": (SGHMCPosteriorApproximator, {"n_samples": 2, "n_thinning": 1, "burnin_length": 1, "step_schedule": 0.01}),
        "sgld": (CyclicalSGLDPosteriorApproximator, {"n_samples": 2, "n_thinning": 1, "cycle_length": 4, "init_step_size": 0.01, "exploration_ratio": 0.25}),
    }[name]
    return cls(**{**defaults, **kw})


def model(kind, approx, seed=0, norm=False, prior=None, **kw):
    from fortuna.prob_model import ProbClassifier, ProbRegressor

    a = approximator(approx, **kw) if isinstance(approx, str) else approx
    extra = {} if prior is None else {"prior": prior}
    if kind == "cls":
        return ProbClassifier(model=mlp(2, norm=norm), posterior_approximator=a, seed=seed, **extra)
    # norm: False, True or "mean" (normalization in the mean model), "var" or "both"
    var = norm in ("var", "both")
    return ProbRegressor(model=mlp(1, norm=norm not in (False, "var")),
                         likelihood_log_variance_model=mlp(1, 3, ("u", "v") if var else ("v",), norm=var),
                         posterior_approximator=a, seed=seed, **extra)


def loader(kind, bs=2, n=4, **kw):
    from fortuna.data import DataLoader

    return DataLoader.from_array_data((X[:n], (YC if kind == "cls" else YR)[:n]), batch_size=bs, **kw)


def config(lr=0.1, epochs=3, freeze=None, method=None, jit=True, devices=-1, callbacks=None, acc=None, clip=None, **ck):
    import optax

    from fortuna.prob_model.fit_config.base import FitConfig
    from fortuna.prob_model.fit_config.checkpointer import FitCheckpointer
    from fortuna.prob_model.fit_config.hyperparameters import FitHyperparameters
    from fortuna.prob_model.fit_config.monitor import FitMonitor
    from fortuna.prob_model.fit_config.optimizer import FitOptimizer
    from fortuna.prob_model.fit_config.processor import FitProcessor

    return FitConfig(
        optimizer=FitOptimizer(method=method or optax.sgd(lr), n_epochs=epochs, freeze_fun=freeze),
        monitor=FitMonitor(verbose=False, metrics=None, disable_training_metrics_computation=True),
        checkpointer=FitCheckpointer(**ck),
        processor=FitProcessor(devices=devices, disable_jit=not jit),
        hyperparameters=FitHyperparameters(gradient_accumulation_steps=acc, max_grad_norm=clip),
        callbacks=callbacks,
    )


def freezer(trainable):
    """freeze function for a set of trainable leaf paths."""
    t = {tuple(p) for p in trainable}
    return lambda path, v: "trainable" if tuple(path) in t else "frozen"


def flat(params):
    from flax.core import unfreeze
    from flax.traverse_util import flatten_dict

    return {k: np.array(v) for k, v in flatten_dict(unfreeze(params)).items()}


def initial(kind):
    off = {"b": 0, "a": 6, "v": 9}
    shapes = {"b": (2, 2), "a": (2, 2 if kind == "cls" else 1), "v": (2, 1)}
    out = {}
    for p in PATHS[kind]:
        m, l = p[2:]
        sh = shapes[m] if l == "kernel" else shapes[m][1:]
        out[p] = np.array(pattern(off[m] + (l == "bias"))(None, sh))
    return out


def unflat(d):
    from flax.core import FrozenDict
    from flax.traverse_util import unflatten_dict

    return FrozenDict(unflatten_dict({k: d[k] for k in sorted(d)}))


def sgd(pm, kind, start, trainable, lr, epochs, bs=2, n=4, mutable=None):
    """Reference: plain masked gradient descent on the negative log joint probability of the model."""
    import jax

    w = dict(start)
    hist = []
    js = pm.joint.init(input_shape=(2,))
    g = jax.jit(jax.grad(lambda p, b: pm.joint._batched_negative_log_joint_prob(
        p, b, n_data=n, mutable=mutable, calib_params=js.calib_params, calib_mutable=js.calib_mutable, train=True, return_aux=[])))
    for _ in range(epochs):
        for batch in loader(kind, bs, n):
            gr = flat(g(unflat(w), batch))
            w = {k: (v - np.float32(lr) * gr[k] if k in trainable else v) for k, v in w.items()}
            hist.append(dict(w))
    return w, hist


def same(a, b, tol=0.0):
    return set(a) == set(b) and all(a[k].shape == b[k].shape and np.all(np.abs(a[k] - b[k]) <= tol * (1 + np.abs(b[k]))) for k in b)


def net(w, top, names, stats, x, train, xp):
    """Forward pass of one of the models above, on flat parameters; returns outputs and advanced running statistics."""
    new = {}
    g = lambda m, l: w[(top, "params", m, l)]
    h = x
    for n in names[:-1]:
        h = h @ g(n, "kernel") + g(n, "bias")
        if (top, "params", "n" + n, "scale") in w:
            km, kv = (top, "batch_stats", "n" + n, "mean"), (top, "batch_stats", "n" + n, "var")
            if train:
                mean, var = h.mean(0), xp.maximum((h * h).mean(0) - h.mean(0) ** 2, 0)
                new[km], new[kv] = 0.5 * stats[km] + 0.5 * mean, 0.5 * stats[kv] + 0.5 * var
            else:
                mean, var = stats[km], stats[kv]
            h = (h - mean) / xp.sqrt(var + 1e-5) * g("n" + n, "scale") + g("n" + n, "bias")
        h = xp.tanh(h)
    return h @ g(names[-1], "kernel") + g(names[-1], "bias"), new


def forward(kind, w, stats, x, train=False, xp=np):
    out, new = net(w, "model", ("b", "a"), stats, x, train, xp)
    if kind == "reg":
        names = ("u", "v") if ("lik_log_var", "params", "u", "kernel") in w else ("v",)
        v, new2 = net(w, "lik_log_var", names, stats, x, train, xp)
        out, new = xp.concatenate([out, v], -1), {**new, **new2}
    return out, new


def fresh_stats(w):
    """Running statistics at initialization."""
    out = {}
    for (top, _, n, l), v in w.items():
        if l == "scale":
            out[(top, "batch_stats", n, "mean")] = np.zeros_like(v)
            out[(top, "batch_stats", n, "var")] = np.ones_like(v)
    return out


def log_lik(kind, out, y, xp=np):
    """log-likelihood of each point given the outputs."""
    if kind == "cls":
        m = out.max(-1, keepdims=True)
        lse = m[:, 0] + xp.log(xp.exp(out - m).sum(-1))
        return out[np.arange(len(y)), y] - lse
    mu, lv = xp.split(out, 2, -1)
    return (-0.5 * (y - mu) ** 2 * xp.exp(-lv) - 0.5 * lv - 0.5 * np.log(2 * np.pi)).sum(-1)


def log_prior(w, xp=np, log_var=0.0):
    return sum(-0.5 * (v ** 2).sum() * np.exp(-log_var) - 0.5 * v.size * (log_var + np.log(2 * np.pi)) for v in w.values())


def softmax(z):
    e = np.exp(z - z.max(-1, keepdims=True))
    return e / e.sum(-1, keepdims=True)


@contextlib.contextmanager
def gpus():
    """The library believes that the (simulated) devices are GPUs, and so trains on all of them."""
    import sys
    import types

    import jax

    real = jax.devices

    def devices(*a, **k):
        out = real(*a, **k)
        if sys._getframe(1).f_globals.get("__name__", "").startswith("fortuna."):
            return [types.SimpleNamespace(platform="gpu", id=d.id) for d in out]
        return out

    # also where the function was imported by name
    named = [m for n, m in list(sys.modules.items()) if n.startswith("fortuna.") and getattr(m, "devices", None) is real]
    for m in [jax] + named:
        m.devices = devices
    try:
        yield
    finally:
        for m in [jax] + named:
            m.devices = real
