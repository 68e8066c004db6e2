"""C14 parameter updates: accumulation, clipping, loss scaling; compiled and multi-device training equal plain training."""
import itertools

import numpy as np

ID = "C14"
LEVEL = "model_checking"
RULE = (
    "every sequence of micro-batches over an alphabet of gradients (including zero, large and overflowing ones) up to the "
    "length bound, for each optimizer, accumulation, clipping norm and trainer (plain, compiled, two devices), is run on "
    "the real trainer and compared with a reference update automaton in float64; non-trivial = distinct (configuration, sequence)"
)
ASSUMPTIONS = ["multi-device training is exercised on two simulated CPU devices", "losses are means over the batch, as the batched negative log joint probability is up to scale"]
ENV = {"XLA_FLAGS": "--xla_force_host_platform_device_count=2"}
AL = {"z": (0.0, 0.0), "a": (1.0, -2.0), "b": (0.25, 0.5), "L": (300.0, 400.0)}
OPT = ("sgd", "momentum", "adam")


def units(tier):
    u = []
    n = 4 if tier == "quick" else 5
    for opt in OPT:
        for acc in (None, 1, 2, 3):
            for clip in (None, 0.0, 1.0, 2.5, 1e6):
                if tier == "quick" and opt != "sgd" and clip in (0.0, 1e6):
                    continue
                u.append(("upd", opt, acc, clip, n if (opt == "sgd" and clip in (None, 2.5)) else 3))
    u += [("scale", acc, dev, 4 if dev == 0 or tier == "thorough" else 3) for acc in (None, 2, 3) for dev in (0, 1)]
    u += [("same", opt, acc, clip) for opt in OPT for acc in (None, 2) for clip in (None, 2.5)]
    return u


def optimizer(name):
    import optax

    return {"sgd": optax.sgd(0.1), "momentum": optax.sgd(0.1, momentum=0.9), "adam": optax.adam(0.1)}[name]


class RefOpt:
    def __init__(self, name):
        self.name, self.m, self.v, self.t = name, 0.0, 0.0, 0

    def step(self, w, g):
        if self.name == "sgd":
            return w - 0.1 * g
        if self.name == "momentum":
            self.m = 0.9 * self.m + g
            return w - 0.1 * self.m
        self.t += 1
        self.m = 0.9 * self.m + 0.1 * g
        self.v = 0.999 * self.v + 0.001 * g * g
        mh, vh = self.m / (1 - 0.9 ** self.t), self.v / (1 - 0.999 ** self.t)
        return w - 0.1 * mh / (np.sqrt(vh) + 1e-8)


def reference(seq, opt, acc, clip, quad):
    """seq: list of arrays (batch, 2) of gradient directions; loss = mean_i x_i.w + quad/2 |w|^2.  None marks overflow."""
    w, o, g, k = np.array([0.5, -0.25]), RefOpt(opt), np.zeros(2), 0
    a = acc if acc and acc > 1 else 1
    hist = []
    for x in seq:
        k += 1
        fin = np.isfinite(x).all()
        if fin:
            g = g + x.mean(0) + quad * w
        if k % a == 0:
            if fin:
                u = g / a
                if clip:
                    nrm = np.sqrt((u ** 2).sum())
                    u = u * min(1.0, clip / (1e-7 + nrm))
                w = o.step(w, u)
            g = np.zeros(2)
        hist.append(w)
    return hist


_cache = {}


def setup(kind, opt, quad, key):
    """trainer, loss and optimizer, kept between runs of one configuration so that compiled steps are reused"""
    import jax.numpy as jnp

    from fortuna.prob_model.posterior.map import map_trainer as mt

    if key in _cache and kind != "multi":
        return _cache[key]
    cls = {"plain": mt.MAPTrainer, "jit": mt.JittedMAPTrainer, "multi": mt.MultiDeviceMAPTrainer}[kind]

    def loss(params, batch, n_data, mutable, return_aux, train, rng=None, calib_params=None, calib_mutable=None):
        w = jnp.concatenate([params["p"]["w0"], params["p"]["w1"]])
        l = jnp.mean(batch[0] @ w) + quad / 2 * jnp.sum(w ** 2)
        return l, {"outputs": batch[0], "mutable": mutable}

    _cache[key] = (cls(predict_fn=lambda x, **k: x, early_stopping_verbose=False), loss, optimizer(opt))
    return _cache[key]


def train(kind, batches, opt, acc, clip, quad, scale=False, epochs=1):
    import jax
    import jax.numpy as jnp
    from flax.core import FrozenDict
    from flax.training.dynamic_scale import DynamicScale

    from fortuna.prob_model.posterior.map.map_state import MAPState

    t, loss, tx = setup(kind, opt, quad, (kind, opt, acc, clip, quad, scale))
    hist = []

    from fortuna.training.callback import Callback

    class CB(Callback):
        def training_step_end(self, state):
            p = state.params["p"]
            hist.append(np.concatenate([np.asarray(p["w0"]).reshape(-1)[-1:], np.asarray(p["w1"]).reshape(-1)[-1:]]))
            if kind == "multi":
                for k in ("w0", "w1"):
                    v = np.asarray(p[k])
                    if not np.array_equal(v[0], v[1], equal_nan=True):
                        hist[-1] = np.array([np.nan, np.nan])
            return state

    s = MAPState.init(params=FrozenDict({"p": {"w0": jnp.array([0.5]), "w1": jnp.array([-0.25])}}), optimizer=tx, dynamic_scale=DynamicScale() if scale else None)
    kw = {}
    if acc is not None:
        kw["gradient_accumulation_steps"] = acc
    if clip is not None:
        kw["max_grad_norm"] = clip
    dl = [(jnp.asarray(b, "float32"), jnp.zeros(len(b))) for b in batches]
    st, status = t.train(jax.random.PRNGKey(0), s, loss, dl, len(batches), n_epochs=epochs, verbose=False, callbacks=[CB()], **kw)
    w = np.concatenate([np.asarray(st.params["p"]["w0"]), np.asarray(st.params["p"]["w1"])])
    return w, hist, st, status


def near(a, b, tol=2e-4):
    return np.allclose(a, b, rtol=tol, atol=tol)


def run_unit(u, ctx):
    if u[0] == "upd":
        _, opt, acc, clip, n = u
        for ln in range(1, n + 1):
            for seq in itertools.product("zabL", repeat=ln):
                if ln < n and acc in (None, 1) and ln != 1:
                    continue  # prefixes are covered by the per-step comparison
                batches = [np.array([AL[c]]) for c in seq]
                ref = reference([b for b in batches], opt, acc, clip, 0.3)
                w, hist, st, _ = train("jit" if acc and acc > 1 and ln > 2 else "plain", batches, opt, acc, clip, 0.3)
                a = acc if acc and acc > 1 else 1
                want = [r for i, r in enumerate(ref) if (i + 1) % a == 0]
                ctx.check(near(w, ref[-1]), "upd:final", lambda: (u, seq, w, ref[-1]))
                ctx.check(len(hist) == len(want) and all(near(x, y) for x, y in zip(hist, want)), "upd:steps", lambda: (u, seq, hist, want))
                ctx.state(len(ref))
                ctx.trans(len(ref))
                ctx.trace()
                ctx.nt((u, seq))
    elif u[0] == "scale":
        _, acc, dev, n = u
        seqs = list(itertools.product((0, 1), repeat=n)) if not dev else list(itertools.product((0, 1, 2), repeat=2))
        for pat in seqs:
            batches = []
            for i, p in enumerate(pat):
                x = np.array([AL["ab"[i % 2]], AL["b"]], dtype=float)
                if p:
                    x[p - 1 if dev else 0, 0] = np.inf
                batches.append(x)
            ref = reference(batches, "momentum", acc, None, 0.3)
            w, hist, st, _ = train("multi" if dev else "plain", batches, "momentum", acc, None, 0.3, scale=True)
            ctx.check(np.isfinite(w).all(), f"scale:{'multi' if dev else 'plain'}:not-finite", lambda: (u, pat, w))
            if np.isfinite(w).all():
                ctx.check(near(w, ref[-1], 1e-3), f"scale:{'multi' if dev else 'plain'}:final", lambda: (u, pat, w, ref[-1]))
            ctx.check(all(np.isfinite(h).all() for h in hist), f"scale:{'multi' if dev else 'plain'}:replicas-differ", lambda: (u, pat, hist))
            sc = float(np.ravel(st.dynamic_scale.scale)[0])
            ctx.check(sc == 65536.0 / 2 ** sum(1 for p in pat if p), "scale:value", lambda: (u, pat, sc))
            ctx.state(len(pat))
            ctx.trans(len(pat))
            ctx.trace()
            ctx.nt((u, pat))
    else:
        _, opt, acc, clip = u
        for seq in itertools.product("abL", repeat=2):
            batches = [np.array([AL[seq[0]], AL["b"]]), np.array([AL[seq[1]], AL["z"]]), np.array([AL["a"], AL[seq[0]]])][:3]
            if len(set(seq)) == 1 and seq[0] == "L":
                continue
            r = {k: train(k, batches, opt, acc, clip, 0.3, epochs=2) for k in ("plain", "jit", "multi")}
            ref = reference(batches * 2, opt, acc, clip, 0.3)
            for k in ("plain", "jit", "multi"):
                ctx.check(near(r[k][0], ref[-1]), f"same:{k}", lambda: (u, seq, r[k][0], ref[-1]))
                ctx.check(near(r[k][3]["loss"], r["plain"][3]["loss"], 1e-3), f"same:{k}:loss", lambda: (u, seq, str(r[k][3]), str(r["plain"][3])))
                ctx.check(len(r[k][1]) == len(r["plain"][1]) and all(near(a, b) for a, b in zip(r[k][1], r["plain"][1])), f"same:{k}:steps", lambda: (u, seq, r[k][1], r["plain"][1]))
                ctx.check(int(np.ravel(r[k][2].step)[0]) == 6 and np.shape(r[k][2].step) == (), f"same:{k}:step", lambda: (u, seq, str(r[k][2].step)))
            ctx.state(18)
            ctx.trans(18)
            ctx.trace(3)
            ctx.nt((u, seq))
