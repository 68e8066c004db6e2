"""C29 SWAG: the posterior is the Gaussian of the running moments of the iterates and of their last deviations."""
import contextlib
import itertools
import shutil
import tempfile

import numpy as np

from mc import pm
from mc.props import c20

ID = "C29"
LEVEL = "exploration"
RULE = (
    "fits by an optimizer which visits a scripted sequence of parameters, all sequences over a two-letter alphabet up to six (ten, thorough) steps, "
    "x all divisions of the steps into equal epochs x ranks; and every subset of trainable leaves x batching x one or two (simulated) devices x jit x normalization; "
    "oracle: plain moments of the sequence; samples: mean, covariance of 4096 draws against the definition; checkpoints at every step hold the moments up to it; "
    "non-trivial = several batches per epoch and a sequence which is not constant"
)
ASSUMPTIONS = ["floating-point tolerance 1e-4", "sample means within 6 standard errors and covariances within 15% (relative to the standard deviations) of 4096 draws",
               "the deviation term is divided by the rank, as implemented (the paper divides by the rank minus one)"]
ENV = {"XLA_FLAGS": "--xla_force_host_platform_device_count=2"}


def script(seq):
    """An optimizer which moves the parameters to given places: entry t of leaf p is start + seq[t] * pattern(p) (+ small drift)."""
    import jax
    import jax.numpy as jnp
    import optax

    table = jnp.asarray(seq, "float32")

    def init(params):
        return jnp.zeros((), "int32")

    def update(grads, count, params=None):
        def move(path, g, p):
            key = tuple(k.key for k in path)
            return jnp.asarray(target(key, p.shape, table[jnp.minimum(count, len(seq) - 1)], jnp)) - p + 0.0 * g

        return jax.tree_util.tree_map_with_path(move, grads, params), count + 1

    return optax.GradientTransformation(init, update)


def target(path, shape, v, xp=np):
    """place of a leaf at a step with value v; distinct for each entry and not linear in v."""
    n = int(np.prod(shape))
    j = sum(ord(c) for c in "".join(path)) % 11 + np.arange(n)
    a, b = (j % 5 - 2.0) / 2, (j % 3 + 1.0) / 2
    return xp.reshape(xp.asarray(0.125 * j, "float32") + a * v + b * v * v, shape)


def reference(path, shape, seq):
    return np.array([target(path, shape, np.float32(v)) for v in seq], "float64").reshape(len(seq), -1)


def moments(W, rank):
    """W: steps x entries."""
    run = np.cumsum(W, 0) / np.arange(1, len(W) + 1)[:, None]
    std = np.sqrt(np.maximum((W**2).mean(0) - run[-1] ** 2, 0))
    return run[-1], std, (W - run)[1:][-rank:].T


def data(kind, comps):
    from fortuna.data import DataLoader

    y = pm.YC if kind == "cls" else pm.YR
    return DataLoader.from_iterable([(pm.X[s], y[s]) for s in c20.cuts(comps)])


def build(kind, norm, rank):
    import optax
    from flax.core import FrozenDict

    from fortuna.prob_model.posterior.map.map_state import MAPState
    from fortuna.prob_model.posterior.posterior_state_repository import PosteriorStateRepository

    m = pm.model(kind, pm.approximator("swag", rank=rank), norm=norm)
    js = m.joint.init(input_shape=(2,))
    start = pm.flat(js.params)
    start = {k: np.asarray(np.resize([0.5, -0.25, 0.75], v.shape), "float32") for k, v in start.items()}
    m.posterior.state = PosteriorStateRepository(None)
    m.posterior.state.put(MAPState.init(params=FrozenDict(pm.unflat(start)), mutable=js.mutable, optimizer=optax.sgd(0.1), calib_params=js.calib_params, calib_mutable=js.calib_mutable))
    return m, start


def fit(m, kind, seq, n_epochs, comp, trainable=None, devices=1, jit=True, **ck):
    freeze = None if trainable is None else pm.freezer(trainable)
    with pm.gpus() if devices > 1 else contextlib.nullcontext():
        m.train(train_data_loader=data(kind, comp), fit_config=pm.config(
            epochs=n_epochs, method=script(seq), freeze=freeze, jit=jit, devices=-1, start_from_current_state=True, **ck))


def match(s, W, rank):
    """compare the moments of a state with those of the steps x entries matrix W, entries matched by their means; a message or None."""
    mean, std, dev = moments(W, rank)
    gm, gs, gd = (np.array(v, "float64") for v in (s.mean, s.std, s.dev))
    if gm.shape != mean.shape or gs.shape != std.shape or gd.shape[0] != len(mean):
        return f"shapes {gm.shape} {gs.shape} {gd.shape}, expected {mean.shape} {std.shape} {dev.shape}"
    from scipy.optimize import linear_sum_assignment

    # leading zero columns carry no deviation
    dev, gd = (c[:, np.abs(c).max(0) > 1e-5] for c in (dev, gd))
    if dev.shape != gd.shape:
        return f"{gd.shape[1]} deviations, expected {dev.shape[1]}"
    # the root of a difference of squares: compare variances
    a = np.concatenate([mean[:, None], (std**2)[:, None], dev], 1)
    b = np.concatenate([gm[:, None], (gs**2)[:, None], gd], 1)
    err = np.abs(a[:, None] - b[None]) / (1 + np.abs(a[:, None]))
    r, c = linear_sum_assignment(err.max(-1))
    k = int(err.max(-1)[r, c].argmax())
    if not err[r, c].max() < 3e-4:
        return f"mean, variance and deviations {b[c[k]].tolist()}, expected {a[r[k]].tolist()}"
    return None


def sequences(u, ctx):
    _, kind, rank, steps, first = u
    for tail in itertools.product((0.0, 1.0), repeat=steps - len(first)):
        seq = np.array(first + tail) - 0.25 * np.arange(steps) / steps
        for per in (d for d in range(1, steps + 1) if steps % d == 0):
            n_epochs = steps // per
            if n_epochs <= rank:
                continue
            comp = (4,) if per == 1 else (2, 2) if per == 2 else (2, 1, 1) if per == 3 else (1, 1, 1, 1)
            if len(comp) != per:
                continue
            m, start = build(kind, False, rank)
            fit(m, kind, seq, n_epochs, comp, jit=True)
            s = m.posterior.state.get()
            W = np.concatenate([reference(k, v.shape, seq) for k, v in sorted(start.items())], 1)
            bad = match(s, W, rank)
            ctx.ev(); ctx.state(steps); ctx.trans(steps)
            if per > 1:
                ctx.nt((u, tail, per))
            ctx.check(bad is None, f"moments:{'one' if per == 1 else 'many'}", lambda: f"rank {rank}, iterates {seq.tolist()} in {n_epochs} epochs: {bad}")


SEQ = (0.75, -0.5, 1.0, 0.25, -1.0, 0.5, 0.125, -0.75)


def fits(u, ctx):
    import jax

    _, kind, norm, rank, comp, n_epochs, trainable, devices, jit = u
    m, start = build(kind, norm, rank)
    order = sorted(start)
    free = [k for k in order if trainable is None or k in trainable]
    steps = n_epochs * len(comp)
    seq = SEQ[:steps]
    tag = f"{kind}:{'all' if trainable is None else 'some'}:{devices}{'' if jit else ':nojit'}{':norm' if norm else ''}"
    d = tempfile.mkdtemp()
    try:
        fit(m, kind, seq, n_epochs, comp, trainable, devices, jit, save_checkpoint_dir=d, save_every_n_steps=1, keep_top_n_checkpoints=steps + 2, dump_state=False)
        s = m.posterior.state.get()
        W = {k: reference(k, start[k].shape, seq) for k in free}
        got = pm.flat(s.params)
        ctx.ev(); ctx.state(steps); ctx.trans(steps)
        if len(comp) > 1 and len(free) < len(order):
            ctx.nt(u)
        last = {k: W[k][-1].reshape(start[k].shape) if k in W else start[k] for k in order}
        ctx.check(set(got) == set(order) and all(np.allclose(got[k], last[k], atol=1e-5) for k in order), f"last:{tag}", lambda: f"{u}: final parameters {got}")
        bad = match(s, np.concatenate([W[k] for k in free], 1), rank)
        ctx.check(bad is None, f"state:{tag}", lambda: f"{u}: {bad}")
        # checkpoints
        for t in range(2, steps + 1):
            try:
                c = m.posterior.restore_checkpoint(restore_checkpoint_path=f"{d}/checkpoint_{t}") if t < steps else m.posterior.restore_checkpoint(restore_checkpoint_path=d)
                bad = match(c, np.concatenate([W[k][:t] for k in free], 1), rank)
            except Exception as e:
                bad = repr(e)[:300]
            ctx.ev(); ctx.trace()
            ctx.check(bad is None, f"checkpoint:{tag}:{'last' if t == steps else 'middle'}", lambda: f"{u}, checkpoint after {t} steps: {bad}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    # samples
    N = 4096
    keys = jax.random.split(jax.random.PRNGKey(3), N)
    draw = pm.flat(jax.jit(jax.vmap(lambda k: m.posterior.sample(rng=k, inputs=pm.X).params))(keys))
    if not ctx.check(set(draw) == set(order), f"sample:leaves:{tag}", lambda: sorted(draw)):
        return
    mean, std, dev = moments(np.concatenate([W[k] for k in free], 1), rank)
    for k in order:
        if k not in free:
            ctx.check(not (draw[k] - start[k]).any(), f"sample:frozen:{tag}", lambda: f"{u}: samples move the frozen {k}")
    S = np.concatenate([np.asarray(draw[k], "float64").reshape(N, -1) for k in free], 1)
    cov = np.diag(std**2) / 2 + dev @ dev.T / (2 * rank)
    sd = np.sqrt(np.maximum(np.diag(cov), 1e-12))
    z = (S.mean(0) - mean) / sd * np.sqrt(N)
    ctx.ev(2)
    ctx.check(bool(np.all(np.abs(z) < 6)), f"sample:mean:{tag}", lambda: f"{u}: mean of draws {S.mean(0)}, expected {mean}")
    r = (np.cov(S.T).reshape(len(sd), -1) - cov) / np.outer(sd, sd)
    ctx.check(bool(np.abs(r).max() < 0.15), f"sample:cov:{tag}", lambda: f"{u}: covariance of draws deviates by {np.abs(r).max()} in units of the standard deviations")
    ctx.sample(f"{u}: {len(free)} of {len(order)} leaves trainable, {steps} steps")


def guards(u, ctx):
    """too few epochs or a rank below two are refused, and a fit needs a preliminary state."""
    m, _ = build("cls", False, 2)
    for n in (1, 2):
        try:
            fit(m, "cls", SEQ[:n], n, (4,))
            bad = True
        except ValueError:
            bad = False
        ctx.ev(); ctx.check(not bad, "guard:epochs", f"{n} epochs with rank 2 accepted")
    m, _ = build("cls", False, 1)
    try:
        fit(m, "cls", SEQ[:3], 3, (4,))
        bad = True
    except ValueError:
        bad = False
    ctx.ev(); ctx.check(not bad, "guard:rank", "rank 1 accepted")
    # a second fit starts its moments afresh
    m, start = build("reg", False, 2)
    for seq in (SEQ[:4], SEQ[3:7]):
        fit(m, "reg", seq, 4, (4,))
        W = np.concatenate([reference(k, v.shape, seq) for k, v in sorted(start.items())], 1)
        bad = match(m.posterior.state.get(), W, 2)
        ctx.ev(); ctx.trans()
        ctx.check(bad is None, "refit", lambda: f"{seq}: {bad}")


def subsets(kind):
    w = sorted(pm.PATHS[kind])
    return [tuple(k for k, b in zip(w, bits) if b) for bits in itertools.product((0, 1), repeat=len(w)) if any(bits)]


def units(tier):
    q = tier == "quick"
    out = [("guards",)]
    for rank, steps in ((2, 4), (2, 3), (2, 6), (3, 5)) if q else ((2, 3), (2, 4), (2, 6), (2, 8), (2, 9), (3, 4), (3, 5), (3, 8), (4, 5), (4, 10), (5, 6)):
        for first in itertools.product((0.0, 1.0), repeat=4 if steps > 7 else 2 if not q else 3 if steps == 6 else 1):
            if q and steps == 6 and first[0]:
                continue
            out.append(("seq", "cls", rank, steps, first))
    for kind in ("cls", "reg"):
        subs = subsets(kind)
        if q and kind == "reg":
            subs = subs[:6:2] + subs[6::7]
        for i, t in enumerate([None] + subs):
            comps = [((4,), 3), ((4,), 5), ((2, 2), 3), ((2, 2), 4), ((1, 3), 3), ((3, 1), 4)] if not q else [((2, 2), 3) if i % 2 == 0 else ((4,), 4)]
            for comp, n in comps:
                if len(comp) * n <= len(SEQ):
                    out.append(("fit", kind, False, 2, comp, n, t, 1, True))
            if not q:
                out += [("fit", kind, norm, rank, (2, 2), rank + 1, t, dev, jit) for norm in (False, True) for rank in (2, 3) for dev, jit in ((1, True), (1, False), (2, True))]
        out.append(("fit", kind, False, 3, (4,), 4, None, 1, True))
        out.append(("fit", kind, False, 2, (2, 2), 3, None, 2, True))
        out.append(("fit", kind, False, 2, (2, 2), 3, subs[3], 2, True))
        out.append(("fit", kind, False, 2, (2, 2), 3, subs[3], 1, False))
        out.append(("fit", kind, False, 2, (2, 2), 3, None, 1, False))
        out.append(("fit", kind, True, 2, (2, 2), 3, None, 1, True))
        out.append(("fit", kind, True, 2, (2, 2), 3, subs[2], 2, True))
    return out


def run_unit(u, ctx):
    import jax

    {"seq": sequences, "fit": fits, "guards": guards}[u[0]](u, ctx)
    run_unit.n = getattr(run_unit, "n", 0) + 1
    if run_unit.n % 8 == 0:
        jax.clear_caches()
