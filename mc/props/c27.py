"""C27 random keys: every operation draws from keys of its own, and only from its seed, its key and its place in the history."""
import itertools

import numpy as np

from mc import pm

ID = "C27"
LEVEL = "exploration"
RULE = (
    "every random draw of jax is recorded with its key; generators: all derivation trees (splits in 1 to 5, folds 0 to 5, up to three levels) of the keys of up to six calls; "
    "models: every posterior approximation x classification and regression with dropout: construction, initialization, two fits, then one history of predictive and posterior calls in which every ordered pair "
    "of operations is adjacent, all keys disjoint between operations and within fits; every operation with an explicit key before and after another one, and the whole history repeated with the same seed; "
    "non-trivial = two operations which both draw"
)
ASSUMPTIONS = ["within one operation the same key may be used for several batches, which is how they share the mixture of C20"]

_rec = []
_ready = False


def _patch():
    """Record the keys of all draws, also in compiled code."""
    global _ready
    if _ready:
        return
    import jax
    import jax._src.random as r

    orig = r._random_bits

    def rb(key, bit_width, shape):
        jax.debug.callback(lambda k: _rec.append(tuple(int(v) for v in np.ravel(k))), jax.random.key_data(key))
        return orig(key, bit_width, shape)

    r._random_bits = rb
    jax.clear_caches()
    _ready = True


def recorded(f):
    import jax

    jax.effects_barrier()
    _rec.clear()
    out = f()
    out = jax.tree_util.tree_map(lambda v: np.array(v) if hasattr(v, "shape") else v, out)
    jax.effects_barrier()
    keys = frozenset(_rec)
    recorded.repeats = len(_rec) - len(keys)
    return keys, out


def kd(k):
    return tuple(int(v) for v in np.ravel(np.array(k)))


# ---- generators
def tree(key, depth):
    """all keys that can be derived from a key within `depth` levels."""
    import jax

    level, seen = np.array([kd(key)], "uint32"), {kd(key)}
    split = {n: jax.jit(jax.vmap(lambda k, n=n: jax.random.split(k, n))) for n in (1, 2, 3, 4, 5)}
    fold = jax.jit(jax.vmap(lambda k: jax.vmap(lambda i: jax.random.fold_in(k, i))(np.arange(6))))
    for _ in range(depth):
        nxt = [np.array(f(level)).reshape(-1, 2) for f in list(split.values()) + [fold]]
        level = np.unique(np.concatenate(nxt), axis=0)
        seen |= {tuple(int(v) for v in k) for k in level}
    return seen


def generators(u, ctx):
    from fortuna.utils.random import RandomNumberGenerator

    seed, n, depth = u[1:]
    g, h = RandomNumberGenerator(seed), RandomNumberGenerator(seed)
    keys = [kd(g.get()) for _ in range(n)]
    ctx.ev()
    ctx.check([kd(h.get()) for _ in range(n)] == keys, f"generator:repeat:{u[1:]}", "the same seed gives other keys")
    ctx.check(len(set(keys)) == n, f"generator:distinct:{u[1:]}", keys)
    trees = [tree(np.array(k, "uint32"), depth) for k in keys]
    ctx.state(sum(map(len, trees)))
    for (i, a), (j, b) in itertools.combinations(enumerate(trees), 2):
        ctx.ev(); ctx.trans(); ctx.nt((seed, i, j))
        ctx.check(not a & b, f"generator:overlap:{i}:{j}", f"seed {seed}: {len(a & b)} keys can be derived both from the key of call {i} and from that of call {j}")
    other = RandomNumberGenerator(seed + 1)
    ctx.check(not set(keys) & {kd(other.get()) for _ in range(n)}, f"generator:seeds:{seed}", "two seeds give the same key")


# ---- models
def net(out):
    import flax.linen as nn

    class Net(nn.Module):
        @nn.compact
        def __call__(self, x, train=False, **kw):
            h = nn.tanh(nn.Dense(2, name="b")(x))
            h = nn.Dropout(0.5, deterministic=not train)(h)
            return nn.Dense(out, name="a")(h)

    return Net()


POST = {
    "map": {}, "ensemble": {}, "advi": {"log_std_base": -1.0, "std_init_params": 0.1}, "swag": {}, "laplace": {}, "sghmc": {}, "sgld": {},
}


def build(kind, name, seed):
    from fortuna.prob_model import ProbClassifier, ProbRegressor

    a = pm.approximator(name, **POST[name])
    if kind == "cls":
        return ProbClassifier(model=net(2), posterior_approximator=a, seed=seed)
    return ProbRegressor(model=net(1), likelihood_log_variance_model=net(1), posterior_approximator=a, seed=seed)


def fit(m, kind, name):
    kw = {"map_fit_config": pm.config(lr=0.05, epochs=1)} if name in ("swag", "laplace") else {}
    m.train(train_data_loader=pm.loader(kind, 2), fit_config=pm.config(lr=0.05, epochs=4, method=None), **kw)


OPS = {"cls": ["member", "mean2", "sample2", "logprob2", "outputs3", "set2", "mean3"], "reg": ["member", "mean2", "sample2", "entropy2", "outputs3", "quantile2", "quantile3"]}


def op(m, kind, what, rng=None):
    """one call of the user; rng=None: the generator of the model."""
    from fortuna.data import InputsLoader

    p, kw = m.predictive, {"rng": rng, "distribute": False}
    x = InputsLoader.from_array_inputs(pm.X, batch_size=4)
    n = int(what[-1]) if what[-1].isdigit() else 0
    w = what.rstrip("123")
    if w == "member":
        return m.posterior.sample(rng=rng, inputs=pm.X).params
    if w == "prior":
        return m.prior.sample(m.posterior.state.get().params, rng=rng)
    if w == "layer":
        return m.prob_output_layer.sample(n, np.ones((4, 2), "float32"), rng=rng)
    if w == "sample":
        return p.sample(x, n_target_samples=n, **kw)
    if w == "outputs":
        return p.sample_calibrated_outputs(x, n_output_samples=n, **kw)
    if w == "logprob":
        return p.log_prob(pm.loader(kind, 4), n_posterior_samples=n, **kw)
    if w == "quantile":
        return p.quantile([0.5], x, n_posterior_samples=n, n_target_samples=2, **kw)
    if w == "interval":
        return p.credible_interval(x, n_posterior_samples=n, n_target_samples=2, **kw)
    if w == "entropy":
        return p.entropy(x, n_posterior_samples=n, **({} if kind == "cls" else {"n_target_samples": 2}), **kw)
    if w == "set":
        return list(map(list, p.credible_set(x, n_posterior_samples=n, error=0.3, **kw)))
    return getattr(p, {"mean": "mean", "var": "variance", "std": "std", "alea": "aleatoric_variance", "epi": "epistemic_variance", "mode": "mode",
                       "aent": "aleatoric_entropy", "eent": "epistemic_entropy"}[w])(x, n_posterior_samples=n, **kw)


def eq(a, b):
    import jax

    la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
    return len(la) == len(lb) and all(np.array_equal(x, y) for x, y in zip(la, lb))


def debruijn(ops):
    """a history in which every ordered pair is adjacent (Eulerian cycle of the complete digraph with loops)."""
    edges = {a: list(reversed(ops)) for a in ops}
    stack, out = [ops[0]], []
    while stack:
        if edges[stack[-1]]:
            stack.append(edges[stack[-1]].pop())
        else:
            out.append(stack.pop())
    return out[::-1]


def lists(tier):
    if tier == "quick":
        return {k: v[:5] for k, v in OPS.items()}
    return {"cls": OPS["cls"] + ["entropy2", "var2", "prior", "layer2"], "reg": OPS["reg"] + ["interval2", "var2", "prior", "layer2"]}


def history(u, ctx):
    _, kind, name, seed, ops = u
    ops = list(ops)
    tag = f"{kind}:{name}"
    steps = []  # (label, keys)

    def run(label, f):
        k, out = recorded(f)
        if label.endswith("fit"):
            ctx.ev()
            ctx.check(not recorded.repeats, f"fit:{tag}", f"{recorded.repeats} draws of a fit use the key of another of its draws")
        for l, old in steps:
            ctx.ev(); ctx.trans()
            if k and old:
                ctx.nt((tag, l, label))
            ctx.check(not k & old, f"overlap:{tag}:{label}", lambda: f"`{label}` after {[s for s, _ in steps]} draws from {len(k & old)} keys of `{l}`")
        steps.append((label, k))
        ctx.state()
        return k, out

    m = build(kind, name, seed)
    run("fit", lambda: fit(m, kind, name))
    first = [run(o, lambda: op(m, kind, o)) for o in ops]
    for o in debruijn(ops):
        run(o, lambda: op(m, kind, o))
    run("refit", lambda: fit(m, kind, name))
    run(ops[0], lambda: op(m, kind, ops[0]))
    # the same seed and history give the same keys and results
    m2 = build(kind, name, seed)
    k, _ = recorded(lambda: fit(m2, kind, name))
    ctx.ev(); ctx.trace()
    ctx.check(k == steps[0][1], f"repeat:{tag}:fit", "a fit with the same seed draws from other keys")
    for o, (k1, out1) in zip(ops, first):
        k, out = recorded(lambda: op(m2, kind, o))
        ctx.ev()
        ctx.check(k == k1 and eq(out, out1), f"repeat:{tag}:{o}", "the same history with the same seed gives another result")
    ctx.sample(f"{tag}: history {[s for s, _ in steps]}, {sum(len(k) for _, k in steps)} keys, all distinct")


def explicit(u, ctx):
    import jax

    _, kind, name, seed, ops = u
    tag = f"{kind}:{name}"
    m, m2 = build(kind, name, seed), build(kind, name, seed)
    fit(m, kind, name)
    fit(m2, kind, name)
    key, key2 = jax.random.PRNGKey(11), jax.random.PRNGKey(12)
    for o in ops:
        want, _ = recorded(lambda: op(m2, kind, ops[0]))
        e1, r1 = recorded(lambda: op(m, kind, o, key))
        got, _ = recorded(lambda: op(m, kind, ops[0]))
        e2, r2 = recorded(lambda: op(m, kind, o, key))
        e3, r3 = recorded(lambda: op(m, kind, o, key2))
        ctx.ev(4); ctx.trans(4); ctx.state(); ctx.nt((tag, o))
        ctx.check(got == want, f"explicit:advances:{tag}:{o}", f"`{o}` with an explicit key changes the keys of the following call of the model")
        ctx.check(e1 == e2 and eq(r1, r2), f"explicit:depends:{tag}:{o}", f"`{o}` with an explicit key gives another result after another call")
        ctx.check(not e1 & e3, f"explicit:keys:{tag}:{o}", "two keys share draws")
        ctx.check(not e1 & got, f"explicit:overlap:{tag}:{o}", "explicit and internal keys share draws")
        if o not in ("mode2",) and name not in ("map",):
            ctx.check(bool(e1), f"explicit:none:{tag}:{o}", "no draw was recorded")


def units(tier):
    q = tier == "quick"
    out = [("generator", s, 6, 3) for s in ((0, 1) if q else range(12))]
    L = lists(tier)
    for kind in ("cls", "reg"):
        for name in POST:
            for s in ((0,) if q else (0, 3)):
                out.append(("history", kind, name, s, tuple(L[kind][:4] if q else L[kind])))
            out.append(("explicit", kind, name, 0, tuple(L[kind])))
    return out


def run_unit(u, ctx):
    import jax

    if u[0] == "generator":
        return generators(u, ctx)
    _patch()
    {"history": history, "explicit": explicit}[u[0]](u, ctx)
    jax.clear_caches()
