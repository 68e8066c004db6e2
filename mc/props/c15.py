"""C15 freezing: frozen parameters never move, trainable ones move as if nothing else existed, for every posterior."""
import itertools

import numpy as np

from .. import pm

ID = "C15"
LEVEL = "exploration"
RULE = (
    "every non-empty set of trainable leaves of a four-leaf classifier and of leaf groups of a regressor, for every posterior "
    "approximation, after a preliminary MAP with every (thorough) or some (quick) other freeze pattern, with zero and non-zero "
    "steps; all parameters of all samples are compared with masked plain gradient descent; non-trivial = a run with at least one frozen leaf"
)
ASSUMPTIONS = ["ADVI and Laplace noise is switched off through their public options, so samples are their means", "the gradient oracle is the model's own log joint probability (see C21)"]
PRE = ("advi", "swag", "laplace", "ensemble", "sghmc", "sgld")


def patterns(kind):
    L = pm.PATHS[kind]
    if kind == "cls":
        return [[p for p, b in zip(L, bits) if b] for bits in itertools.product((0, 1), repeat=4) if any(bits)]
    groups = [[p for p in L if p[2] == m] for m in ("b", "a", "v")]
    ps = [sum(c, []) for r in (1, 2, 3) for c in itertools.combinations(groups, r)]
    return ps + [[p] for p in L] + [[L[1], L[4]], [L[0], L[3], L[5]]]


def units(tier):
    u = []
    for kind in ("cls", "reg"):
        n = len(patterns(kind))
        for name in pm.NAMES:
            for p2 in [-1] + list(range(n)):
                p1s = [None] if tier == "thorough" and name == "map" else []
                if tier == "thorough":
                    p1s += range(n)
                else:
                    p1s = [n - 1 if (p2 + len(name)) % 2 else (5 * p2 + len(name) + 3) % n]
                    if name in ("map", "ensemble", "sghmc", "sgld", "advi") and p2 % 4 == 1:
                        p1s.append(None)
                for p1 in p1s:
                    for lr in (0.0, 0.05):
                        if lr == 0.0 and name in ("map", "ensemble", "laplace"):
                            continue
                        if tier == "quick" and (kind == "reg" or name in ("sghmc", "sgld")) and (p2 + (lr > 0)) % 2:
                            continue
                        u.append((kind, name, p1, p2, lr))
    for name in pm.NAMES:  # without compilation
        for p2 in (-1, 5, 9) if tier == "quick" else range(-1, 15):
            u.append(("cls", name, 6, p2, 0.05, "nojit"))
    u += [("labels", name) for name in pm.NAMES]
    return u


_N = [0]


def run_unit(u, ctx):
    import jax

    _N[0] += 1
    if _N[0] % 25 == 0:
        jax.clear_caches()
    if u[0] == "labels":
        return labels(u[1], ctx)
    kind, name, p1, p2, lr = u[:5]
    dev = {"devices": 0, "jit": False} if len(u) > 5 else {}
    pats = patterns(kind)
    allp = pm.PATHS[kind]
    t1 = pats[p1] if p1 is not None else None
    t2 = pats[p2] if p2 >= 0 else allp
    kw = {}
    if name == "sghmc":
        kw["step_schedule"] = lr
    if name == "sgld":
        kw["init_step_size"] = lr
    m = pm.model(kind, name, **kw)
    dl = pm.loader(kind)
    init = pm.initial(kind)
    lr1, e1, e2 = 0.05, 2, 3
    f1 = pm.freezer(t1) if t1 is not None else None
    f2 = pm.freezer(t2) if p2 >= 0 else None
    M, _ = pm.sgd(m, kind, init, t1 if t1 is not None else allp, lr1, e1) if p1 is not None else (init, None)
    fc = pm.config(lr, e2, f2, start_from_current_state=(name == "map" and p1 is not None), **dev)
    if name == "map":
        if p1 is not None:
            m.train(dl, fit_config=pm.config(lr1, e1, f1))
        m.train(dl, fit_config=fc)
    else:
        m.train(dl, fit_config=fc, **({"map_fit_config": pm.config(lr1, e1, f1)} if p1 is not None else {}))
    if name in ("ensemble", "sghmc", "sgld"):
        # these restart the trainable parameters, and keep the frozen ones of the preliminary run, if any
        start = {k: (init[k] if k in t2 else M[k]) for k in init} if p2 >= 0 else init
    else:
        start = M
    want, _ = pm.sgd(m, kind, start, t2, lr, e2) if name in ("map", "advi", "swag", "ensemble") and lr > 0 else (start, None)
    ctx.state()
    if p2 >= 0 and len(t2) < len(allp):
        ctx.nt(u)
    n_states = {"ensemble": 2, "sghmc": 2, "sgld": 2}.get(name, 0)
    import jax

    samples = [pm.flat(m.posterior.state.get(i).params) for i in range(n_states)]
    for s in range(3):
        k = jax.random.PRNGKey(s)
        samples.append(pm.flat(m.posterior.sample(rng=k, inputs_loader=dl.to_inputs_loader(), input_shape=(2,), prior_log_var=-60.0).params))
    for s in samples:
        ctx.ev()
        ctx.trans()
        if not ctx.check(set(s) == set(init) and all(s[k].shape == init[k].shape for k in init), f"{name}:structure", [u, sorted(map(str, s))]):
            return
        fro = [k for k in init if k not in t2]
        ctx.check(all(np.allclose(s[k], start[k], rtol=1e-4, atol=1e-5) for k in fro), f"{name}:frozen",
                  [u, {str(k): [s[k].tolist(), start[k].tolist()] for k in fro if not np.allclose(s[k], start[k], rtol=1e-4, atol=1e-5)}])
        ctx.check(all(np.array_equal(s[k], samples[0][k]) for k in fro), f"{name}:constant", [u])
        tol = 2e-3 if name == "swag" else 2e-4
        if name == "swag" and lr > 0:
            continue
        if name in ("sghmc", "sgld") and lr > 0:
            ctx.check(all(not np.array_equal(s[k], start[k]) for k in t2), f"{name}:stuck", [u])
            continue
        bad = {str(k): [s[k].tolist(), want[k].tolist()] for k in t2 if not np.allclose(s[k], want[k], rtol=tol, atol=tol)}
        ctx.check(not bad, f"{name}:trainable", [u, bad])
    if name == "swag":
        s = pm.flat(m.posterior.state.get().params)
        bad = {str(k): [s[k].tolist(), want[k].tolist()] for k in init if not np.allclose(s[k], want[k], rtol=2e-4, atol=2e-4)}
        ctx.check(not bad, "swag:last", [u, bad])


def labels(name, ctx):
    """a freeze function with labels other than trainable and frozen is rejected."""
    for bad in ("freeze", "Trainable", None, True):
        m = pm.model("cls", name)
        f = lambda path, v, b=bad: b if "a" in path else "trainable"
        ctx.ev()
        ctx.state()
        ctx.trans()
        try:
            m.train(pm.loader("cls"), fit_config=pm.config(0.05, 3, f), map_fit_config=pm.config(0.05, 1))
            ok = False
        except ValueError:
            ok = True
        ctx.check(ok, f"{name}:label", [name, bad])
