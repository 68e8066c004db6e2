"""C30 probit scaling: outputs are divided by one plus pi/8 times the (conditional) variance of the linearized model."""
import itertools

import numpy as np

from mc import pm

ID = "C30"
LEVEL = "exploration"
RULE = (
    "all numbers of tokens up to three (four, thorough), of final tokens and of remembered tokens x outputs and top-k x sets of scaled parameters x auxiliary outputs x dictionary inputs "
    "x six (sixteen) parameter and input values; gradients with and without stopped ones; models with the editor: kind x normalization x SNGP x training mode x batch; "
    "oracle: dense Jacobians and Schur complements over the remembered tokens; non-trivial = two or more final tokens with fewer remembered ones or top-k outputs"
)
ASSUMPTIONS = ["floating-point tolerance 2e-3; instances whose remembered covariance has a condition number above 300 are skipped and counted",
               "the scaling is without a square root, as implemented"]


def weights(n_out, v):
    r = np.random.default_rng(100 * n_out + v)
    g = lambda *s: np.asarray(np.round(r.normal(size=s) * 8) / 8, "float32")
    return {"params": {"l1": {"kernel": g(4, 4), "bias": g(4)}, "l2": {"kernel": g(4, n_out), "bias": g(n_out)}}}


def model(p, x, xp=None):
    """tokens interact causally; x: batch x tokens x 4 (or batch x 4)."""
    import jax.numpy as jnp

    p = p["params"]
    if isinstance(x, dict):
        x = x["a"] + x["b"]
    h = x @ p["l1"]["kernel"] + p["l1"]["bias"]
    if x.ndim == 3:
        h = h + 0.5 * (jnp.cumsum(h, 1) - h)
    return jnp.tanh(h) @ p["l2"]["kernel"] + p["l2"]["bias"]


FREEZE = {"all": None, "l2": lambda p, v: "l2" in p, "kernels": lambda p, v: "kernel" in p, "l1": lambda p, v: p[-2] == "l1", "k2": lambda p, v: tuple(p[-2:]) == ("l2", "kernel")}


def inputs(shape, v):
    r = np.random.default_rng(7 + v)
    return np.asarray(np.round(r.normal(size=shape) * 4) / 4, "float32")


def split(p, which):
    """ravel of the selected leaves and the function rebuilding the parameters."""
    from flax.traverse_util import flatten_dict, unflatten_dict
    from jax.flatten_util import ravel_pytree

    f = flatten_dict(p)
    sel = {k: v for k, v in f.items() if FREEZE[which] is None or FREEZE[which](k, v)}
    rav, un = ravel_pytree(sel)
    return rav, lambda r: unflatten_dict({**f, **un(r)})


def jacobian(apply, p, x, which):
    """batch x tokens x outputs x parameters, one input at a time."""
    import jax
    import jax.numpy as jnp

    rav, build = split(p, which)
    n = len(next(iter(x.values()))) if isinstance(x, dict) else len(x)
    one = lambda i: ({k: v[i : i + 1] for k, v in x.items()} if isinstance(x, dict) else x[i : i + 1])
    J = jnp.concatenate([jax.jacfwd(lambda r: apply(build(r), one(i)))(rav) for i in range(n)], 0)
    return J if J.ndim == 4 else J[:, None]


def scales(J, f, n_final, memory, top_k, conds=None):
    """J: batch x tokens x outputs x parameters, f: batch x tokens x outputs -> batch x final tokens x outputs (differentiable)."""
    import jax.numpy as jnp

    B, T, O = f.shape
    out = []
    for b in range(B):
        row = []
        idx = [np.arange(O) if top_k is None else jnp.argsort(f[b, t])[-top_k:] for t in range(T)]
        for t in range(T - n_final, T):
            A = J[b, t][idx[t]]
            C = A @ A.T
            prev = [J[b, s][idx[s]] for s in range(max(T - n_final, t - memory), t)]
            if prev:
                D = jnp.concatenate(prev, 0)
                W = D @ D.T
                if conds is not None:
                    conds.append(float(np.linalg.cond(np.asarray(W))))
                C = C - A @ D.T @ jnp.linalg.solve(W, D @ A.T)
            if conds is not None and t < T - 1:
                conds.append(float(np.linalg.cond(np.asarray(C))))
            d = jnp.diag(C)
            row.append(d if top_k is None else (jnp.max(d) * jnp.ones(O)).at[idx[t]].set(d))
        out.append(jnp.stack(row))
    return jnp.stack(out)


def reference(apply, p, x, log_var, which, n_final, memory, top_k, stop=False, conds=None):
    import jax
    import jax.numpy as jnp

    f = apply(p, x)
    shape = f.shape
    g = f if f.ndim == 3 else f[:, None]
    n_final = n_final or g.shape[1]
    s = scales(jacobian(apply, p, x, which), g, n_final, memory or n_final, top_k, conds)
    if stop:
        s = jax.lax.stop_gradient(s)
    d = 1 + jnp.pi / 8 * jnp.exp(log_var) * s
    return jnp.concatenate([g[:, : g.shape[1] - n_final], g[:, g.shape[1] - n_final :] / d], 1).reshape(shape)


def sequential(u, ctx):
    import jax
    import jax.numpy as jnp
    from flax.core import FrozenDict

    from fortuna.utils.probit import sequential_probit_scaling

    _, T, O, n_final, memory, top_k, which, aux, form, stop, values = u
    apply = lambda p, x: (model(p, x), {"n": 1}) if aux else model(p, x)

    def run(p, x, lv):
        return sequential_probit_scaling(apply, FrozenDict(p) if form != "plain" else p, x, lv, has_aux=aux, freeze_fun=FREEZE[which], top_k=top_k, memory=memory, n_final_tokens=n_final, stop_gradient=stop)

    first = lambda o: o[0] if aux else o
    run_j = jax.jit(run)
    grad_j = jax.jit(jax.grad(lambda p, lv, x: jnp.sum(first(run(p, x, lv)) * jnp.cos(jnp.arange(O) + 1.0)), argnums=(0, 1)))
    ref_g = jax.jit(jax.grad(lambda p, lv, x: jnp.sum(reference(model, p, x, lv, which, n_final, memory, top_k, stop) * jnp.cos(jnp.arange(O) + 1.0)), argnums=(0, 1)))
    shape = (2, 4) if T == 0 else (2, T, 4)
    tag = f"{'flat' if T == 0 else T}:{which}:{'top' if top_k else 'full'}:{'window' if memory else 'all'}"
    for v in range(values):
        p, x = weights(O, v), inputs(shape, v)
        if form == "dict":
            x = {"a": 0.5 * x, "b": 0.5 * x}
        lv = np.float32([-2.0, 0.5, 1.5, -0.25][v % 4])
        conds = [1.0]
        want = np.array(reference(model, p, x, lv, which, n_final, memory, top_k, conds=conds))
        ctx.trans(max(T, 1))
        if not max(conds) < 300:
            ctx.add("ill-conditioned", 1)
            continue
        try:
            got = run_j(p, x, lv)
            if aux:
                ctx.check(got[1] == {"n": 1}, f"aux:{tag}", lambda: repr(got[1]))
            got = np.array(first(got))
        except Exception as e:
            ctx.fail(f"error:{type(e).__name__}:{tag}", f"{u}: {e!r:.300}")
            return
        ctx.ev(); ctx.state()
        if (n_final or T) > 1 and (top_k or (memory or T) < (n_final or T)):
            ctx.nt((u, v))
        ok = got.shape == want.shape and np.all(np.abs(got - want) <= 2e-3 * (1 + np.abs(want)))
        if not ctx.check(bool(ok), f"value:{tag}", lambda: f"{u} value {v}: {got.tolist()}, expected {want.tolist()}"):
            return
        if v < 2:
            a, b = grad_j(p, lv, x), ref_g(p, lv, x)
            la, lb = (np.concatenate([np.ravel(q) for q in jax.tree_util.tree_leaves(g)]) for g in (a, b))
            ctx.ev()
            ctx.check(bool(np.all(np.abs(la - lb) <= 2e-2 * (1 + np.abs(lb).max()))), f"gradient:{'stopped' if stop else 'full'}:{tag}", lambda: f"{u} value {v}: gradients {la}, expected {lb}")
    ctx.sample(str(u))


def plain(u, ctx):
    """probit_scaling and the squared norms of Jacobian rows."""
    import jax
    from flax.core import FrozenDict

    from fortuna.utils.grad import value_and_jacobian_squared_row_norm
    from fortuna.utils.probit import probit_scaling

    _, O, top_k, which, aux, form, values = u
    apply = lambda p, x: (model(p, x), {"n": 1}) if aux else model(p, x)
    mk = lambda p: FrozenDict(p) if form != "plain" else p
    scale_j = jax.jit(lambda p, x, lv: probit_scaling(apply, mk(p), x, lv, has_aux=aux, freeze_fun=FREEZE[which], top_k=top_k))
    norm_j = jax.jit(lambda p, x: value_and_jacobian_squared_row_norm(apply, mk(p), x, has_aux=aux, freeze_fun=FREEZE[which], top_k=top_k))
    tag = f"plain:{which}:{'top' if top_k else 'full'}"
    for v in range(values):
        p, x = weights(O, v), inputs((3, 4), v)
        if form == "dict":
            x = {"a": 0.5 * x, "b": 0.5 * x}
        lv = np.float32([-2.0, 0.5, 1.5, -0.25][v % 4])
        f = model(p, x)
        s = np.array(scales(jacobian(model, p, x, which), f[:, None], 1, 1, top_k))[:, 0]
        want = np.array(f) / (1 + np.pi / 8 * np.exp(lv) * s)
        try:
            got, (val, n) = scale_j(p, x, lv), norm_j(p, x)
        except Exception as e:
            ctx.fail(f"error:{type(e).__name__}:{tag}", f"{u}: {e!r:.300}")
            return
        if aux:
            got, val = got[0], val[0]
        ctx.ev(3); ctx.state(); ctx.trans()
        if top_k:
            ctx.nt((u, v))
        ctx.check(np.allclose(val, f, atol=1e-5), f"output:{tag}", lambda: f"{u}: {val}")
        ctx.check(np.shape(n) == s.shape and np.allclose(n, s, rtol=1e-3, atol=1e-4), f"norm:{tag}", lambda: f"{u} value {v}: {np.array(n).tolist()}, expected {s.tolist()}")
        ctx.check(np.allclose(got, want, rtol=1e-3, atol=1e-4), f"scaled:{tag}", lambda: f"{u} value {v}: {np.array(got).tolist()}, expected {want.tolist()}")


def errors(u, ctx):
    from fortuna.utils.probit import sequential_probit_scaling

    p = weights(2, 0)
    for n_final, memory in itertools.product((None, -1, 0, 1, 2, 3, 4), repeat=2):
        T = 3
        nf = T if n_final is None else n_final
        mm = nf if memory is None else memory
        try:
            sequential_probit_scaling(model, p, inputs((1, T, 4), 0), 0.0, n_final_tokens=n_final, memory=memory)
            got = "ok"
        except Exception as e:
            got = type(e).__name__
        want = "ok" if 1 <= nf <= T and 1 <= mm <= nf else "ValueError"
        ctx.ev()
        ctx.check(got == want, "range", f"{n_final} final tokens, memory {memory}: {got}, expected {want}")


def managers(u, ctx):
    """models with the editor: outputs of the model manager, predictions and fits."""
    import jax
    import jax.numpy as jnp
    from flax.core import FrozenDict

    from fortuna.model_editor.probit import ProbitModelEditor
    from fortuna.prob_model import ProbClassifier, ProbRegressor

    _, kind, norm, approx, which, log_var = u
    # paths of the selected parameters begin with the name of the model in regression only
    sel = {"all": None, "last": lambda p, v: "a" in p or "v" in p, "kernels": lambda p, v: "kernel" in p}[which]
    editor = ProbitModelEditor(freeze_fun=sel, init_log_var=log_var)
    kw = dict(posterior_approximator=pm.approximator(approx), model_editor=editor)
    tag = f"model:{kind}:{approx}:{'norm' if norm else 'plain'}:{which}"
    if kind == "cls":
        m = ProbClassifier(model=pm.mlp(2, norm=norm), **kw)
    else:
        m = ProbRegressor(model=pm.mlp(1, norm=norm), likelihood_log_variance_model=pm.mlp(1, 3, ("v",)), **kw)
    js = m.joint.init(input_shape=(2,))
    p = pm.flat(js.params)
    e = ("model_editor", "params", "log_var")
    ctx.ev()
    if not ctx.check(e in p and np.allclose(p[e], log_var), f"{tag}:init", lambda: f"{sorted(p)}"):
        return
    w = {k: v for k, v in p.items() if k[0] != "model_editor"}
    r = np.random.default_rng(1)
    w = {k: np.asarray(np.round(r.normal(size=v.shape) * 8) / 8 + (k[-1] == "scale"), "float32") for k, v in w.items()}
    from mc.props import c20

    params = FrozenDict({k: FrozenDict(v) for k, v in pm.unflat({**w, e: p[e]}).items()})
    stats = c20.stats(0) if norm else {}
    mut = FrozenDict({**{k: js.mutable[k] for k in js.mutable}, "model": pm.unflat(stats)["model"]}) if norm else js.mutable
    sel_leaf = [k for k in sorted(w) if sel is None or sel(k if kind == "reg" else k[1:], w[k])]
    order = np.cumsum([0] + [w[k].size for k in sel_leaf])

    def f(rav, x):
        ww = {k: jnp.asarray(v) for k, v in w.items()}
        ww.update({k: rav[a:b].reshape(w[k].shape) for k, a, b in zip(sel_leaf, order, order[1:])})
        return pm.forward(kind, ww, stats, x, xp=jnp)[0]

    rav = jnp.concatenate([jnp.ravel(w[k]) for k in sel_leaf])
    for n in (1, 3, 4):
        x = pm.X[:n]
        o = f(rav, x)
        J = jax.jacfwd(lambda r: f(r, x))(rav)
        want = np.array(o / (1 + np.pi / 8 * np.exp(log_var) * jnp.sum(J**2, -1)))
        for train in ((False, True) if not norm else (False,)):
            got = m.model_manager.apply(params, x, mutable=mut, train=train, rng=jax.random.PRNGKey(0))
            if isinstance(got, tuple):
                got = got[0]
            ctx.ev(); ctx.state(); ctx.trans()
            if norm or which != "all":
                ctx.nt((u, n, train))
            ctx.check(np.shape(got) == want.shape and np.allclose(got, want, rtol=1e-3, atol=1e-4), f"{tag}:apply", lambda: f"{u}, {n} points, train {train}: {np.array(got).tolist()}, expected {want.tolist()}")
    if norm:
        # training updates the running statistics as without the editor
        got = m.model_manager.apply(params, pm.X, mutable=mut, train=True, rng=jax.random.PRNGKey(0))[1]["mutable"]
        _, st = pm.forward(kind, w, stats, pm.X, train=True)
        g = pm.flat(got)
        ctx.ev()
        ctx.check(set(g) == set(st) and all(np.allclose(g[k], st[k], atol=1e-4) for k in st), f"{tag}:statistics", lambda: f"{u}: {g}, expected {st}")
    # a fit moves the scale, and predictions use it
    kw = {"map_fit_config": pm.config(epochs=1)} if approx in ("swag", "laplace") else {}
    try:
        m.train(pm.loader(kind), fit_config=pm.config(epochs=3), **kw)
        il = pm.loader(kind).to_inputs_loader()
        a = np.array(m.predictive.mean(il, n_posterior_samples=2))
        ctx.check(bool(np.all(np.isfinite(a))), f"{tag}:predict", lambda: f"{u}: {a}")
        s = m.posterior.sample(inputs_loader=il, input_shape=(2,))
        q = pm.flat(s.params)
        ctx.check(e in q and (approx == "laplace" or not np.allclose(q[e], log_var, atol=1e-7)), f"{tag}:fit", lambda: f"log-variance {q.get(e)} after a fit")
    except Exception as ex:
        ctx.fail(f"{tag}:fit:{type(ex).__name__}", f"{u}: {ex!r:.300}")
    ctx.ev(2)


def sngp(u, ctx):
    """The editor acts once on the features of an SNGP model."""
    import flax.linen as nn
    import jax
    import jax.numpy as jnp
    from flax.core import FrozenDict

    from fortuna.model_editor.base import ModelEditor
    from fortuna.prob_model import ProbClassifier
    from fortuna.prob_model.posterior.sngp.sngp_approximator import SNGPPosteriorApproximator

    calls = []

    class Shift(ModelEditor):
        @nn.compact
        def __call__(self, apply_fn, model_params, x, has_aux):
            s = self.param("s", nn.initializers.constant(2.0), (1,))
            out = apply_fn(model_params, x)
            calls.append(1)
            return (out[0] + s, out[1]) if has_aux else out + s

    class Feat(nn.Module):
        extra: float = 0.0

        @nn.compact
        def __call__(self, x, train=False, **kw):
            return nn.Dense(3, name="d")(x) + self.extra

    def build(editor, extra):
        return ProbClassifier(model=Feat(extra=extra), posterior_approximator=SNGPPosteriorApproximator(output_dim=2, gp_hidden_features=8), model_editor=editor, output_calibrator=None, seed=0)

    a, b = build(Shift(), 0.0), build(None, 2.0)
    ja, jb = a.joint.init(input_shape=(2,)), b.joint.init(input_shape=(2,))
    pa = FrozenDict({"model": FrozenDict(jb.params["model"]), "model_editor": FrozenDict(ja.params["model_editor"])})
    pb = FrozenDict({"model": FrozenDict(jb.params["model"])})
    for train, n in itertools.product((False, True), (1, 4)):
        o = []
        for m, p in ((a, pa), (b, pb)):
            try:
                r = m.model_manager.apply(p, pm.X[:n], mutable=jb.mutable, train=train, rng=jax.random.PRNGKey(0))
                o.append(np.array(r[0] if isinstance(r, tuple) else r))
            except Exception as e:
                o.append(repr(e)[:300])
        ctx.ev(); ctx.state(); ctx.trans()
        ok = not any(isinstance(v, str) for v in o) and np.allclose(o[0], o[1], atol=1e-5)
        ctx.check(ok, f"sngp:{'train' if train else 'eval'}", lambda: f"features shifted by the editor give {o[0]}, shifted in the model {o[1]}")


def units(tier):
    q = tier == "quick"
    nv = 6 if q else 16
    out = [("errors",), ("sngp",)]
    for O, top in ((1, None), (2, None), (3, None), (3, 1), (3, 2), (3, 3), (2, 1)):
        for which in ("all", "l2", "kernels", "l1", "k2"):
            for aux, form in ((False, "frozen"), (True, "plain"), (False, "dict")) if which in ("all", "l2") or not q else ((False, "frozen"),):
                out.append(("plain", O, top, which, aux, form, nv))
    Ts = (0, 1, 2, 3) if q else (0, 1, 2, 3, 4)
    i = 0
    for T in Ts:
        for n_final in [None] + list(range(1, T)):
            for memory in [None] + list(range(1, n_final or T)):
                for O, top in ((2, None), (3, 2), (3, 1), (1, None)) if q else ((1, None), (2, None), (2, 1), (3, None), (3, 1), (3, 2)):
                    for which in ("all", "kernels", "l2"):
                        i += 1
                        if q and which != "all" and i % 3:
                            continue
                        variants = ((False, "frozen", False), (True, "plain", True), (False, "dict", True), (True, "dict", False))
                        for aux, form, stop in variants[i % 4 : i % 4 + 1] if q else variants:
                            out.append(("seq", T, O, n_final, memory, top, which, aux, form, stop, nv))
    for kind in ("cls", "reg"):
        for norm in (False, True):
            for which in ("all", "last", "kernels"):
                for approx in ("map", "advi", "swag", "laplace", "sghmc") if which == "all" or not q else ("map",):
                    if q and (norm or kind == "reg") and approx in ("advi", "sghmc"):
                        continue
                    out.append(("model", kind, norm, approx, which, -1.0))
    return out


def run_unit(u, ctx):
    import jax

    {"seq": sequential, "plain": plain, "errors": errors, "model": managers, "sngp": sngp}[u[0]](u, ctx)
    run_unit.n = getattr(run_unit, "n", 0) + 1
    if run_unit.n % 8 == 0:
        jax.clear_caches()
