"""C18 SGMCMC: chains follow the documented dynamics and samples are taken at the documented steps."""
import itertools

import numpy as np

from .. import pm

ID = "C18"
LEVEL = "model_checking"
RULE = (
    "integrators: state (positions, momentum, second moments, step), every sequence of gradients over an alphabet up to the bound for every "
    "momentum decay, step schedule, preconditioner, cycle length and exploration ratio, against an independent numpy model; preconditioner algebra and "
    "schedules at every step; whole fits: every burn-in, thinning, cycle, exploration ratio, number of samples, batches and epochs, where each stored sample "
    "must be the recorded chain state of the expected step, and the recorded chain must follow the model with an independent gradient and one and the same noise; "
    "non-trivial = a sequence with at least two different gradients, or a fit with thinning, burn-in or exploration"
)
ASSUMPTIONS = [
    "noise of step k is a function of the key, the step and the leaf, and is measured from a chain without gradients",
    "in cyclical SGLD, steps without noise may or may not advance the noise generator, and the cosine cycle may start at the step of the burn-in length or the one after it",
]
P0 = {"a": np.array([0.5, -1.0]), "b": np.array(2.0)}
G = [
    {"a": np.array([0.0, 0.0]), "b": np.array(0.0)},
    {"a": np.array([1.0, -2.0]), "b": np.array(0.5)},
    {"a": np.array([0.0, 3.0]), "b": np.array(-1.0)},
    {"a": np.array([-50.0, 0.25]), "b": np.array(8.0)},
]
PRE = (None, (0.99, 1e-7), (0.5, 0.01))
SCHED = {
    "const": ("constant_schedule", dict(init_step_size=0.04), lambda k: 0.04),
    "cos": ("cosine_schedule", dict(init_step_size=0.3, total_steps=3), lambda k: 0.15 * (1 + np.cos(k / 3 * np.pi))),
    "poly": ("polynomial_schedule", dict(a=0.1, b=1.5, gamma=0.75), lambda k: 0.1 * (1.5 + k) ** -0.75),
    "burn": ("constant_schedule_with_cosine_burnin", dict(init_step_size=0.3, final_step_size=0.05, burnin_steps=2),
             lambda k: (lambda c: c * 0.3 + (1 - c) * 0.05)(0.5 * (1 + np.cos(min(k / 2, 1.0) * np.pi)))),
}


def units(tier):
    u = []
    decays = (0.0, 0.01, 0.5, 0.9) if tier == "quick" else (0.0, 0.01, 0.1, 0.5, 0.9, 0.99)
    for s, d in itertools.product(SCHED, decays):
        for p in range(3):
            for r in (None, 1, 2, 3):
                if tier == "quick" and r is not None and (s != "const" or p == 2):
                    continue
                u.append(("sghmc", s, d, p, r))
    for c, e in itertools.product((1, 2, 3, 4, 5), (0.0, 0.25, 0.5, 0.75, 1.0)):
        for p in range(3):
            for init in (0.04, 0.3):
                if tier == "quick" and (c + p + (init > 0.1)) % 2:
                    continue
                u.append(("sgld", init, c, e, p))
    u += [("pre",), ("sched",), ("noise",)]
    shapes = ((1, 3), (2, 2), (4, 2), (2, 4)) if tier == "quick" else ((1, 3), (2, 2), (2, 3), (4, 2), (2, 4), (4, 3))
    for nb, ep in shapes:
        for b in range(0, 5):
            for t in (1, 2, 3):
                u.append(("hfit", nb, ep, b, t))
        for c, e in itertools.product((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 8), (0.0, 0.3, 0.5, 1.0)):
            u.append(("lfit", nb, ep, c, e))
    for d, lr, p in itertools.product((0.0, 0.5, 0.9), (0.0004, 0.01), (0, 2)):
        u.append(("hdyn", d, lr, p))
    for c, e, p in itertools.product((2, 3, 4), (0.0, 0.5, 1.0), (0, 2)):
        u.append(("ldyn", c, e, p))
    return u


_N = [0]


def run_unit(u, ctx):
    import jax

    _N[0] += 1
    if _N[0] % 25 == 0:
        jax.clear_caches()
    {"sghmc": sghmc, "sgld": sgld, "pre": pre, "sched": sched, "noise": noise_unit, "hfit": hfit, "lfit": lfit, "hdyn": hdyn, "ldyn": ldyn}[u[0]](u, ctx)


def precond(p):
    from fortuna.prob_model.posterior.sgmcmc.sgmcmc_preconditioner import identity_preconditioner, rmsprop_preconditioner

    return identity_preconditioner() if PRE[p] is None else rmsprop_preconditioner(*PRE[p])


def tree(f, *t):
    return {k: f(*(x[k] for x in t)) for k in t[0]}


class Ref:
    """numpy model of the samplers; state = (momentum, second moments, step, noisy steps)."""

    def __init__(self, p):
        self.p = PRE[p]

    def init(self, w):
        z = tree(np.zeros_like, w)
        return z, z, 0, 0

    def scale(self, v):
        return tree(lambda e: self.p[1] + np.sqrt(e), v) if self.p else tree(np.ones_like, v)

    def moments(self, v, g):
        f = self.p[0] if self.p else 0.0
        return tree(lambda e, x: e * f + (1 - f) * x * x, v, g) if self.p else v

    def noisy(self, s, g, lr, d, reset, n):
        m, v, k, q = s
        v = self.moments(v, g)
        M = self.scale(v)
        if reset:
            m = tree(np.zeros_like, m)
        m = {x: d * m[x] + np.sqrt(lr) * g[x] + np.sqrt(2 * (1 - d)) * np.sqrt(M[x]) * n[x] for x in g}
        return {x: np.sqrt(lr) * m[x] / M[x] for x in g}, (m, v, k + 1, q + 1)

    def quiet(self, s, g, lr):
        m, v, k, q = s
        v = self.moments(v, g)
        M = self.scale(v)
        return {x: lr * g[x] / M[x] for x in g}, (m, v, k + 1, q)


def noises(n):
    """noise of the first steps, from a chain without gradients, momentum and preconditioner, of step size one."""
    import jax

    from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_integrator import sghmc_integrator
    from fortuna.prob_model.posterior.sgmcmc.sgmcmc_step_schedule import constant_schedule

    t = sghmc_integrator(momentum_decay=0.0, momentum_resample_steps=None, rng_key=jax.random.PRNGKey(3), step_schedule=constant_schedule(1.0), preconditioner=precond(0))
    w = to_jax(P0)
    s = t.init(w)
    out = []
    for _ in range(n):
        up, s = t.update(to_jax(G[0]), s, w)
        out.append(tree(lambda x: np.array(x, "float64") / np.sqrt(2), up))
    return out


def to_jax(t):
    import jax.numpy as jnp

    return tree(lambda x: jnp.asarray(x, "float32"), t)


def close(a, b, tol=2e-4):
    return all(np.all(np.abs(np.asarray(a[k], "float64") - b[k]) <= tol * (np.max(np.abs(b[k])) + 1e-3)) for k in b)


def walk(ctx, sig, u, tr, refs, depth):
    """All sequences of gradients; refs(s, k, g) returns the set of admissible (update, next state)."""
    import jax

    w = to_jax(P0)
    upd = jax.jit(tr.update)
    stack = [((), tr.init(w), None)]
    while stack:
        seq, s, rs = stack.pop()
        if len(seq) >= depth:
            continue
        for i, g in enumerate(G):
            ups, s2 = upd(to_jax(g), s, w)
            cur = [r(rs[j] if rs else None, len(seq), g) for j, r in enumerate(refs)]
            ok = [c if c is not None and close(ups, c[0]) else None for c in cur]
            ctx.trans()
            ctx.ev()
            if not ctx.check(any(c is not None for c in ok), sig, lambda: [u, seq + (i,), {k: np.array(v).tolist() for k, v in ups.items()}, [c and {k: v.tolist() for k, v in c[0].items()} for c in cur]]):
                return
            if len(set(seq + (i,))) > 1:
                ctx.nt((u, seq + (i,)))
            ctx.state()
            stack.append((seq + (i,), s2, [c[1] if c is not None else "dead" for c in ok]))


DEPTH = {"quick": 4, "thorough": 5}


def sghmc(u, ctx):
    import jax

    from fortuna.prob_model.posterior.sgmcmc import sgmcmc_step_schedule as S
    from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_integrator import sghmc_integrator

    _, s, d, p, r = u
    name, kw, f = SCHED[s]
    tr = sghmc_integrator(momentum_decay=d, momentum_resample_steps=r, rng_key=jax.random.PRNGKey(3), step_schedule=getattr(S, name)(**kw), preconditioner=precond(p))
    ref = Ref(p)
    ns = noises(6)
    walk(ctx, "sghmc", u, tr, [lambda st, k, g: ref.noisy(st or ref.init(P0), g, f(k), d, r is not None and k % r == 0, ns[k])], DEPTH[ctx.tier])


def sgld(u, ctx):
    import jax

    from fortuna.prob_model.posterior.sgmcmc.cyclical_sgld.cyclical_sgld_integrator import cyclical_sgld_integrator

    _, init, c, e, p = u
    tr = cyclical_sgld_integrator(rng_key=jax.random.PRNGKey(3), init_step_size=init, cycle_length=c, exploration_ratio=e, preconditioner=precond(p))
    ref = Ref(p)
    ns = noises(6)

    def step(lag, advance):
        def f(st, k, g):
            if st == "dead":
                return None
            st = st or ref.init(P0)
            t = max(k - lag, 0) % c / c
            lr = 0.5 * init * (1 + np.cos(np.pi * t))
            if (k % c) / c >= e:
                return ref.noisy(st, g, lr, 0.0, False, ns[k if advance else st[3]])
            return ref.quiet(st, g, lr)

        return f

    walk(ctx, "sgld", u, tr, [step(l, a) for l in (0, 1) for a in (0, 1)], DEPTH[ctx.tier])


def pre(u, ctx):
    import jax.numpy as jnp

    for p in range(3):
        pr = precond(p)
        ref = Ref(p)
        for n in range(0, 4):
            for seq in itertools.product(range(len(G)), repeat=n):
                s, (m, v, _, _) = pr.init(to_jax(P0)), ref.init(P0)
                for i in seq:
                    s = pr.update_preconditioner(to_jax(G[i]), s)
                    v = ref.moments(v, G[i])
                M = ref.scale(v)
                ctx.state()
                ctx.ev(3)
                if n > 1:
                    ctx.nt((p, seq))
                for x in (P0, G[3]):
                    for f, e in (("multiply_by_m_sqrt", 0.5), ("multiply_by_m_inv", -1.0), ("multiply_by_m_sqrt_inv", -0.5)):
                        got = getattr(pr, f)(to_jax(x), s)
                        want = tree(lambda a, b: a * b**e, x, M)
                        ctx.trans()
                        ctx.check(close(got, want), f"preconditioner:{f}", lambda: [p, seq, str(got), str(want)])


def sched(u, ctx):
    import jax.numpy as jnp

    from fortuna.prob_model.posterior.sgmcmc import sgmcmc_step_schedule as S

    def one(name, kw, f):
        fs = f if isinstance(f, list) else [f]
        alive = list(range(len(fs)))
        sc = getattr(S, name)(**kw)
        for k in range(0, 25):
            for arr in (jnp.asarray(k, "int32"), k):
                got = float(sc(arr))
                alive = [i for i in alive if abs(got - fs[i](k)) <= 1e-5]
                ctx.ev()
                ctx.trans()
                if not ctx.check(bool(alive), f"schedule:{name}", [kw, k, got, [g(k) for g in fs]]):
                    return
        ctx.state()
        ctx.nt((name, str(kw)))

    for s in (0.0, 0.1, 1.0):
        one("constant_schedule", dict(init_step_size=s), lambda k: s)
        for n in (1, 2, 5, 10):
            one("cosine_schedule", dict(init_step_size=s, total_steps=n), lambda k: 0.5 * s * (1 + np.cos(k / n * np.pi)))
            for b in (0, 1, 2, 5):
                one("cyclical_cosine_schedule_with_const_burnin", dict(init_step_size=s, burnin_steps=b, cycle_length=n),
                    [lambda k, l=l: 0.5 * s * (1 + np.cos(max(k - b - l, 0) % n / n * np.pi)) for l in (0, 1)])
        for f in (0.0, 0.05, 0.5):
            for b in (0, 1, 2, 5):
                def want(k):
                    c = 0.5 * (1 + np.cos(np.pi * (min(k / b, 1.0) if b else 1.0)))
                    return c * s + (1 - c) * f

                one("constant_schedule_with_cosine_burnin", dict(init_step_size=s, final_step_size=f, burnin_steps=b), want)
    for a, b, g in itertools.product((0.1, 1.0), (0.5, 1.0, 10.0), (0.51, 0.55, 0.75, 1.0)):
        one("polynomial_schedule", dict(a=a, b=b, gamma=g), lambda k: a * (b + k) ** -g)
    for name, kw in (
        ("constant_schedule", dict(init_step_size=-0.1)), ("cosine_schedule", dict(init_step_size=-0.1, total_steps=2)),
        ("cosine_schedule", dict(init_step_size=0.1, total_steps=0)), ("polynomial_schedule", dict(gamma=0.5)), ("polynomial_schedule", dict(gamma=1.01)),
        ("constant_schedule_with_cosine_burnin", dict(init_step_size=-1.0, final_step_size=0.1, burnin_steps=2)),
        ("constant_schedule_with_cosine_burnin", dict(init_step_size=1.0, final_step_size=-0.1, burnin_steps=2)),
        ("constant_schedule_with_cosine_burnin", dict(init_step_size=1.0, final_step_size=0.1, burnin_steps=-2)),
        ("cyclical_cosine_schedule_with_const_burnin", dict(init_step_size=-1.0, burnin_steps=1, cycle_length=2)),
        ("cyclical_cosine_schedule_with_const_burnin", dict(init_step_size=1.0, burnin_steps=-1, cycle_length=2)),
        ("cyclical_cosine_schedule_with_const_burnin", dict(init_step_size=1.0, burnin_steps=1, cycle_length=0)),
    ):
        ctx.ev()
        try:
            getattr(S, name)(**kw)
            ok = False
        except ValueError:
            ok = True
        ctx.check(ok, f"schedule:{name}:invalid", [kw])


def noise_unit(u, ctx):
    """the noise is standard normal, and differs between steps, leaves and keys."""
    import jax
    import jax.numpy as jnp

    from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_integrator import sghmc_integrator
    from fortuna.prob_model.posterior.sgmcmc.sgmcmc_step_schedule import constant_schedule

    N = 40000
    w = {"a": jnp.zeros(N), "b": jnp.zeros(N)}
    draws = []
    for seed in range(3):
        t = sghmc_integrator(momentum_decay=0.0, momentum_resample_steps=None, rng_key=jax.random.PRNGKey(seed), step_schedule=constant_schedule(1.0), preconditioner=precond(0))
        s = t.init(w)
        for _ in range(3):
            up, s = t.update(w, s, w)
            draws += [np.array(up["a"], "float64") / np.sqrt(2), np.array(up["b"], "float64") / np.sqrt(2)]
    for d in draws:
        ctx.ev()
        ctx.check(abs(d.mean()) < 5 / np.sqrt(N) and abs(d.var() - 1) < 6 * np.sqrt(2 / N) and abs((d**4).mean() - 3) < 0.4, "noise:normal", [float(d.mean()), float(d.var())])
    for a, b in itertools.combinations(range(len(draws)), 2):
        ctx.ev()
        ctx.check(abs((draws[a] * draws[b]).mean()) < 5.5 / np.sqrt(N), "noise:dependent", [a, b])
    ctx.state(len(draws))
    ctx.nt("noise")


class Rec:
    def __new__(cls, log):
        from fortuna.prob_model.fit_config.callback import FitCallback

        class C(FitCallback):
            def training_step_end(self, state):
                log.append((pm.flat(state.params), None if state.mutable is None else pm.flat(state.mutable)))
                return state

        return C()


BS = {1: 4, 2: 2, 4: 1}


def fit(name, nb, ep, freeze=None, norm=False, jit=True, **kw):
    m = pm.model("cls", name, norm=norm, **kw)
    log = []
    m.train(pm.loader("cls", bs=BS[nb]), fit_config=pm.config(0.1, ep, freeze, callbacks=[Rec(log)], jit=jit, devices=-1 if jit else 0))
    return m, log


def samples(ctx, sig, u, name, nb, ep, n, steps, **kw):
    """steps: the expected steps (from one) at which samples are taken, in order."""
    import jax

    enough = len(steps) >= n
    fz = [p for p in pm.PATHS["cls"] if p[2] == "a"] if (nb + n) % 3 == 0 else None
    norm = (nb + ep + n) % 3 == 1
    ctx.ev()
    ctx.state()
    try:
        m, log = fit(name, nb, ep, pm.freezer(fz) if fz and not norm else None, norm, n_samples=n, **kw)
    except ValueError as e:
        ctx.check(not enough, f"{sig}:rejected", [u, n, steps, str(e)[:200]])
        return
    if not ctx.check(enough, f"{sig}:accepted", [u, n, steps]):
        return
    ctx.trans(len(log))
    ctx.nt((u, n))
    if not ctx.check(len(log) == nb * ep, f"{sig}:steps", [u, n, len(log)]):
        return
    st = []
    for i in range(n):
        s = m.posterior.state.get(i)
        p = pm.flat(s.params)
        want, wm = log[steps[i] - 1]
        at = [k + 1 for k, (q, _) in enumerate(log) if all(np.array_equal(p[x], q[x]) for x in q)]
        ctx.check(steps[i] in at, f"{sig}:step", [u, n, i, "expected", steps[i], "found", at])
        if wm is not None:
            ctx.check(pm.same(pm.flat(s.mutable), wm, 1e-6), f"{sig}:mutable", [u, n, i])
        ctx.ev()
        st.append(p)
    seen = set()
    for r in range(12):
        p = pm.flat(m.posterior.sample(rng=jax.random.PRNGKey(r)).params)
        hit = {i for i in range(n) if pm.same(p, st[i])}
        ctx.ev()
        ctx.check(bool(hit), f"{sig}:sample", [u, n, r])
        seen |= hit
    ctx.check(len(seen) == n, f"{sig}:never-sampled", [u, n, sorted(seen)])


def hfit(u, ctx):
    _, nb, ep, b, t = u
    steps = [k for k in range(1, nb * ep + 1) if k > b and (k - b) % t == 0]
    for n in (1, 2, 3):
        if n in (1, 3) and len(steps) > 3 and (b + t) % 2:
            continue
        samples(ctx, "sghmc", u, "sghmc", nb, ep, n, steps, n_thinning=t, burnin_length=b, step_schedule=0.01)


def lfit(u, ctx):
    _, nb, ep, c, e = u
    for t in (1, 2):
        steps = [k for k in range(1, nb * ep + 1) if (k - 1) % c / c >= e and (k - 1) % c % t == 0]
        for n in (1, 2, 3):
            if n in (1, 3) and len(steps) > 3 and (c + t) % 2:
                continue
            samples(ctx, "sgld", u, "sgld", nb, ep, n, steps, n_thinning=t, cycle_length=c, exploration_ratio=e, init_step_size=0.01)


def gradient():
    import jax
    import jax.numpy as jnp

    keys = pm.PATHS["cls"]

    def f(w, x, y):
        d = dict(zip(keys, w))
        out, _ = pm.forward("cls", d, {}, x, True, jnp)
        m = out - out.max(-1, keepdims=True)
        lp = (m - jnp.log(jnp.exp(m).sum(-1, keepdims=True)))[jnp.arange(len(y)), y]
        return 4 / len(y) * lp.sum() + pm.log_prior(d, jnp)

    g = jax.jit(jax.grad(f))
    return lambda w, x, y: dict(zip(keys, [np.array(v, "float64") for v in g([w[k].astype("float32") for k in keys], x, y)]))


def batches(n):
    i = 0
    while True:
        for j in (0, 2):
            yield pm.X[j:j + 2], pm.YC[j:j + 2]
            i += 1
            if i == n:
                return


def extract(log, ref, d, lr, p):
    """the noise which explains the recorded chain, if its dynamics are those of the model."""
    g = gradient()
    w = {k: v.astype("float64") for k, v in pm.initial("cls").items()}
    s = ref.init(w)
    out = []
    for (x, y), (nw, _) in zip(batches(len(log)), log):
        nw = {k: v.astype("float64") for k, v in nw.items()}
        gr = g(w, x, y)
        v = ref.moments(s[1], gr)
        M = ref.scale(v)
        m = {k: (nw[k] - w[k]) / np.sqrt(lr) * M[k] for k in w}
        out.append({k: (m[k] - d * s[0][k] - np.sqrt(lr) * gr[k]) / np.sqrt(2 * (1 - d)) / np.sqrt(M[k]) for k in w})
        s, w = (m, v, s[2] + 1, 0), nw
    return out


def hdyn(u, ctx):
    _, d, lr, p = u
    pr = {"preconditioner": precond(p)}
    _, log = fit("sghmc", 2, 4, n_samples=1, burnin_length=0, momentum_decay=d, step_schedule=lr, **pr)
    _, base = fit("sghmc", 2, 4, n_samples=1, burnin_length=0, momentum_decay=0.25, step_schedule=0.002)
    a, b = extract(log, Ref(p), d, lr, p), extract(base, Ref(0), 0.25, 0.002, 0)
    ctx.state()
    ctx.trans(len(log))
    ctx.nt(u)
    allv = np.concatenate([v.ravel() for n in b for v in n.values()])
    ctx.check(0.8 < allv.std() < 1.25 and abs(allv.mean()) < 0.35, "dynamics:sghmc:noise", [u, float(allv.std()), float(allv.mean())])
    for i, (x, y) in enumerate(zip(a, b)):
        ctx.ev()
        bad = {str(k): [x[k].tolist(), y[k].tolist()] for k in x if not np.allclose(x[k], y[k], atol=2e-2, rtol=1e-2)}
        if not ctx.check(not bad, "dynamics:sghmc", [u, i, bad]):
            return


def ldyn(u, ctx):
    _, c, e, p = u
    init = 0.01
    _, base = fit("sgld", 2, 4, n_samples=1, cycle_length=1, exploration_ratio=0.0, init_step_size=0.002)
    ns = extract(base, Ref(0), 0.0, 0.002, 0)
    try:
        _, log = fit("sgld", 2, 4, n_samples=1, cycle_length=c, exploration_ratio=e, init_step_size=init, preconditioner=precond(p))
    except ValueError:
        ctx.check(e == 1.0, "dynamics:sgld:rejected", [u])
        return
    ctx.state()
    ctx.nt(u)
    g = gradient()
    ref = Ref(p)
    best = []
    for lag, adv in itertools.product((0, 1), (0, 1)):
        w = {k: v.astype("float64") for k, v in pm.initial("cls").items()}
        s = ref.init(w)
        first = None
        for i, ((x, y), (nw, _)) in enumerate(zip(batches(len(log)), log)):
            nw = {k: v.astype("float64") for k, v in nw.items()}
            gr = g(w, x, y)
            lr = 0.5 * init * (1 + np.cos(np.pi * (max(i - lag, 0) % c) / c))
            if (i % c) / c >= e:
                up, s = ref.noisy(s, gr, lr, 0.0, False, ns[i if adv else s[3]])
            else:
                up, s = ref.quiet(s, gr, lr)
            bad = {str(k): [(nw[k] - w[k]).tolist(), up[k].tolist()] for k in w if not np.allclose(nw[k] - w[k], up[k], atol=2e-3 * (1 if p == 0 else 3), rtol=2e-2)}
            if bad:
                first = [lag, adv, i, bad]
                break
            w = nw
        best.append(first)
        ctx.trans(len(log))
    ctx.ev()
    ctx.check(None in best, "dynamics:sgld", lambda: [u, max(best, key=lambda b: b[2])])
