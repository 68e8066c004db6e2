"""C19 chain diagnostics: effective sample size and kernel Stein discrepancy equal their definitions."""
import itertools

import numpy as np

ID = "C19"
LEVEL = "exploration"
RULE = (
    "effective sample size: every chain of up to six (quick) or eight (thorough) values from an alphabet of three, every threshold, alone and as a coordinate of a nested sample; "
    "kernel Stein discrepancy: every pair and triple of samples and gradients from small alphabets in one and two dimensions, every kernel hyperparameter, "
    "against direct double loops in numpy; non-trivial = a chain which is not constant"
)
ASSUMPTIONS = ["chains where an autocorrelation equals the threshold up to rounding may be cut at either place"]


def ess_ref(x, thr):
    """admissible values, from the definition."""
    n = len(x)
    z = x - x.mean()
    cov = np.array([(z[: n - k] * z[k:]).sum() / (n - k) for k in range(n)])
    r = cov / cov[0]
    w = (n - np.arange(n)) / n * r
    total = lambda c: n / (-1 + 2 * w[:c].sum())
    if thr is None:
        return [total(n)], w, [n]
    cuts = []
    for k in range(n):
        if abs(r[k] - thr) < 1e-5:
            cuts.append(k)
        elif r[k] < thr:
            cuts.append(k)
            break
    else:
        cuts.append(n)
    return [total(c) for c in cuts], w, cuts


def ksd_ref(S, Gr, c, b):
    n, d = S.shape
    tot = 0.0
    for i in range(n):
        for j in range(n):
            u = S[i] - S[j]
            q = c * c + u @ u
            k = q**b
            dx = 2 * b * q ** (b - 1) * u  # gradient in the first argument
            dxy = -(2 * b * q ** (b - 1) * d + 4 * b * (b - 1) * q ** (b - 2) * (u @ u))
            tot += Gr[i] @ Gr[j] * k + Gr[j] @ dx - Gr[i] @ dx + dxy
    return np.sqrt(max(tot, 0.0)) / n


def units(tier):
    u = [("ess", n, t) for n in range(2, 7 if tier == "quick" else 9) for t in (None, 0.0, 0.1, 0.5)]
    u += [("tree", n) for n in (2, 3, 5)]
    for c, b in itertools.product((None, 0.5, 1.0, 2.0), (None, -0.5, -0.25, -1.0)):
        u.append(("ksd", c, b))
    return u + [("bad",)]


def run_unit(u, ctx):
    import jax.numpy as jnp

    from fortuna.prob_model.posterior.sgmcmc import sgmcmc_diagnostic as D

    if u[0] == "ess":
        _, n, thr = u
        seqs = [s for s in itertools.product((0.0, 1.0, 3.0), repeat=n) if len(set(s)) > 1]
        A = np.array(seqs, "float32").T  # sample i = value i of every chain
        got = np.array(D.effective_sample_size([jnp.asarray(a) for a in A], thr), "float64")
        for i, s in enumerate(seqs):
            ctx.state()
            ctx.ev()
            ctx.trans(n)
            ctx.nt((thr, s))
            ok(ctx, "ess", got[i], np.array(s), thr)
        for s in seqs[:: max(1, len(seqs) // 40)]:  # alone
            g = float(np.squeeze(D.effective_sample_size([jnp.asarray([v], "float32") for v in s], thr)[0]))
            ctx.ev()
            ok(ctx, "ess:alone", g, np.array(s), thr)
    elif u[0] == "tree":
        n = u[1]
        for s in itertools.product((0.0, 1.0, 3.0), repeat=n):
            if len(set(s)) == 1 or (n == 5 and s[0]):
                continue
            o = s[::-1]
            z = np.arange(n) % 2.0
            t = [{"p": {"w": jnp.asarray([[a, b]], "float32")}, "q": jnp.asarray(c, "float32")} for a, b, c in zip(s, o, z)]
            g = D.effective_sample_size(t)
            ctx.state()
            ctx.ev(3)
            ctx.trans(n)
            ctx.nt(("tree", s))
            if not ctx.check(set(g) == {"p", "q"} and g["p"]["w"].shape == (1, 2) and jnp.shape(g["q"]) == (), "ess:structure", [str(g)]):
                return
            ok(ctx, "ess:tree", float(g["p"]["w"][0, 0]), np.array(s), 0.0)
            ok(ctx, "ess:tree", float(g["p"]["w"][0, 1]), np.array(o), 0.0)
            ok(ctx, "ess:tree", float(g["q"]), z, 0.0)
    elif u[0] == "ksd":
        _, c, b = u
        kw = {**({} if c is None else {"c": c}), **({} if b is None else {"beta": b})}
        rc, rb = 1.0 if c is None else c, -0.5 if b is None else b

        def one(S, Gr, tree):
            f = (lambda r: [{"x": jnp.asarray(v[0], "float32"), "y": jnp.asarray(v[1:], "float32")} for v in r]) if tree else (lambda r: [jnp.asarray(v, "float32") for v in r])
            got = float(D.kernel_stein_discrepancy_imq(f(S), f(Gr), **kw))
            want = ksd_ref(S, Gr, rc, rb)
            ctx.state()
            ctx.ev()
            ctx.trans(len(S))
            if len({tuple(r) for r in S}) > 1:
                ctx.nt((u, S.tolist(), Gr.tolist()))
            ctx.check(abs(got - want) <= 2e-3 * (1 + want), "ksd", lambda: [u, S.tolist(), Gr.tolist(), got, want])

        V, W = (-1.0, 0.5, 2.0), (-1.5, 0.0, 1.0)
        for s in itertools.product(V, repeat=2):
            for g in itertools.product(W, repeat=2):
                one(np.array(s)[:, None], np.array(g)[:, None], False)
        for s in itertools.product(V, repeat=3):
            for g in ((0.0, 1.0, -1.5), (1.0, 1.0, 1.0), tuple(-x for x in s)):
                one(np.array(s)[:, None], np.array(g)[:, None], False)
        pts = list(itertools.product((0.0, 1.5), repeat=2))
        for s in itertools.product(pts, repeat=3):
            one(np.array(s), -np.array(s) + [[0.5, 0], [0, 0], [0, -1]], len(set(s)) == 2)
    else:
        for kw in (dict(c=0.0), dict(c=-1.0), dict(beta=0.0), dict(beta=0.5)):
            S = [jnp.asarray([1.0]), jnp.asarray([2.0])]
            ctx.ev()
            ctx.state()
            try:
                D.kernel_stein_discrepancy_imq(S, S, **kw)
                good = False
            except ValueError:
                good = True
            ctx.check(good, "ksd:invalid", [kw])


def ok(ctx, sig, got, s, thr):
    want, w, cuts = ess_ref(s, thr)
    den = [-1 + 2 * w[:c].sum() for c in cuts]
    # 1 / x is ill-conditioned near zero: compare denominators
    good = any(abs(len(s) / got - d) <= 1e-3 for d in den) if got else False
    ctx.check(good, sig, lambda: [s.tolist(), thr, got, want])
