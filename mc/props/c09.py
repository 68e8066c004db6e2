"""C09 combined loaders: interposed, concatenated and device-augmented loaders, and the randomness guard."""
import itertools

import numpy as np

ID = "C09"
LEVEL = "exploration"
RULE = (
    "every tuple of up to three inputs loaders with every composition of up to four points into batches, every "
    "assignment of targets, both ways of combining; every batch sequence for device splitting on 1 and 2 devices; every "
    "pattern of which batches change between passes for the randomness guard; non-trivial = distinct configuration "
    "with at least two batches"
)
ASSUMPTIONS = ["the randomness guard is only required to look at the first four batches"]
ENV = {"XLA_FLAGS": "--xla_force_host_platform_device_count=2"}


def comps(n):
    return [c for k in range(1, n + 1) for c in itertools.product(range(1, n + 1), repeat=k) if sum(c) == n]


def units(tier):
    mx = 4 if tier == "quick" else 5
    u = []
    for how in ("interpose", "concatenate"):
        for L in (1, 2, 3):
            k = 1 if L < 3 else 8
            u += [("combine", how, L, mx if L < 3 else mx - (tier == "quick"), j, k) for j in range(k)]
    u += [("device", mx + 3), ("guard", 5), ("concat", mx)]
    return u


def parts(mx):
    return [c for n in range(0, mx + 1) for c in (comps(n) if n else [()])]


def run_unit(u, ctx):
    import jax
    import jax.numpy as jnp

    from fortuna.data import ConcatenatedLoader, DataLoader, DeviceDimensionAugmentedLoader, InputsLoader
    from fortuna.utils.data import check_data_loader_is_not_random

    if u[0] == "combine":
        _, how, L, mx, j, k = u
        for c, cfg in enumerate(itertools.product(parts(mx), repeat=L)):
            if c % k != j:
                continue
            base, m = 0, []
            for sizes in cfg:
                b = []
                for s in sizes:
                    b.append(list(range(base, base + s)))
                    base += s
                m.append(b)
            for targets in [tuple(range(L)), tuple(5 - i for i in range(L)), (1,) * L]:
                ls = [InputsLoader.from_iterable([np.array(b, "float32")[:, None] for b in bs]) for bs in m]
                d = DataLoader.from_inputs_loaders(ls, list(targets), how=how)
                want = []
                if how == "concatenate":
                    for bs, t in zip(m, targets):
                        want += [[(i, t) for i in b] for b in bs]
                else:
                    for r in range(max((len(b) for b in m), default=0)):
                        want.append([(i, t) for bs, t in zip(m, targets) if r < len(bs) for i in bs[r]])
                for rep in range(2):
                    got = [list(zip(x[:, 0].astype(int).tolist(), y.tolist())) for x, y in d]
                    ctx.check(got == want, f"{how}:batches", lambda: dict(loaders=m, targets=targets, got=got, want=want, rep=rep))
                ctx.check(d.size == base, f"{how}:size")
                ctx.state()
                if len(want) > 1:
                    ctx.nt((how, cfg, targets))
        try:
            DataLoader.from_inputs_loaders([], [], how="other")
            ctx.fail("unknown-how-accepted")
        except ValueError:
            ctx.ev()
        return
    if u[0] == "concat":
        for cfg in itertools.product(parts(u[1]), repeat=2):
            ls, want, c = [], [], 0
            for sizes in cfg:
                bs = []
                for s in sizes:
                    bs.append((np.arange(c, c + s), np.arange(c, c + s) + 100))
                    c += s
                ls.append(DataLoader.from_iterable(bs))
                want += [b[0].tolist() for b in bs]
            cl = ConcatenatedLoader(loaders=ls)
            for rep in range(2):
                got = [x.tolist() for x, y in cl if (y == x + 100).all()]
                ctx.check(got == want, "concatenated", lambda: dict(cfg=cfg, got=got, want=want))
            ctx.state()
            if len(want) > 1:
                ctx.nt(cfg)
        return
    if u[0] == "device":
        D = jax.local_device_count()
        ctx.check(D == 2, "harness:devices", D)
        for sizes in [p for p in parts(u[1]) if p]:
            for form in ("data", "inputs", "dict"):
                c, bs = 0, []
                for s in sizes:
                    x = np.arange(2 * c, 2 * (c + s), dtype="float32").reshape(s, 2)
                    bs.append(x)
                    c += s
                if form == "data":
                    src = DataLoader.from_iterable([(x, x[:, 0]) for x in bs])
                elif form == "inputs":
                    src = InputsLoader.from_iterable(bs)
                else:
                    src = InputsLoader.from_iterable([{"a": x, "b": x + 1} for x in bs])
                dl = DeviceDimensionAugmentedLoader(src)
                bad = any(s % D for s in sizes)
                ctx.state()
                if len(sizes) > 1:
                    ctx.nt((sizes, form))
                try:
                    got = [jax.tree_util.tree_map(np.asarray, b) for b in dl]
                except ValueError:
                    ctx.check(bad, "device:rejected", sizes)
                    continue
                ctx.check(not bad, "device:indivisible-accepted", sizes)
                ok = len(got) == len(bs)
                for g, x in zip(got, bs):
                    if form == "data":
                        ok &= g[0].shape == (D, len(x) // D, 2) and (g[0].reshape(-1, 2) == x).all() and (g[1].reshape(-1) == x[:, 0]).all()
                    elif form == "inputs":
                        ok &= g.shape == (D, len(x) // D, 2) and (g.reshape(-1, 2) == x).all()
                    else:
                        ok &= (g["a"].reshape(-1, 2) == x).all() and (g["b"].reshape(-1, 2) == x + 1).all() and g["a"].shape[0] == D
                ctx.check(ok, "device:content", lambda: dict(sizes=sizes, form=form))
        return
    # which batches differ between passes: 0 nothing, 1 one input element, 2 one target, 3 both
    for L in range(1, u[1] + 1):
        for pat in itertools.product(range(4), repeat=L):
            for form in ("array", "dict"):
                calls = [0]

                def gen():
                    calls[0] += 1
                    c = calls[0]
                    for i, p in enumerate(pat):
                        x = np.arange(3.0) + i
                        y = np.arange(3) + i
                        if p & 1:
                            x[i % 3] += c
                        if p & 2:
                            y[(i + 1) % 3] += c
                        yield (x if form == "array" else {"a": np.arange(3.0), "b": x}), y

                d = DataLoader.from_callable_iterable(gen)
                try:
                    check_data_loader_is_not_random(d)
                    flagged = False
                except ValueError:
                    flagged = True
                ctx.state()
                if L > 1:
                    ctx.nt((pat, form))
                if any(pat[:4]):
                    ctx.check(flagged, "guard:random-loader-accepted", lambda: dict(pattern=pat, form=form))
                elif not any(pat):
                    ctx.check(not flagged, "guard:deterministic-loader-rejected", lambda: dict(pattern=pat, form=form))
