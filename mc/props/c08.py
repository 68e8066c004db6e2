"""C08 data loaders: an algebra of loader operations, explored as a state machine over batch sequences."""
import itertools

import numpy as np

ID = "C08"
LEVEL = "model_checking"
RULE = (
    "state = sequence of batches of data point ids; breadth-first search over all chains of loader operations (chop, "
    "split, sample, transformations with status, rebuilding) up to the depth bound from every base loader; each "
    "transition is replayed on the data, inputs and targets loaders of the library; non-trivial = distinct (state, operation)"
)
ASSUMPTIONS = ["sampling more than zero points from an empty loader does not terminate and is outside the space"]


def bases(tier):
    b = []
    for n in (1, 2, 3, 4, 5):
        for bs in (None, 1, 2, 3, 7):
            for sh, pf in ((0, 0), (1, 0), (0, 1), (1, 1)):
                b.append(("array", n, bs, sh, pf))
    comps = [()] + [c for n in (1, 2, 3, 4, 5) for k in range(1, n + 1) for c in itertools.product(range(1, n + 1), repeat=k) if sum(c) == n]
    b += [("iter", c) for c in comps] + [("callable", c) for c in comps if len(c) in (2, 3)]
    return b


def units(tier):
    b = bases(tier)
    k = 24
    return [(tier, 2 if tier == "quick" else 3, j, k) for j in range(k)] + [("shuffle",), ("sampling",), ("foreign",)]


def X(ids):
    return np.array([[10 * i, 10 * i + 1] for i in ids], dtype="float32").reshape(-1, 2)


def Y(ids):
    return np.array([i % 3 for i in ids], dtype="int32")


def ids_x(x):
    x = np.asarray(x)
    assert x.ndim == 2 and x.shape[1] == 2
    return tuple(int(r[0]) // 10 if r[1] == r[0] + 1 else -1 for r in x)


def build(base):
    from fortuna.data.loader import DataLoader, InputsLoader, TargetsLoader

    if base[0] == "array":
        _, n, bs, sh, pf = base
        kw = dict(batch_size=bs, shuffle=bool(sh), prefetch=bool(pf))
        x, y = X(range(n)), Y(range(n))
        trip = (DataLoader.from_array_data((x, y), **kw), InputsLoader.from_array_inputs(x, **kw), TargetsLoader.from_array_targets(y, **kw))
        if sh:
            m = tuple(ids_x(b) for b, _ in trip[0])  # the permutation is read off, and checked to be one in "shuffle"
        else:
            m = tuple(tuple(range(i, min(i + (bs or n), n))) for i in range(0, n, bs or n))
        return trip, m
    sizes, m, c = base[1], [], 0
    for s in sizes:
        m.append(tuple(range(c, c + s)))
        c += s
    ch = "from_iterable" if base[0] == "iter" else "from_callable_iterable"
    bx, by = [X(i) for i in m], [Y(i) for i in m]
    w = (lambda v: v) if base[0] == "iter" else (lambda v: (lambda: iter(v)))
    return (
        getattr(DataLoader, ch)(w(list(zip(bx, by)))), getattr(InputsLoader, ch)(w(bx)), getattr(TargetsLoader, ch)(w(by)),
    ), tuple(m)


# transformations: (name, on lists of ids and batch number -> ids or None)
def tf_skip_first(ids, k):
    return ids if k else None


def tf_odd(ids, k):
    return tuple(i for i in ids if i % 2)


def tf_rev(ids, k):
    return ids[::-1]


def tf_dup(ids, k):
    return ids + ids[: k % 2]


TF = {"skip_first": tf_skip_first, "odd": tf_odd, "reverse": tf_rev, "dup": tf_dup}


def transformed(trip, name):
    f = TF[name]

    def g(arr, ids, st):
        out = f(tuple(range(len(arr))) if name != "odd" else tuple(ids), st["k"])
        st["k"] += 1
        if out is None:
            return None
        sel = list(out) if name != "odd" else [j for j, i in enumerate(ids) if i in out]
        return arr[sel]

    def on_data(x, y, st):
        ids = ids_x(x)
        st2 = dict(st)
        a, b = g(x, ids, st2), g(y, ids, st)
        return a, b, st

    def on_x(x, st):
        return g(x, ids_x(x), st), st

    d, i, t = trip
    st = {"k": 0}
    i2 = i.to_transformed_inputs_loader(on_x, st)
    d2 = d.to_transformed_data_loader(on_data, st)
    # targets alone do not know the ids: transformed by position only
    if name == "odd":
        t2 = d2.to_targets_loader()
    else:
        t2 = t.to_transformed_targets_loader(lambda y, s: (g(y, None, s), s), st)
    return (d2, i2, t2), st


def ops(m):
    n = sum(map(len, m))
    for d in (1, 2, 3):
        yield ("chop", d)
    for k in range(0, n + 2):
        yield ("split", k, 0)
        yield ("split", k, 1)
    for name in TF:
        yield ("tf", name)
    yield ("rebuild",)
    yield ("back",)
    if n:
        for seed, q in ((0, 0), (0, 1), (1, n), (2, n + 2)):
            yield ("sample", seed, q)


def model(m, op):
    if op[0] == "chop":
        out = [b[: len(b) - len(b) % op[1]] for b in m]
        return tuple(o for o, b in zip(out, m) if o or not b)
    if op[0] == "split":
        out, c = [], 0
        for b in m:
            cut = min(max(op[1] - c, 0), len(b))
            out.append(b[:cut] if op[2] == 0 else b[cut:])
            c += len(b)
        return tuple(o for o in out if o)
    if op[0] == "tf":
        out = [TF[op[1]](b, k) for k, b in enumerate(m)]
        return tuple(o for o in out if o)
    return m


def apply(trip, op):
    from fortuna.data.loader import DataLoader, InputsLoader, TargetsLoader

    d, i, t = trip
    if op[0] == "chop":
        return tuple(l.chop(op[1]) for l in trip)
    if op[0] == "split":
        return tuple(l.split(op[1])[op[2]] for l in trip)
    if op[0] == "sample":
        return tuple(l.sample(seed=op[1], n_samples=op[2]) for l in trip)
    if op[0] == "tf":
        return transformed(trip, op[1])[0]
    if op[0] == "rebuild":
        return tuple(c.from_callable_iterable(lambda l=l: iter(l)) for c, l in zip((DataLoader, InputsLoader, TargetsLoader), trip))
    if op[0] == "back":
        return d, InputsLoader.from_data_loader(d), TargetsLoader.from_data_loader(d)


def observe(trip, m, ctx, where, full=True):
    d, i, t = trip
    n = sum(map(len, m))
    for rep in range(2):
        got = tuple((ids_x(x), tuple(np.asarray(y).tolist())) for x, y in d)
        ctx.check(got == tuple((b, tuple(Y(b).tolist())) for b in m), "data-batches" if rep == 0 else "data-batches-second-pass", lambda: dict(where=where, got=got, want=m))
        gx = tuple(ids_x(x) for x in i)
        ctx.check(gx == m, "inputs-batches" if rep == 0 else "inputs-batches-second-pass", lambda: dict(where=where, got=gx, want=m))
        gy = tuple(tuple(np.asarray(y).tolist()) for y in t)
        ctx.check(gy == tuple(tuple(Y(b).tolist()) for b in m), "targets-batches" if rep == 0 else "targets-batches-second-pass", lambda: dict(where=where, got=gy, want=m))
    for l in (d, i, t):
        ctx.check(l.size == n and len(l) == len(m), "size", lambda: dict(where=where, size=l.size, length=len(l), want=(n, len(m))))
    flat = sum(m, ())
    ctx.check(tuple(ids_x(x) for x in d.to_inputs_loader()) == m, "to-inputs-loader", where)
    ctx.check(tuple(tuple(y.tolist()) for y in d.to_targets_loader()) == tuple(tuple(Y(b).tolist()) for b in m), "to-targets-loader", where)
    if m:
        a, b = d.to_array_data()
        ctx.check(ids_x(a) == flat and (b == Y(flat)).all(), "to-array", where)
        ctx.check(ids_x(d.to_array_inputs()) == flat and ids_x(i.to_array_inputs()) == flat, "to-array", where)
        ctx.check((d.to_array_targets() == Y(flat)).all() and (t.to_array_targets() == Y(flat)).all(), "to-array", where)
        ctx.check(tuple(d.input_shape) == (2,) and tuple(i.input_shape) == (2,), "input-shape", where)
        ctx.check(d.num_unique_labels == len(set(Y(flat).tolist())), "num-unique-labels", where)


def run_unit(u, ctx):
    from fortuna.data.loader import DataLoader, InputsLoader, TargetsLoader

    if u[0] == "shuffle":
        for n in range(1, 9):
            for bs in (1, 2, 3, 5, 20):
                for pf in (False, True):
                    kw = dict(batch_size=bs, shuffle=True, prefetch=pf)
                    x, y = X(range(n)), Y(range(n))
                    d = DataLoader.from_array_data((x, y), **kw)
                    ctx.state()
                    ctx.nt((n, bs, pf))
                    bx = [ids_x(a) for a, _ in d]
                    by = [b for _, b in d]
                    flat = sum(bx, ())
                    ctx.check(sorted(flat) == list(range(n)), "shuffle-not-a-permutation", lambda: dict(n=n, bs=bs, got=bx))
                    ctx.check([len(b) for b in bx] == [min(bs, n - k) for k in range(0, n, bs)], "shuffle-batch-sizes", lambda: dict(n=n, bs=bs, got=bx))
                    ctx.check((np.concatenate([b for _, b in d]) == Y(sum([ids_x(a) for a, _ in d], ()))).all(), "shuffle-misaligned")
                    ctx.check(sorted(sum([ids_x(a) for a in InputsLoader.from_array_inputs(x, **kw)], ())) == list(range(n)), "shuffle-not-a-permutation")
                    ctx.check(sorted(np.concatenate(list(TargetsLoader.from_array_targets(y, **kw))).tolist()) == sorted(y.tolist()), "shuffle-not-a-permutation")
                    ctx.check((x == X(range(n))).all() and (y == Y(range(n))).all(), "shuffle-modifies-data")
        return
    if u[0] == "sampling":
        # with replacement, every point reachable, at most one inclusion of a point per pass, same points for the three kinds
        for sizes in ((1,), (3,), (1, 2), (2, 2, 1)):
            trip, m = build(("iter", sizes))
            n = sum(sizes)
            for q in (1, 2, n, 2 * n + 1):
                hit = set()
                for seed in range(40):
                    s = apply(trip, ("sample", seed, q))
                    ctx.trans()
                    got = [ids_x(x) for x, _ in s[0]]
                    flat = sum(got, ())
                    ctx.state()
                    ctx.nt((sizes, q, seed, flat))
                    ctx.check(len(flat) == q and set(flat) <= set(range(n)) and all(got), "sample-size", lambda: dict(sizes=sizes, q=q, seed=seed, got=got))
                    observe(s, tuple(got), ctx, ("sample", sizes, q, seed))
                    hit |= set(flat)
                ctx.check(q < n or hit == set(range(n)), "sample-unreachable-point", lambda: dict(sizes=sizes, q=q, hit=sorted(hit)))
        return
    if u[0] == "foreign":
        import tensorflow as tf
        import torch

        for n in (1, 3, 5):
            for bs in (1, 2, 4):
                x, y = X(range(n)), Y(range(n))
                m = tuple(tuple(range(i, min(i + bs, n))) for i in range(0, n, bs))
                tl = torch.utils.data.DataLoader(torch.utils.data.TensorDataset(torch.tensor(x), torch.tensor(y)), batch_size=bs)
                td = tf.data.Dataset.from_tensor_slices((x, y)).batch(bs)
                for d in (DataLoader.from_torch_data_loader(tl), DataLoader.from_tensorflow_data_loader(td)):
                    ctx.state()
                    ctx.nt((n, bs))
                    ctx.check(all(isinstance(a, np.ndarray) and isinstance(b, np.ndarray) for a, b in d), "foreign-type")
                    observe((d, d.to_inputs_loader(), d.to_targets_loader()), m, ctx, ("foreign", n, bs))
                dd = [({"a": torch.tensor(x), "b": torch.tensor(x + 1)}, torch.tensor(y))]
                (a, b), = list(DataLoader.from_torch_data_loader(dd))
                ctx.check(set(a) == {"a", "b"} and (a["b"] == x + 1).all() and (b == y).all(), "foreign-dict")
        # transformations that break alignment are rejected
        d = DataLoader.from_array_data((X(range(4)), Y(range(4))), batch_size=2)
        try:
            list(d.to_transformed_data_loader(lambda a, b, s: (a[:1], b, s)))
            ctx.fail("misaligned-transform-accepted")
        except ValueError:
            ctx.ev()
        return
    tier, depth, j, k = u
    seen = {}
    for base in bases(tier)[j::k]:
        trip, m = build(base)
        ctx.trans()
        observe(trip, m, ctx, base)
        if m in seen:
            continue
        seen[m] = trip
        front = [(m, trip, (base,))]
        ctx.state()
        for _ in range(depth):
            nxt = []
            for m0, t0, path in front:
                for op in ops(m0):
                    t1 = apply(t0, op)
                    ctx.trans()
                    ctx.trace()
                    ctx.nt((m0, op))
                    if op[0] == "sample":
                        m1 = tuple(ids_x(x) for x, _ in t1[0])
                        flat = sum(m1, ())
                        ctx.check(len(flat) == op[2] and set(flat) <= set(sum(m0, ())), "sample-size", lambda: dict(path=path, op=op, got=m1))
                    else:
                        m1 = model(m0, op)
                    observe(t1, m1, ctx, path + (op,))
                    # the operation leaves its operand alone
                    ctx.check(tuple(ids_x(x) for x, _ in t0[0]) == m0, "operand-changed", lambda: dict(path=path, op=op))
                    if m1 not in seen:
                        seen[m1] = t1
                        ctx.state()
                        nxt.append((m1, t1, path + (op,)))
            front = nxt
    ctx.sample(dict(unit=u, states=len(seen)))
