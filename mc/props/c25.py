"""C25 nested structures: access, update, pairing, freezing, encoding and clipping equal their definitions on all small trees."""
import copy
import itertools

import numpy as np

ID = "C25"
LEVEL = "exploration"
RULE = (
    "all trees of depth up to three over two keys (both key orders at the root): every path, every ordered pair of assignments, every small set of paths to pair and unpair, every key to find; "
    "all pairs and triples of trees of depth two to merge; every labelling of every tree as trainable or frozen, as plain and frozen dictionaries, and optimisers over two steps; "
    "path encodings of up to twelve paths; clipping, schedules, shapes, randomness detection and hashing over small alphabets; oracle: direct functional definitions; "
    "non-trivial = a tree of at least two levels"
)
ASSUMPTIONS = ["paths that go through a leaf may fail with any exception"]


def trees(depth, start=1):
    """all non-empty trees over keys a, b; leaves are numbered later."""
    if depth == 0:
        return []
    sub = trees(depth - 1)
    opts = [None, 0] + sub
    return [{k: v for k, v in zip("ab", c) if v is not None} for c in itertools.product(opts, repeat=2) if any(v is not None for v in c)]


def number(t, c=None):
    c = itertools.count(1) if c is None else c
    return {k: number(v, c) if isinstance(v, dict) else next(c) for k, v in t.items()}


def paths(t, pre=()):
    for k, v in t.items():
        yield pre + (k,)
        if isinstance(v, dict):
            yield from paths(v, pre + (k,))


def leaves(t, pre=()):
    for k, v in t.items():
        if isinstance(v, dict):
            yield from leaves(v, pre + (k,))
        else:
            yield pre + (k,)


def get(t, p):
    return get(t[p[0]], p[1:]) if p else t


def put(t, p, o, create=False):
    """functional assignment; raises KeyError for missing paths."""
    if not isinstance(t, dict) or (p[0] not in t and not create):
        raise KeyError(p)
    return {**t, p[0]: o if len(p) == 1 else put(t.get(p[0], {}), p[1:], o, create)}


T3 = trees(3)
T2 = trees(2)
N = 8


def all_trees():
    out = []
    for t in T3:
        out.append(number(t))
        if len(t) == 2:
            out.append(number({k: t[k] for k in "ba"}))
    return out


def units(tier):
    u = [(n, k) for n in ("get_set", "pair", "find", "labels") for k in range(N)]
    u += [("merge", k) for k in range(N)] + [("optim", o, k) for o in ("sgd", "adam") for k in range(4)]
    u += [("encode",), ("clip",), ("schedules",), ("shapes",), ("random",), ("hashing",), ("trainers",)]
    return u


def run_unit(u, ctx):
    globals()["do_" + u[0]](u, ctx)


def deep(t):
    return any(isinstance(v, dict) for v in t.values())


def call(f, *a, **k):
    try:
        return f(*a, **k), None
    except Exception as e:  # noqa: BLE001
        return None, e


def part(k):
    return [t for i, t in enumerate(all_trees()) if i % N == k]


def do_get_set(u, ctx):
    from flax.core import FrozenDict
    from fortuna.utils.nested_dicts import nested_get, nested_set

    for t in part(u[1]):
        ps = list(paths(t))
        if deep(t):
            ctx.nt(str(t))
        for p in ps:
            ctx.ev()
            for d in (t, FrozenDict(t)):
                for q in (list(p), p):
                    got, e = call(nested_get, d, q)
                    got = got.unfreeze() if isinstance(got, FrozenDict) else got
                    ctx.check(e is None and got == get(t, p), "nested_get", lambda: [t, q, got, str(e)])
        for p in ps:
            r, e = call(nested_get, t, list(p) + ["z"])
            ctx.check(e is not None, "nested_get of a missing path", lambda: [t, p, r])
        extra = [("z",)] + [p + ("z",) for p in ps if isinstance(get(t, p), dict)]
        steps = [[(p, 100)] for p in ps + extra] + [[(p, 100), (q, {"a": 200})] for p in ps for q in ps]
        if len(ps) > 9 and ctx.tier == "quick":
            steps = steps[::3]
        for s in steps:
            for create in (False, True):
                want, miss = copy.deepcopy(t), False
                for p, o in s:
                    try:
                        want = put(want, p, o, create)
                    except KeyError:
                        miss = True
                        break
                before = copy.deepcopy(t)
                got, e = call(nested_set, t, tuple(list(p) for p, _ in s), tuple(o for _, o in s), create)
                ctx.ev()
                ctx.check(t == before, "nested_set changed its argument", lambda: [before, s, t])
                if miss:
                    ctx.check(e is not None, "nested_set of a missing path", lambda: [t, s, create, got])
                    if len(s) == 1:
                        ctx.check(isinstance(e, KeyError), "nested_set error", lambda: [t, s, repr(e)])
                else:
                    ctx.check(e is None and got == want, "nested_set", lambda: [t, s, create, got, want, repr(e)])
        for bad in (([["a"]], (1,)), ((["a"],), [1]), ((["a"],), (1, 2)), ((), (1,))):
            r, e = call(nested_set, t, *bad)
            ctx.check(isinstance(e, (TypeError, ValueError)), "nested_set of malformed arguments", lambda: [bad, r])


def do_pair(u, ctx):
    from fortuna.utils.nested_dicts import nested_pair, nested_unpair

    L = ("x", "y")
    for t in part(u[1]):
        ls = list(leaves(t))
        if deep(t):
            ctx.nt(str(t))
        sets = [()] + [(p,) for p in ls] + list(itertools.permutations(ls, 2)) + [tuple(ls), tuple(reversed(ls))]
        for s in sets:
            before = copy.deepcopy(t)
            objs = tuple(1000 + i for i in range(len(s)))
            want = t
            for p, o in zip(s, objs):
                want = put(want, p, {"x": get(t, p), "y": o})
            got, e = call(nested_pair, t, tuple(map(list, s)), objs, L)
            ctx.ev()
            if not ctx.check(e is None and got == want and t == before, "nested_pair", lambda: [t, s, got, repr(e)]):
                continue
            second = {}
            for p, o in zip(s, objs):
                second = put(second, p, o, True)
            kept = copy.deepcopy(got)
            r, e = call(nested_unpair, got, tuple(map(list, s)), L)
            ctx.check(e is None and r == (t, second) and got == kept, "nested_unpair", lambda: [t, s, r, repr(e)])
        r, e = call(nested_pair, t, (["z", "a"],), (1,), L)
        r2, e2 = call(nested_unpair, t, (["z", "a"],), L)
        ctx.check(isinstance(e, KeyError) and isinstance(e2, KeyError), "pairing a missing path", lambda: [t, r, r2])


def do_find(u, ctx):
    from flax.core import FrozenDict
    from fortuna.utils.nested_dicts import find_one_path_to_key

    for t in part(u[1]):
        if deep(t):
            ctx.nt(str(t))
        # one distinct key per node, and repeated keys
        def rename(x, pre=""):
            return {pre + k: rename(v, pre + k) if isinstance(v, dict) else v for k, v in x.items()}

        for d in (t, rename(t)):
            ps = list(paths(d))
            for f in (d, FrozenDict(d)):
                for key in {p[-1] for p in ps} | {"zz"}:
                    ctx.ev()
                    got = tuple(find_one_path_to_key(f, key))
                    ok = got in ps and got[-1] == key if key != "zz" else got == ()
                    ctx.check(ok, "find_one_path_to_key", lambda: [d, key, got])


def do_labels(u, ctx):
    from flax.core import FrozenDict
    from fortuna.utils.freeze import all_values_in_labels, get_frozen_paths, get_paths_with_label, get_trainable_paths

    for t in part(u[1]):
        ls = list(leaves(t))
        for d in (t, FrozenDict(t)):
            want = tuple(list(p) for p in ls)
            ctx.check(call(get_trainable_paths, d, None)[0] == want, "trainable paths without a function", lambda: [t, call(get_trainable_paths, d, None)])
            ctx.check(call(get_frozen_paths, d, None)[0] == (), "frozen paths without a function", lambda: [t, call(get_frozen_paths, d, None)])
        for i, bits in enumerate(itertools.product((True, False), repeat=len(ls))):
            lab = dict(zip(ls, bits))
            ctx.ev()
            if 0 < sum(bits) < len(bits):
                ctx.nt((str(t), bits))
            seen = []

            def fun(p, v):
                seen.append((tuple(p), v))
                return "trainable" if lab[tuple(p)] else "frozen"

            for d in (t,) if i % 2 else (FrozenDict(t),):
                tr, fr = get_trainable_paths(d, fun), get_frozen_paths(d, fun)
                ctx.check(tr == tuple(list(p) for p in ls if lab[p]) and fr == tuple(list(p) for p in ls if not lab[p]), "freeze paths", lambda: [t, bits, tr, fr])
                ctx.check(set(seen) == {(p, get(t, p)) for p in ls}, "freeze function arguments", lambda: [t, seen])
                b = get_paths_with_label(d, lambda p, v: lab[tuple(p)], True, [True, False])
                ctx.check(b == tr, "boolean labels", lambda: [t, bits, b])
            if i == 0:
                r, e = call(get_trainable_paths, t, lambda p, v: "other" if tuple(p) == ls[-1] else "trainable")
                ctx.check(isinstance(e, ValueError), "unknown label", lambda: [t, r])
    for vals in itertools.product((1, 2, 3), repeat=3):
        for labs in ((1,), (1, 2), (1, 2, 3)):
            _, e = call(all_values_in_labels, vals, list(labs))
            ctx.check((e is None) == (set(vals) <= set(labs)), "all_values_in_labels", lambda: [vals, labs, repr(e)])


def do_merge(u, ctx):
    from fortuna.utils.nested_dicts import nested_update

    def merge(a, b):
        return {**a, **{k: merge(a[k], v) if k in a and isinstance(a[k], dict) and isinstance(v, dict) else v for k, v in b.items()}}

    def shift(t, n):
        return {k: shift(v, n) if isinstance(v, dict) else v + n for k, v in t.items()}

    pool = [number(t) for t in T3[:: 1 if ctx.tier != "quick" else 5]]
    small = [number(t) for t in T2]
    cases = itertools.chain(((a, shift(b, 50)) for a in pool for b in pool), ((a, shift(b, 50), shift(c, 90)) for a in small for b in small for c in small))
    for i, c in enumerate(cases):
        if i % N != u[1]:
            continue
        before = copy.deepcopy(c)
        want = c[0]
        for b in c[1:]:
            want = merge(want, b)
        got, e = call(nested_update, *c)
        ctx.ev()
        if deep(c[0]) and deep(c[1]):
            ctx.nt(str(c))
        ctx.check(e is None and got == want, "nested_update", lambda: [before, got, want, repr(e)])
        ctx.check(c == before, "nested_update changed its arguments", lambda: [before, c])


def do_optim(u, ctx):
    import jax
    import optax
    from flax.core import FrozenDict
    from flax.traverse_util import flatten_dict
    from fortuna.utils.freeze import freeze_optimizer

    _, o, k = u
    make = (lambda: optax.sgd(0.1, momentum=0.9)) if o == "sgd" else (lambda: optax.adam(0.1))
    for i, t in enumerate(T2):
        if i % 4 != k:
            continue
        t = number(t)
        ls = list(leaves(t))
        params = FrozenDict(jax.tree_util.tree_map(lambda v: np.array([v, -v], "float32"), t))
        grads = [FrozenDict(jax.tree_util.tree_map(lambda v, s=s: np.array([s * v, 1.0], "float32"), t)) for s in (1.0, -0.5)]
        opt = make()
        ctx.check(freeze_optimizer(params, opt, None) is opt, "freeze_optimizer without a function", "another optimiser")
        for bits in itertools.product((True, False), repeat=len(ls)):
            lab = dict(zip(ls, bits))
            f = freeze_optimizer(params, make(), lambda p, v: "trainable" if lab[tuple(p)] else "frozen")
            p, s = params, f.init(params)
            ref, q = make(), {k: np.asarray(v) for k, v in flatten_dict(params.unfreeze()).items() if lab[k]}
            rs = ref.init(q) if q else None
            for g in grads:
                up, s = f.update(g, s, p)
                p = optax.apply_updates(p, up)
                if q:
                    ru, rs = ref.update({k: v for k, v in flatten_dict(g.unfreeze()).items() if lab[k]}, rs, q)
                    q = optax.apply_updates(q, ru)
                ctx.ev()
                if 0 < sum(bits) < len(bits):
                    ctx.nt((o, str(t), bits))
                for k2, v in flatten_dict(dict(p.unfreeze() if hasattr(p, "unfreeze") else p)).items():
                    want = q[k2] if lab[k2] else flatten_dict(params.unfreeze())[k2]
                    ctx.check(np.allclose(v, want, atol=1e-6), "freeze_optimizer", lambda: [o, t, bits, k2, np.asarray(v).tolist(), np.asarray(want).tolist()])
        _, e = call(freeze_optimizer, params, make(), lambda p, v: "other")
        ctx.check(isinstance(e, ValueError), "freeze_optimizer label", lambda: repr(e))


def do_encode(u, ctx):
    from fortuna.utils.strings import convert_string_to_np_array, convert_string_to_tuple, decode_encoded_tuple_of_lists_of_strings_to_array as dec, encode_tuple_of_lists_of_strings_to_numpy as enc

    words = ["a", "kernel", "Dense_10", "é€", "x y"]
    ctx.check(enc(None) is None and dec(None) is None, "encoding of nothing", "not nothing")
    for w in words + [""]:
        ctx.check(convert_string_to_tuple(w) == tuple(ord(c) for c in w) and tuple(convert_string_to_np_array(w)) == tuple(ord(c) for c in w), "string codes", lambda: w)
    for n in range(1, 4):
        for m in itertools.product((1, 2), repeat=n):
            for ws in itertools.product(words, repeat=sum(m)):
                it = iter(ws)
                v = tuple([next(it) for _ in range(k)] for k in m)
                if sum(m) > 3 and ctx.tier == "quick" and hash_(ws) % 11:
                    continue
                ctx.ev()
                ctx.nt(v)
                e = enc(v)
                ctx.check(dec(e) == v, "path encoding", lambda: [v, dec(e)])
                d = {str(i): {str(j): a for j, a in enumerate(p)} for i, p in enumerate(e)}
                ctx.check(dec(d) == v, "path encoding from a checkpoint", lambda: [v, dec(d)])
    for n in range(1, 13):
        v = tuple([f"l{i}"] + [f"k{j}" for j in range(i)] for i in range(n))
        d = {str(i): {str(j): a for j, a in enumerate(p)} for i, p in enumerate(enc(v))}
        ctx.check(dec(d) == v and dec(enc(v)) == v, "long path encoding", lambda: [v, dec(d)])


def hash_(ws):
    return sum((i + 1) * sum(map(ord, w)) for i, w in enumerate(ws))


def do_clip(u, ctx):
    from fortuna.utils.training import clip_grandients_by_norm, clip_grandients_by_value

    vals = (-3.0, 0.0, 0.5, 4.0)
    for g in itertools.product(vals, repeat=3):
        tree = {"a": np.array(g[:2], "float32"), "b": {"c": np.array(g[2], "float32")}}
        flat = np.array(g)
        for m in (0.25, 1.0, 3.5, 10.0):
            ctx.ev()
            ctx.nt((g, m))
            got = clip_grandients_by_value(tree, m)
            ctx.check(np.allclose(np.append(got["a"], got["b"]["c"]), np.clip(flat, -m, m)), "clip by value", lambda: [g, m, str(got)])
            got = clip_grandients_by_norm(tree, m)
            n = np.sqrt((flat**2).sum())
            want = flat if n <= m else flat * m / n
            ctx.check(np.allclose(np.append(got["a"], got["b"]["c"]), want, rtol=1e-4), "clip by norm", lambda: [g, m, str(got), want.tolist()])


def do_schedules(u, ctx):
    from fortuna.utils.optimizer import linear_scheduler_with_warmup, stepped_schedule

    for r in range(4):
        for th in itertools.combinations((1, 2, 4, 6), r):
            for order in itertools.permutations(th):
                for sc in itertools.product((0.0, 0.5, 2.0), repeat=r):
                    d = dict(zip(order, sc))
                    f = stepped_schedule(0.8, d or None)
                    for c in range(0, 8):
                        past = [t for t in d if t <= c]
                        want = 0.8 * (d[max(past)] if past else 1.0)
                        ctx.ev()
                        ctx.check(abs(float(f(c)) - want) < 1e-6, "stepped schedule", lambda: [d, c, float(f(c)), want])
            ctx.nt(th)
    _, e = call(stepped_schedule, 0.1, {1: -0.5})
    ctx.check(isinstance(e, ValueError), "negative scales", lambda: repr(e))
    for n, b, ep, w in itertools.product((4, 6, 7), (2, 3), (1, 2, 3), (0, 1, 2)):
        f = linear_scheduler_with_warmup(0.5, n, b, ep, w)
        tot = n // b * ep
        if tot <= w:
            continue
        for k in range(tot + 2):
            want = 0.5 * k / w if k < w else 0.5 * max(0.0, 1 - (k - w) / (tot - w))
            ctx.ev()
            ctx.check(abs(float(f(k)) - want) < 1e-6, "warmup schedule", lambda: [n, b, ep, w, k, float(f(k)), want])


def do_shapes(u, ctx):
    from fortuna.utils.data import get_input_shape, get_inputs_from_shape

    for n in (1, 3):
        for s in ((), (2,), (2, 3), (1, 2, 2)):
            for s2 in ((), (4,), (2, 2)):
                x = np.ones((n,) + s)
                d = {"p": x, "q": np.ones((n,) + s2)}
                ctx.ev()
                ctx.nt((s, s2))
                ctx.check(get_input_shape(x) == s and get_input_shape(d) == {"p": s, "q": s2}, "input shape", lambda: [s, s2, str(get_input_shape(d))])
                y, z = get_inputs_from_shape(s), get_inputs_from_shape({"p": s, "q": s2})
                ctx.check(y.shape == (1,) + s and {k: v.shape for k, v in z.items()} == {"p": (1,) + s, "q": (1,) + s2}, "inputs from shape", lambda: [s, s2])
    _, e = call(get_inputs_from_shape, [2])
    ctx.check(isinstance(e, ValueError), "inputs from lists", lambda: repr(e))


def do_random(u, ctx):
    """a loader is refused if and only if two passes differ in one of the first four batches."""
    from fortuna.utils.data import check_data_loader_is_not_random as f

    class Loader:
        def __init__(self, n, diff, kind):
            self.n, self.diff, self.kind, self.calls = n, diff, kind, 0

        def __iter__(self):
            self.calls += 1
            second = self.calls % 2 == 0
            for i in range(self.n):
                x, y = np.array([[1.0, i], [2.0, 3.0]]), np.array([0, 1])
                x2 = np.array([[5.0], [6.0]])
                if second and i == self.diff:
                    if self.kind in ("x", "dict p"):
                        x = x + np.array([[0, 0], [0, 1]])
                    elif self.kind == "y" or self.kind == "dict y":
                        y = y[::-1]
                    elif self.kind == "dict q":
                        x2 = -x2
                yield ({"p": x, "q": x2}, y) if "dict" in self.kind else (x, y)

    for kind in ("x", "y", "dict p", "dict q", "dict y"):
        for n in range(1, 7):
            for diff in [None] + list(range(n)):
                for m in (None, 0, 1, 3, 10):
                    _, e = call(f, Loader(n, diff, kind), **({} if m is None else {"max_iter": m}))
                    limit = 3 if m is None else m
                    want = diff is not None and diff <= limit
                    ctx.ev()
                    ctx.nt((kind, n, diff, m))
                    ctx.check(isinstance(e, ValueError) if want else e is None, "randomness detection", lambda: [kind, n, diff, m, repr(e)])


def do_hashing(u, ctx):
    from fortuna.utils.builtins import HashableMixin

    class A(HashableMixin):
        pass

    class B(HashableMixin):
        pass

    def make(c, d):
        o = c()
        for k, v in d:
            setattr(o, k, v)
        return o

    attrs = [[(k, v) for k, v in zip(("a", "b", "_p"), vs) if v is not None] for vs in itertools.product((None, 1, "x"), (None, 1), (None, 7, 8))]
    objs = [(c, d, make(c, d)) for c in (A, B) for d in attrs]
    for c, d, o in objs:
        for c2, d2, o2 in objs:
            pub = lambda z: [kv for kv in z if not kv[0].startswith("_")]
            ctx.ev()
            want = c is c2 and pub(d) == pub(d2)
            ctx.check((o == o2) == want, "equality of configurations", lambda: [c.__name__, d, c2.__name__, d2])
            if want:
                ctx.check(hash(o) == hash(o2), "hash of equal objects", lambda: [d, d2])
            elif pub(d) and pub(d2):
                ctx.nt((c.__name__, str(d), c2.__name__, str(d2)))


def do_trainers(u, ctx):
    from mc import pm
    from fortuna.utils.device import select_trainer_given_devices as f

    class P:
        pass

    for d in (-1, 0, 1, 2, -2):
        for nojit in (False, True):
            for gpu in (False, True):
                import contextlib

                with pm.gpus() if gpu else contextlib.nullcontext():
                    got, e = call(f, d, "base", "jit", "multi", nojit)
                want = None if d not in (0, -1) else ("multi" if gpu else "jit") if d == -1 else "base" if nojit else "jit"
                ctx.ev()
                ctx.nt((d, nojit, gpu))
                ctx.check(got == want and (want is not None or isinstance(e, NotImplementedError)), "trainer choice", lambda: [d, nojit, gpu, got, want, repr(e)])
