"""C10 state repositories: put / get / update / extract / pull against a store model, and round trips of every state."""
import itertools
import os
import shutil
import tempfile

import numpy as np

ID = "C10"
LEVEL = "model_checking"
RULE = (
    "state = content of the two stores of a repository (in memory or constructor directory; explicit directory), each an "
    "ordered list of (step, content) per prefix; breadth-first over all operation sequences up to the depth bound, every "
    "transition replayed on a fresh repository and compared through get and the directory listing; plus every state class "
    "with every pattern of optional fields for round trips; non-trivial = distinct (state, operation)"
)
ASSUMPTIONS = [
    "in memory, pulling leaves the state in place and keep/prefix have no effect (the in-memory slot has one state)",
    "the optimizer itself is not stored; after restoring, tx is the optimizer passed, if any",
]
PFX = ("checkpoint_", "other_")


def ops():
    o = []
    for st in (0, 1):
        for step, c in ((1, "a"), (2, "b"), (10, "a")):
            for keep in (1, 2):
                if keep == 2 and step == 10:
                    continue
                o.append(("put", st, step, c, keep, 0))
        o.append(("put", st, 1, "b", 1, 1))
        for p in (0, 1):
            o.append(("pull", st, p))
        o += [("get_opt", st, 0), ("update", st, "c", 1, 0, False), ("update", st, "c", 2, 0, False), ("update", st, "c", 1, 0, True), ("extract", st, 0)]
        o += [("get_opt", st, 1), ("update", st, "c", 1, 1, False), ("extract", st, 1)]
    return o


OPS = ops()


def units(tier):
    u = []
    depth = 3 if tier == "quick" else 4
    for kind in ("mem", "dir"):
        # the first operation identifies the unit: the search under each is complete up to the depth
        for i in range(len(OPS)):
            u.append(("ops", kind, i, depth))
    for cls in range(8):
        for opt in (0, 1):
            u.append(("roundtrip", cls, opt))
    u.append(("file",))
    return u


# ---- model ---------------------------------------------------------------------------------------
def empty(kind):
    return (None if kind == "mem" else ((), ()), ((), ()))


def step_model(s, op):
    """-> (next state, expected outcome); outcome 'err' or a content triple or None"""
    name, st = op[0], op[1]
    store = s[st]
    mem = store is None or (store and store[0] == "m")

    def setst(v):
        return (v, s[1]) if st == 0 else (s[0], v)

    if mem:
        cur = None if store is None else store[1]
        if name == "put":
            return setst(("m", (op[2], op[3], "o"))), None
        if cur is None:
            return s, "err"
        if name in ("pull", "extract"):
            return s, cur
        if name == "get_opt":
            n = (cur[0], cur[1], "o2" + cur[1])
            return setst(("m", n)), n
        if name == "update":
            n = (cur[0], op[2], "o2" + cur[1] if op[5] else cur[2])
            return setst(("m", n)), None
    p = op[5] if name == "put" else op[4] if name == "update" else op[2]
    l = store[p]

    def setl(v):
        v = tuple(v)
        return setst((v, store[1]) if p == 0 else (store[0], v))

    def save(l, c, keep):
        l = [x for x in l if x[0] < c[0]] + [c]
        return l[-keep:]

    if name == "put":
        return setl(save(l, (op[2], op[3], "o"), op[4])), None
    if not l:
        return s, "err"
    cur = l[-1]
    if name == "extract":
        return s, cur
    if name == "get_opt":
        return s, (cur[0], cur[1], "o2" + cur[1])
    if name == "pull":
        return setl(l[:-1]), cur
    if name == "update":
        return setl(save(l, (cur[0], op[2], "o2" + cur[1] if op[5] else cur[2]), op[3])), None
    raise ValueError(op)


# ---- implementation -------------------------------------------------------------------------------
VAL = {"a": 1.0, "b": 2.0, "c": 3.0}


class Impl:
    def __init__(self, kind):
        import optax
        from flax.core import FrozenDict

        from fortuna.prob_model.posterior.map.map_state import MAPState
        from fortuna.prob_model.posterior.posterior_state_repository import PosteriorStateRepository

        self.FD, self.S = FrozenDict, MAPState
        self.tmp = tempfile.mkdtemp()
        self.dirs = [os.path.join(self.tmp, "A"), os.path.join(self.tmp, "B")]
        for d in self.dirs:
            os.makedirs(d)
        self.kind = kind
        self.repo = PosteriorStateRepository(None if kind == "mem" else self.dirs[0])
        self.opt = optax.sgd(0.1, momentum=0.9)
        self.opt2 = optax.adam(0.1)

    def close(self):
        shutil.rmtree(self.tmp)

    def params(self, c):
        return self.FD({"model": {"params": {"w": np.full((2,), VAL[c], "float32"), "b": np.array(VAL[c] + 0.5, "float32")}}})

    def make(self, step, c):
        s = self.S.init(params=self.params(c), mutable=self.FD({"m": np.array([VAL[c]], "float32")}), optimizer=self.opt, calib_params=self.FD({"t": np.array(VAL[c], "float32")}))
        return s.replace(step=step)

    def kw(self, st, p):
        k = dict(prefix=PFX[p]) if p else {}
        if st == 1:
            k["checkpoint_path"] = self.dirs[1]
        return k

    def do(self, op):
        name, st = op[0], op[1]
        r = self.repo
        if name == "put":
            return r.put(self.make(op[2], op[3]), keep=op[4], **self.kw(st, op[5]))
        if name == "pull":
            return r.pull(**self.kw(st, op[2]))
        if name == "get_opt":
            return r.get(optimizer=self.opt2, **self.kw(st, op[2]))
        if name == "extract":
            return r.extract(["params", "step", "calib_params", "opt_state"], **self.kw(st, op[2]))
        if name == "update":
            k = self.kw(st, op[4])
            if op[5]:
                k["optimizer"] = self.opt2
            return r.update(dict(params=self.params(op[2]), calib_params=self.FD({"t": np.array(VAL[op[2]], "float32")}), mutable=self.FD({"m": np.array([VAL[op[2]]], "float32")})), keep=op[3], **k)

    def content(self, s):
        """abstraction of a returned state (or extracted dict)"""
        import jax
        import jax.numpy as jnp

        d = s if isinstance(s, dict) else {k: getattr(s, k) for k in ("params", "step", "calib_params", "opt_state", "mutable")}
        w = np.asarray(d["params"]["model"]["params"]["w"])
        b = np.asarray(d["params"]["model"]["params"]["b"])
        t = np.asarray(d["calib_params"]["t"])
        c = {v: k for k, v in VAL.items()}.get(float(t), "?")
        if not (w.shape == (2,) and (w == VAL.get(c)).all() and b == VAL.get(c, 0) + 0.5):
            c = "?params"
        if "mutable" in d and not (np.asarray(d["mutable"]["m"]) == VAL.get(c, -1)).all():
            c = "?mutable"
        n = len(jax.tree_util.tree_leaves(d["opt_state"]))
        zero = all(not np.any(np.asarray(x)) for x in jax.tree_util.tree_leaves(d["opt_state"]))
        ok = (n == 2 and "o") or (n == 5 and "o2") or "?"
        return (int(d["step"]), c, ok if zero else ok + "nz")


def proj(c):
    return (c[0], c[1], c[2][:2] if c[2].startswith("o2") else c[2])


def listing(impl, st):
    return sorted(os.listdir(impl.dirs[st]))


def observe(impl, s, ctx, sig, det):
    for st in (0, 1):
        store = s[st]
        if st == 0 and impl.kind == "mem":
            r = _call(impl.repo.get)
            if store is None:
                ctx.check(r == ("exc", "ValueError"), sig + ":get-empty", lambda: (det, repr(r)))
            elif ctx.check(r[0] == "ok", sig + ":get", lambda: (det, repr(r))):
                ctx.check(impl.content(r[1]) == proj(store[1]), sig + ":content", lambda: (det, impl.content(r[1]), store[1]))
            continue
        want = []
        for p in (0, 1):
            r = _call(impl.repo.get, **impl.kw(st, p))
            if not store[p]:
                ctx.check(r == ("exc", "ValueError"), sig + ":get-empty", lambda: (det, repr(r)))
            elif ctx.check(r[0] == "ok", sig + ":get", lambda: (det, repr(r))):
                ctx.check(impl.content(r[1]) == proj(store[p][-1]), sig + ":content", lambda: (det, impl.content(r[1]), store[p]))
            want += [PFX[p] + str(x[0]) for x in store[p]]
        ctx.check(listing(impl, st) == sorted(want), sig + ":files", lambda: (det, listing(impl, st), want))


def _call(f, *a, **k):
    try:
        return "ok", f(*a, **k)
    except Exception as e:
        return "exc", type(e).__name__


def run_ops(u, ctx):
    _, kind, first, depth = u
    start = empty(kind)
    s1, _ = step_model(start, OPS[first])
    # transition 0
    seen = {}
    front = [(start, ())]
    level = 0
    while front and level < depth:
        nxt = []
        for s, path in front:
            for oi, op in enumerate(OPS):
                if level == 0 and oi != first:
                    continue
                t, want = step_model(s, op)
                ctx.trans()
                impl = Impl(kind)
                try:
                    for q in path:
                        _call(impl.do, OPS[q])
                    r = _call(impl.do, op)
                    det = ([OPS[q] for q in path], op)
                    sig = f"{op[0]}:{'mem' if kind == 'mem' and op[1] == 0 else 'disk' + str(op[1])}"
                    if want == "err":
                        ctx.check(r[0] == "exc" and r[1] == "ValueError", sig + ":accepted-empty", lambda: (det, repr(r)))
                    elif ctx.check(r[0] == "ok", sig + ":raised", lambda: (det, repr(r))):
                        if want is not None:
                            got = impl.content(r[1])
                            ctx.check(got == proj(want), sig + ":result", lambda: (det, got, want))
                            if op[0] == "get_opt":
                                ctx.check(r[1].tx is impl.opt2 or r[1].tx == impl.opt2, sig + ":tx", det)
                            if not isinstance(r[1], dict):  # what is returned is the caller's own
                                w = r[1].params["model"]["params"]["w"]
                                if isinstance(w, np.ndarray) and w.flags.writeable:
                                    w += 7
                    observe(impl, t, ctx, sig, det)
                finally:
                    impl.close()
                ctx.trace()
                ctx.nt((kind, s, op))
                if t not in seen:
                    seen[t] = 1
                    ctx.state()
                    nxt.append((t, path + (oi,)))
        front = nxt
        level += 1


def classes():
    from fortuna.calib_model.calib_state_repository import CalibStateRepository
    from fortuna.calib_model.state import CalibState
    from fortuna.output_calib_model.output_calib_state_repository import OutputCalibStateRepository
    from fortuna.output_calib_model.state import OutputCalibState
    from fortuna.prob_model.posterior.laplace.laplace_state import LaplaceState
    from fortuna.prob_model.posterior.map.map_state import MAPState
    from fortuna.prob_model.posterior.normalizing_flow.advi.advi_state import ADVIState
    from fortuna.prob_model.posterior.posterior_state_repository import PosteriorStateRepository
    from fortuna.prob_model.posterior.sgmcmc.cyclical_sgld.cyclical_sgld_state import CyclicalSGLDState
    from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_state import SGHMCState
    from fortuna.prob_model.posterior.state import PosteriorState
    from fortuna.prob_model.posterior.swag.swag_state import SWAGState

    P = PosteriorStateRepository
    return [
        (PosteriorState, P), (MAPState, P), (LaplaceState, P), (SWAGState, P), (ADVIState, P), (SGHMCState, P),
        (CyclicalSGLDState, P), (CalibState, CalibStateRepository), (OutputCalibState, OutputCalibStateRepository),
    ]


def tree_eq(a, b):
    import jax

    from flax.core import FrozenDict

    def un(x):
        if isinstance(x, FrozenDict):
            x = x.unfreeze()
        if isinstance(x, dict):
            return {k: un(v) for k, v in x.items()}
        return x

    a, b = un(a), un(b)
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    return ta == tb and all(np.asarray(x).dtype == np.asarray(y).dtype and np.shape(x) == np.shape(y) and np.array_equal(x, y, equal_nan=True) for x, y in zip(la, lb))


def roundtrip(u, ctx):
    import jax
    import jax.numpy as jnp
    import optax
    from flax.core import FrozenDict

    from fortuna.utils.strings import decode_encoded_tuple_of_lists_of_strings_to_array as dec
    from fortuna.utils.strings import encode_tuple_of_lists_of_strings_to_numpy as enc

    _, ci, oi = u
    todo = [classes()[ci]] + ([classes()[8]] if ci == 7 else [])
    for cls, repo_cls in todo:
        name = cls.__name__
        out = name == "OutputCalibState"
        opts = [optax.sgd(0.1), optax.sgd(0.1, momentum=0.9), optax.adam(1e-2)][oi :: 2]
        rng = np.random.RandomState(0)
        base = [
            FrozenDict({"model": {"params": {"l%d" % i: {"kernel": rng.randn(2, 3).astype("float32"), "bias": jnp.asarray(rng.randn(3).astype("float32"))} for i in range(12)}}, "lik_log_var": {"params": {"x": np.float32(np.inf) * np.ones((), "float32")}}}),
            FrozenDict({"model": {"params": {"emb": rng.randint(0, 9, (3,)).astype("int32"), "half": jnp.asarray([1.5, 2.5], "bfloat16"), "empty": np.zeros((0, 2), "float32")}}}),
        ]
        muts = [None, FrozenDict({"model": {"batch_stats": {"mean": rng.randn(3).astype("float32")}}})]
        cals = [None, FrozenDict({"output_calibrator": {"params": {"log_temp": np.float32(0.25).reshape(1)}}})]
        layers = [["model", "params", "l%d" % i] for i in range(12)]
        whichs = [None, (layers[0],), tuple(layers[:3]), tuple(layers[::-1][:11]), tuple(layers)]
        for params, mut, cp, cm, step, which, opt, mem in itertools.product(base, muts, cals, muts, (0, 7), whichs, opts, (True, False)):
            if out and (cp is not None or cm is not None):
                continue
            kw = {}
            extra = {}
            if hasattr(cls, "_encoded_which_params"):
                extra["_encoded_which_params"] = enc(which)
            elif which is not None:
                continue
            if name == "LaplaceState":
                extra["prior_log_var"] = -1.5 if step else 0.0
            if name == "SWAGState" and step:
                extra.update(mean=jnp.arange(3.0), std=jnp.ones(3), dev=jnp.ones((3, 2)))
            if out:
                s = cls.init(params=params, mutable=mut, optimizer=opt, **extra)
            else:
                s = cls.init(params=params, mutable=mut, optimizer=opt, calib_params=cp, calib_mutable=cm, **extra)
            s = s.replace(step=step)
            if hasattr(s, "grad_accumulated") and step:
                s = s.replace(grad_accumulated=jax.tree_util.tree_map(lambda x: jnp.ones_like(x), params))
            with tempfile.TemporaryDirectory() as d:
                repo = repo_cls(None if mem else d)
                try:
                    repo.put(s)
                    r = repo.get()
                except Exception as e:
                    ctx.fail(f"roundtrip:{name}:exception:{type(e).__name__}", (str(e)[:300], mut is None, mem, str(which)))
                    continue
                r2 = repo.get(optimizer=opt)
                ctx.check(type(r) is cls and type(r2) is cls, f"roundtrip:{name}:class", (type(r).__name__, mem))
                fields = ["params", "mutable"] + ([] if out else ["calib_params", "calib_mutable"])
                for f in fields:
                    a, b = getattr(s, f), getattr(r, f)
                    ok = (a is None) == (b is None) or (out and f == "mutable" and not b)
                    ctx.check(ok and (a is None or tree_eq(a, b)), f"roundtrip:{name}:{f}", lambda: (mem, str(a)[:200], str(b)[:200]))
                    ctx.check(type(a) is type(b) or a is None, f"roundtrip:{name}:{f}:type", lambda: (mem, type(a).__name__, type(b).__name__))
                    b = getattr(r2, f)
                    ctx.check((a is None and not b) or (a is not None and tree_eq(a, b)), f"roundtrip:{name}:{f}:optimizer", (mem,))
                ctx.check(int(r.step) == step and int(r2.step) == step, f"roundtrip:{name}:step", (mem, step, str(r.step), str(r2.step)))
                la, lb = jax.tree_util.tree_leaves(s.opt_state), jax.tree_util.tree_leaves(r.opt_state)
                ctx.check(len(la) == len(lb), f"roundtrip:{name}:opt_state", (mem, len(la), len(lb)))
                l2 = jax.tree_util.tree_structure(r2.opt_state)
                ctx.check(l2 == jax.tree_util.tree_structure(opt.init(params)) or tree_eq(r2.opt_state, opt.init(params)), f"roundtrip:{name}:opt_state:optimizer", (mem,))
                if hasattr(cls, "_encoded_which_params"):
                    got = dec(r._encoded_which_params)
                    ok = got is None and which is None or (got is not None and which is not None and tuple(list(p) for p in got) == tuple(list(p) for p in which))
                    ctx.check(ok, f"roundtrip:{name}:which_params:{'mem' if mem else 'disk'}", lambda: (len(which or ()), str(which)[:400], str(got)[:400]))
                for f in ("prior_log_var", "mean", "std", "dev"):
                    if f in extra:
                        ctx.check(tree_eq(getattr(s, f), getattr(r, f)) or np.array_equal(getattr(s, f), getattr(r, f)), f"roundtrip:{name}:{f}", (mem, str(getattr(r, f))))
                ctx.check("".join(map(chr, (r.encoded_name.values() if isinstance(r.encoded_name, dict) else r.encoded_name))) == name or name == "CalibState", f"roundtrip:{name}:encoded_name", str(r.encoded_name))
                ctx.state()
                ctx.trans(2)
                ctx.trace()
                ctx.nt((name, mem, step, str(which)[:40], mut is None, cp is None, cm is None, len(params)))


def files(u, ctx):
    """getting from the path of a file, from missing paths, and the latest of several checkpoints"""
    for steps in itertools.product((1, 2, 9, 10, 11, 100), repeat=2):
        if steps[0] >= steps[1]:
            continue
        impl = Impl("mem")
        try:
            d = impl.dirs[1]
            for s, c in zip(steps, "ab"):
                impl.repo.put(impl.make(s, c), checkpoint_path=d, keep=3)
            ctx.check(impl.content(impl.repo.get(checkpoint_path=d)) == (steps[1], "b", "o"), "file:latest", steps)
            for s, c in zip(steps, "ab"):
                r = _call(impl.repo.get, checkpoint_path=os.path.join(d, f"checkpoint_{s}"))
                ctx.check(r[0] == "ok" and impl.content(r[1]) == (s, c, "o"), "file:get", (steps, s, repr(r)[:200]))
            r = _call(impl.repo.pull, checkpoint_path=os.path.join(d, f"checkpoint_{steps[0]}"))
            ctx.check(r[0] == "ok" and impl.content(r[1]) == (steps[0], "a", "o") and listing(impl, 1) == [f"checkpoint_{steps[1]}"], "file:pull", (steps, repr(r)[:200]))
            r = _call(impl.repo.get, checkpoint_path=os.path.join(d, "nothing"))
            ctx.check(r == ("exc", "ValueError"), "file:missing", repr(r)[:200])
            ctx.nt(steps)
            ctx.trans(5)
            ctx.state()
        finally:
            impl.close()


def run_unit(u, ctx):
    u = tuple(u)
    if u[0] == "ops":
        run_ops(u, ctx)
    elif u[0] == "roundtrip":
        roundtrip(u, ctx)
    else:
        files(u, ctx)
