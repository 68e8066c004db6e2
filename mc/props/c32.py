"""C32 a posterior survives being saved, loaded, calibrated and fitted further, in any order."""
import copy
import hashlib
import os
import shutil
import tempfile

import numpy as np

from .. import pm

ID = "C32"
LEVEL = "model_checking"
RULE = (
    "state = what two models of one architecture hold (nothing, an own posterior, or the posterior of a directory) and what two directories hold, "
    "a posterior being a pair (fit, calibration); breadth-first over all sequences of save (keeping one or two checkpoints), load and calibration update "
    "up to the depth bound, for every posterior approximation, with and without frozen parameters, in classification and regression with running statistics, every transition replayed on the "
    "implementation and compared through samples drawn with three keys; plus every way to fit further (restoring a directory written by a fit, with or without "
    "a dumped state, or by save_state; or starting from the current state, held in memory, dumped or loaded) x frozen or not x no, a new or the same directory x dumped or "
    "not: parameters at the start of training, posterior found in the directory afterwards, and the original directory untouched; non-trivial = distinct (state, operation), or a way to fit further"
)
ASSUMPTIONS = [
    "a directory which another model has loaded is not overwritten by a different fit: loaded models read from their directory",
    "a calibration update is the write of new calibration parameters which ends every calibration (calibration itself is C22)",
    "SGMCMC and Laplace keep their posterior in the checkpoint directory of a fit whether or not the state is to be dumped",
    "the state of the optimizer is not restored: fitting further starts the given optimizer anew",
]
KINDS = pm.NAMES
KEYS = (0, 4)  # with which both members of a mixture are drawn
MULTI = ("ensemble", "sghmc", "sgld")


def build(comp, name, seed):
    kw = {"std_init_params": 0.1, "log_std_base": 0.0} if name == "advi" else {}  # with noise in the samples
    return pm.model(comp, name, seed=seed, norm=True, **kw)


def trainable(comp, name):
    return [p for p in pm.PATHS[comp] if p[2] == "a"]


def fit(m, comp, name, epochs, freeze, lr=0.1, cb=None, **ck):
    kw = {}
    if name in ("swag", "laplace") and not ck.get("restore_checkpoint_path") and not ck.get("start_from_current_state"):
        kw["map_fit_config"] = pm.config(lr=0.1, epochs=epochs - 2)
    fz = pm.freezer(trainable(comp, name)) if freeze else None
    return m.posterior.fit(train_data_loader=pm.loader(comp), fit_config=pm.config(lr=lr, epochs=epochs, freeze=fz, jit=True, callbacks=cb, **ck), **kw)


def flat(d):
    return {k: v for k, v in pm.flat(d).items() if v.dtype != object}


def joint(s):
    out = {("p",) + k: v for k, v in flat(s.params).items()}
    for f in ("mutable", "calib_params", "calib_mutable"):
        v = getattr(s, f)
        if v is not None:
            out.update({(f,) + k: x for k, x in flat(v).items()})
    return out


def print_(m):
    """What the posterior of a model is, seen from outside: samples of fixed keys."""
    import jax

    return [joint(m.posterior.sample(rng=jax.random.PRNGKey(k), inputs=pm.X)) for k in KEYS]


def eq(a, b, tol=0.0):
    return len(a) == len(b) and all(pm.same(x, y, tol) for x, y in zip(a, b))


def fits(comp, name, freeze, n=2):
    """The posteriors of two different fits (of different lengths), to be put into models."""
    out = []
    for i in range(n):
        m = build(comp, name, 11 + i)
        fit(m, comp, name, 3 + i, freeze, lr=(0.1, 0.05)[i])
        out.append(m)
    return out


def put(m, src):
    """Give model m the posterior of model src, as if it had been fitted itself."""
    for k, v in vars(src.posterior).items():
        if k in ("_base", "_architecture", "_unravel", "_indices"):
            setattr(m.posterior, k, v)
    m.posterior.state = copy.deepcopy(src.posterior.state)


def wipe(m):
    for k in ("_base", "_architecture", "_unravel", "_indices"):
        if hasattr(m.posterior, k):
            setattr(m.posterior, k, None)
    m.posterior.__dict__.pop("state", None)


def calib(comp, c):
    from flax.core import FrozenDict

    return FrozenDict({"output_calibrator": {"params": {"log_temp": np.array([(0.0, 0.625)[c]], "float32")}}})


def units(tier):
    depth = 3 if tier == "quick" else 5
    u = []
    for name in KINDS:
        for comp in ("cls", "reg"):
            for fz in (0, 1):
                u.append(("ops", name, comp, fz, depth if comp == "cls" else depth - 1))
                u.append(("resume", name, comp, fz))
    return u


# ---- operations on two models and two directories
OPS = [(o, m, d, k) for m in (0, 1) for d in (0, 1) for o, k in (("save", 1), ("save", 2), ("load", 0))] + [("cal", m, 0, 0) for m in (0, 1)]


def value(s, m):
    h = s[0][m]
    return None if h is None else h[1] if h[0] == "own" else s[1][h[1]]


def step(s, op):
    """-> (next state, raises) or None if the operation is outside the bounds"""
    o, m, d, k = op
    mem, dirs = list(s[0]), list(s[1])
    v = value(s, m)
    if o == "save":
        if v is None:
            return s, True
        h = s[0][1 - m]
        if h == ("link", d) and s[1][d][0] != v[0]:
            return None
        if s[0][m] != ("link", d) and h == ("link", d) and s[1][d] != v:
            return None
        dirs[d] = v
    elif o == "load":
        if dirs[d] is None:
            return s, True
        mem[m] = ("link", d)
    else:
        if v is None:
            return None
        w = (v[0], 1)
        if mem[m][0] == "own":
            mem[m] = ("own", w)
        else:
            dirs[mem[m][1]] = w
    return (tuple(mem), tuple(dirs)), False


def ops(ctx, name, comp, fz, depth):
    src = fits(comp, name, fz)
    base = [print_(m) for m in src]
    ctx.check(not eq(base[0], base[1]), "two fits are the same posterior")
    if name in MULTI and not ctx.check(not eq(base[0][:1], base[0][1:]), "the keys draw one member only"):
        return
    expect = {None: None}
    for i in (0, 1):
        for c in (0, 1):
            expect[i, c] = base[i] if not c else [
                {k: (np.float32([0.625]) if k[0] == "calib_params" else v) for k, v in p.items()} for p in base[i]]
    models = [build(comp, name, 1), build(comp, name, 2)]
    tmp = tempfile.mkdtemp()
    memo = {}

    def apply(op):
        o, m, d, k = op
        path = os.path.join(tmp, "d%d" % d)
        try:
            if o == "save":
                models[m].save_state(path, keep_top_n_checkpoints=k)
            elif o == "load":
                models[m].load_state(path)
            else:
                models[m].posterior.state.update(variables={"calib_params": calib(comp, 1)})
        except ValueError as e:
            return True
        return False

    def replay(path, own):
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        for m in (0, 1):
            if own[m] is None:
                wipe(models[m])
            else:
                put(models[m], src[own[m]])
        raised = False
        for op in path:
            raised = apply(op)
        return raised

    try:
        # the first model holds the first fit; the second nothing, or the second fit
        for own in ((0, None), (0, 1)):
            s0 = (tuple(None if o is None else ("own", (o, 0)) for o in own), (None, None))
            seen, front = {s0: ()}, [(s0, ())]
            ctx.state()
            for _ in range(depth if own[1] is None or ctx.tier != "quick" else depth - 1):
                nxt = []
                for s, path in front:
                    for op in OPS:
                        r = step(s, op)
                        if r is None:
                            continue
                        t, raises = r
                        raised = replay(path + (op,), own)
                        ctx.trans()
                        det = lambda: {"posterior": name, "model": comp, "frozen": bool(fz), "start": own, "operations": path + (op,)}
                        if not ctx.check(raised == raises, f"{name}: an operation {'fails' if raised else 'does not fail'}", det):
                            continue
                        ctx.nt((name, comp, fz, s, op))
                        for m in (0, 1):
                            v = value(t, m)
                            if v is None:
                                ctx.check(getattr(models[m].posterior, "state", None) is None, f"{name}: a failed load leaves a state behind", det)
                                continue
                            try:
                                p = print_(models[m])
                            except Exception as e:
                                ctx.fail(f"{name}: the posterior of a model cannot be sampled after {op[0]}: {type(e).__name__}", det())
                                continue
                            ctx.check(eq(p, expect[v]), f"{name}: the posterior of a model is not the expected one after {op[0]}", det)
                        if t not in seen:
                            seen[t] = path + (op,)
                            nxt.append((t, path + (op,)))
                            ctx.state()
                            ctx.trace()
                front = nxt
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---- fitting further
def digest(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out


def start(state):
    out = dict(pm.flat(state.params))
    if state.frozen_params is not None:
        f = pm.flat(state.frozen_params)
        out = {**f, **out}
    if state.mutable is not None:
        out.update({("mutable",) + k: v for k, v in flat(state.mutable).items()})
    if state.calib_params is not None:
        out.update({("calib",) + k: v for k, v in flat(state.calib_params).items()})
    return out


def members(m, name):
    st = m.posterior.state
    return [st.get(i=i) for i in range(st.size)] if name in MULTI else [st.get()]


def resume(ctx, name, comp, fz):
    import jax
    from fortuna.training.callback import Callback

    class Rec(Callback):
        """Records the state at the start of each training run (its first epoch)."""

        def __init__(self):
            self.got, self.left = [], 0

        def training_epoch_start(self, state):
            if self.left == 0:
                self.got.append(start(state))
                self.left = self.epochs
            self.left -= 1
            return state

    tmp = tempfile.mkdtemp()
    n = 0
    try:
        for first_frozen in ((0, 1) if fz else (0,)):
            for origin in ("fit", "dump", "save", "memory", "loaded"):
                if origin == "loaded" and ctx.tier == "quick" and comp == "reg":
                    continue
                # the model which was fitted before, and where its posterior is
                m = build(comp, name, 3)
                d0 = os.path.join(tmp, "o%d" % n)
                n += 1
                ck = {"fit": dict(save_checkpoint_dir=d0), "dump": dict(save_checkpoint_dir=d0, dump_state=True)}.get(origin, {})
                fit(m, comp, name, 3, first_frozen, **ck)
                if origin in ("save", "loaded"):
                    m.save_state(d0)
                if origin == "loaded":
                    m = build(comp, name, 4)
                    m.load_state(d0)
                before, held = print_(m), members(m, name)
                # a chain is continued from its last state; a saved one from its last sample
                chain = start(m.posterior.restore_checkpoint(os.path.join(d0, "c"))) if name in ("sghmc", "sgld") and origin in ("fit", "dump") else None
                ways = [("current", None)] if origin in ("memory", "loaded") else [("restore", d0)] if origin != "dump" else [("current", None), ("restore", d0)]
                for way, path in ways:
                    for where in ("none", "new", "new+dump") + (("same+dump",) if way == "restore" else ()):
                        det = lambda: {"posterior": name, "model": comp, "frozen now": bool(fz), "frozen before": bool(first_frozen), "from": origin, "by": way, "saving": where}
                        key = (name, comp, fz, first_frozen, origin, way, where)
                        d1 = None if where == "none" else d0 if where.startswith("same") else os.path.join(tmp, "n%d" % n)
                        n += 1
                        mm = m if way == "current" else build(comp, name, 5)
                        if way == "current":
                            # the current state is fitted further on a copy of the model's holdings
                            keep = dict(vars(mm.posterior))
                            mm.posterior.state = copy.deepcopy(mm.posterior.state)
                        old = digest(d0)
                        rec = Rec()
                        rec.epochs = 3
                        cfg = dict(start_from_current_state=True) if way == "current" else dict(restore_checkpoint_path=path)
                        if d1:
                            cfg.update(save_checkpoint_dir=d1, dump_state=where.endswith("dump"))
                        ctx.nt(key)
                        ctx.trace()
                        try:
                            status = fit(mm, comp, name, 3, fz, lr=0.05, cb=[rec], **cfg)
                        except Exception as e:
                            import traceback

                            ctx.fail(f"{name}: fitting further fails: {type(e).__name__}", {**det(), "error": traceback.format_exc()[-1500:]})
                            if way == "current":
                                vars(mm.posterior).clear()
                                vars(mm.posterior).update(keep)
                            continue
                        judge(ctx, name, comp, fz, held, chain if way == "restore" else None, rec.got, mm, det)
                        if way == "restore" and not where.startswith("same"):
                            ctx.check(digest(d0) == old, f"{name}: fitting further changes the directory it started from", det)
                        if d1:
                            other = build(comp, name, 6)
                            try:
                                other.load_state(d1)
                                ok = eq(print_(other), print_(mm))
                            except Exception as e:
                                ok = False
                            ctx.check(ok, f"{name}: the directory of a fit does not hold its posterior", det)
                        if way == "current":
                            vars(mm.posterior).clear()
                            vars(mm.posterior).update(keep)
                        ctx.ev()
                ctx.check(origin in ("dump", "loaded") or (origin == "fit" and name in ("sghmc", "sgld", "laplace")) or eq(print_(m), before), f"{name}: fitting a copy further changes the original", det)
            jax.clear_caches()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def judge(ctx, name, comp, fz, held, chain, got, m, det):
    if name == "laplace":
        after = members(m, name)
        a, b = start(after[0]), start(held[0])
        mean = lambda d: {k if k[0] == "mutable" else tuple(x for x in k if x != "mean"): v for k, v in d.items() if "hess_lik_diag" not in k}
        a, b = mean(a), mean(b)
        ctx.check(set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in a), f"{name}: the mean of the further fit is not the state it started from", det)
        return
    if name in ("sghmc", "sgld"):
        want = [chain or start(held[-1])]
    else:
        want = [start(h) for h in held]
    if not ctx.check(len(got) == len(want), f"{name}: number of training runs of a further fit", lambda: {**det(), "runs": len(got)}):
        return
    for g, w in zip(got, want):
        common = set(g) & set(w)
        need = {k for k in w if name != "advi" or k[0] in ("mutable", "calib")}
        ok = need <= common and all(np.array_equal(g[k], w[k]) for k in need)
        ctx.check(ok, f"{name}: a further fit does not start from the given state",
                  lambda: {**det(), "different": [str(k) for k in need if k not in g or not np.array_equal(g[k], w[k])]})
    if fz and name != "advi":
        t = set(trainable(comp, name))
        for s in members(m, name):
            p = pm.flat(s.params)
            if name == "ensemble":
                continue
            ref = want[-1]
            ctx.check(all(np.array_equal(p[k], ref[k]) for k in p if k not in t), f"{name}: a further fit changes frozen parameters", det)


def random_pattern(i, pattern=pm.pattern):
    """Initial parameters which differ from member to member and from seed to seed."""
    import jax

    f = pattern(i)
    return lambda key, shape, dtype=None: f(key, shape) + 0.25 * jax.random.normal(key, shape)


def run_unit(u, ctx):
    import jax

    pm.pattern = random_pattern
    (ops if u[0] == "ops" else resume)(ctx, *u[1:])
    jax.clear_caches()
