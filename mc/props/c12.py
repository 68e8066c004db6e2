"""C12 crash consistency of state repositories: every crash point and torn write of every save."""
import itertools
import os
import shutil
import sys
import tempfile

import numpy as np

ID = "C12"
LEVEL = "fault_enumeration"
RULE = (
    "for every short history of a disk repository and every mutating operation, the directory is snapshotted before every "
    "file-system operation the implementation performs (observed with an audit hook) and with every opened file cut short; "
    "each snapshot is a crash state from which a fresh repository must recover, including a second crash during recovery; "
    "non-trivial = distinct (history, operation, crash point)"
)
ASSUMPTIONS = [
    "a crash ends the process; data written before the crash stays (no loss of unsynced pages)",
    "flax writes checkpoints through Python files (its default io mode) rather than tensorflow's gfile",
]

_H = {"on": False}


def _hook(ev, args):
    if not _H["on"]:
        return
    if ev == "open":
        path, mode, flags = args
        w = (mode and any(c in mode for c in "wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR))
        if not w or not isinstance(path, (str, bytes, os.PathLike)):
            return
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = path.decode()
        kind = "open"
    elif ev in ("os.rename", "os.remove", "os.rmdir", "os.mkdir", "shutil.rmtree", "os.truncate", "os.link", "os.symlink", "shutil.move", "shutil.copyfile"):
        path = args[0]
        kind = ev
        if not isinstance(path, (str, bytes, os.PathLike)):
            return
        path = os.fspath(path)
    else:
        return
    root = _H["root"]
    paths = [path] + ([os.fspath(args[1])] if ev in ("os.rename",) else [])
    if not any(str(p).startswith(root) for p in paths):
        return
    _H["on"] = False
    try:
        _snap(kind)
        _H["opened"] = path if kind == "open" else None
    finally:
        _H["on"] = True


def _snap(kind):
    """snapshot of the directory, plus torn variants of the file opened by the previous operation"""
    k = len(_H["snaps"])
    d = os.path.join(_H["out"], f"s{k}")
    shutil.copytree(_H["root"], d)
    _H["snaps"].append((kind, d))
    f = _H.get("opened")
    if f and os.path.isfile(f):
        size = os.path.getsize(f)
        for cut in sorted({0, 1, size // 2, size - 1} - {size}):
            if cut < 0 or cut >= size:
                continue
            d2 = os.path.join(_H["out"], f"s{k}t{cut}")
            shutil.copytree(_H["root"], d2)
            with open(os.path.join(d2, os.path.relpath(f, _H["root"])), "r+b") as g:
                g.truncate(cut)
            _H["snaps"].append((f"torn{cut}", d2))


_installed = []


def crash_states(root, f):
    """run f() and return (exception or None, [(label, snapshot dir)]) for all crash points, the last one being its end"""
    if not _installed:
        sys.addaudithook(_hook)
        _installed.append(1)
    out = tempfile.mkdtemp()
    _H.update(root=root, out=out, snaps=[], opened=None, on=True)
    err = None
    try:
        f()
    except Exception as e:
        err = repr(e)
    finally:
        _H["on"] = False
    _snap("end")
    return err, _H["snaps"], out


def hists(tier):
    P = [("put", s, k) for s in (1, 2, 10) for k in (1, 2, 3)]
    h = [()] + [(p,) for p in P if p[2] == 2] + [(a, b) for a in P for b in P if a[2] == b[2] == 2]
    if tier == "thorough":
        h += [(a, b, c) for a in P for b in P for c in P if a[2] == b[2] == c[2] == 3]
    return h


FIN = [("put", s, k) for s in (1, 2, 3, 10) for k in (1, 2)] + [("update", 1), ("update", 2), ("pull",)]


def units(tier):
    H = hists(tier)
    return [("repo", i, tier) for i in range(len(H))] + [("multi", d) for d in ("plain", "frozen")]


class Repo:
    def __init__(self, root):
        import optax
        from flax import io
        from flax.core import FrozenDict

        from fortuna.prob_model.posterior.map.map_state import MAPState
        from fortuna.prob_model.posterior.posterior_state_repository import PosteriorStateRepository

        io.set_mode(io.BackendMode.DEFAULT)
        self.FD, self.S, self.opt = FrozenDict, MAPState, optax.sgd(0.1)
        self.r = PosteriorStateRepository(root)

    def params(self, v):
        return self.FD({"model": {"params": {"w": np.full((40,), v, "float32"), "b": np.float32(v) * np.ones(3, "float32")}}})

    def do(self, op, v):
        if op[0] == "put":
            s = self.S.init(params=self.params(v), mutable=self.FD({"m": np.array([v], "float32")}), optimizer=self.opt).replace(step=op[1])
            self.r.put(s, keep=op[2])
        elif op[0] == "update":
            self.r.update(dict(params=self.params(v), mutable=self.FD({"m": np.array([v], "float32")})), keep=op[1])
        else:
            self.r.pull()

    def content(self):
        try:
            s = self.r.get()
        except ValueError as e:
            return "none" if "No checkpoint" in str(e) or "not found" in str(e) else "error:" + repr(e)[:200]
        except Exception as e:
            return "error:" + repr(e)[:200]
        w, b, m = (np.asarray(x) for x in (s.params["model"]["params"]["w"], s.params["model"]["params"]["b"], s.mutable["m"]))
        vals = set(w.tolist()) | set(b.tolist()) | set(m.tolist())
        return (int(s.step), vals.pop()) if len(vals) == 1 and w.shape == (40,) and b.shape == (3,) else "mixed"


def repo_unit(u, ctx):
    _, hi, tier = u
    hist = hists(tier)[hi]
    for fin in FIN:
        root = tempfile.mkdtemp()
        outs = [root]
        try:
            R = Repo(root)
            v = 1.0
            for op in hist:
                R.do(op, v)
                v += 1
            old = R.content()
            if old == "none" and fin[0] != "put":
                continue
            err, snaps, out = crash_states(root, lambda: R.do(fin, v))
            outs.append(out)
            sig = fin[0]
            ctx.check(err is None, sig + ":raised", (hist, fin, err))
            new = Repo(root).content()
            if fin[0] == "put":
                ctx.check(new == (fin[1], v), sig + ":after", (hist, fin, new))
            if fin[0] == "update":
                ctx.check(new == (old[0], v), sig + ":after", (hist, fin, new))
            ctx.check(len(snaps) >= 2, sig + ":no-crash-points", (hist, fin))
            ctx.add("crash_points", len(snaps))
            for n, (lab, d) in enumerate(snaps):
                got = Repo(d).content()
                ctx.nt((hist, fin, n, lab))
                ctx.state()
                ctx.check(got in (old, new), f"{sig}:crash:{lab.rstrip('0123456789')}", lambda: (hist, fin, n, lab, sorted(os.listdir(d)), "got", got, "old", old, "new", new))
                # recovery: a second save, itself crashing at every point
                err, s2, out2 = crash_states(d, lambda: Repo(d).do(("put", 20, 1), 99.0))
                outs.append(out2)
                ctx.check(err is None, sig + ":recovery-raised", lambda: (hist, fin, lab, err))
                for lab2, d2 in s2:
                    got2 = Repo(d2).content()
                    ctx.trans()
                    ctx.check(got2 in (got, (20, 99.0)), f"{sig}:recovery-crash", lambda: (hist, fin, lab, lab2, got2))
                ctx.check(Repo(d).content() == (20, 99.0), sig + ":recovery", lambda: (hist, fin, lab, Repo(d).content()))
        finally:
            for o in outs:
                shutil.rmtree(o, ignore_errors=True)


def multi_unit(u, ctx):
    """operations on all slots: each slot holds its old or its new state at every crash point"""
    from mc.props.c11 import VAL, Impl
    from flax import io

    io.set_mode(io.BackendMode.DEFAULT)
    kind = "plain" if u[1] == "plain" else "frozen2"
    for n in (1, 2, 3):
        for pre in itertools.product((None, "a", "b"), repeat=n):
            for fin in (("put", None, "c"), ("update", None, "c"), ("pull", None), ("put", n - 1, "c"), ("update", 0, "c")):
                I = Impl(n, kind, 1)
                out = None
                try:
                    for i, c in enumerate(pre):
                        if c:
                            I.do(("put", i, c))
                    touched = range(n) if fin[1] is None else [fin[1]]
                    if fin[0] != "put" and any(pre[i] is None for i in touched):
                        continue
                    if fin[0] == "put":
                        I.make2 = I.make("c")
                    os.makedirs(I.dir, exist_ok=True)
                    err, snaps, out = crash_states(I.dir, lambda: I.do(fin))
                    ctx.check(err is None, "multi:raised", (pre, fin, err))
                    for k, (lab, d) in enumerate(snaps):
                        J = Impl(n, kind, 1)
                        try:
                            shutil.copytree(d, J.dir)
                            for i in range(n):
                                try:
                                    got = J.content(J.repo.get(i))
                                except ValueError as e:
                                    got = None if "No checkpoint" in str(e) or "not found" in str(e) else repr(e)
                                except Exception as e:
                                    got = repr(e)
                                new = (None if fin[0] == "pull" else "c") if i in touched else pre[i]
                                ok = got in (pre[i], new) if i in touched else got == pre[i]
                                ctx.check(ok, f"multi:{fin[0]}:crash:{lab.rstrip('0123456789')}", lambda: (pre, fin, lab, i, got))
                                if k == len(snaps) - 1:
                                    ctx.check(got == new, "multi:after", lambda: (pre, fin, i, got))
                        finally:
                            J.close()
                        ctx.nt((kind, pre, fin, k))
                        ctx.state()
                        ctx.trans()
                finally:
                    I.close()
                    if out:
                        shutil.rmtree(out, ignore_errors=True)


def run_unit(u, ctx):
    if u[0] == "repo":
        repo_unit(u, ctx)
    else:
        multi_unit(u, ctx)
