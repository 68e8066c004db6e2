"""C13 training schedule: updates, validations, early stopping, checkpoints, callbacks, histories against a reference trace."""
import itertools
import os
import shutil
import tempfile

import numpy as np

ID = "C13"
LEVEL = "model_checking"
RULE = (
    "state = (epoch, step, accumulated gradient, parameters, mutable, early-stopping memory, checkpoints); every "
    "configuration (batches, epochs, validation cadence, accumulation, checkpoint cadence, early-stopping options) and "
    "every sequence of validation losses over the alphabet is run on the real trainer and its trace of events compared "
    "with the reference automaton step by step; non-trivial = distinct configuration with at least one update"
)
ASSUMPTIONS = [
    "the trainer is driven with a scripted scalar loss; end-to-end posteriors are covered by other properties",
    "an early-stopping patience p stops after p+1 validations in a row without improvement (flax semantics)",
    "with early stopping, only the latest and the best checkpoints are prescribed, and at most keep_top_n of them",
]


def units(tier):
    u = []
    E = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6)
    for b in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for e in E:
            for val in (0, 1, 2):
                u.append(("sched", b, e, val))
    L = 5 if tier == "quick" else 6
    for first in itertools.product((0, 1, 2), repeat=2):
        u.append(("early", first, L))
    for b in (1, 2, 3):
        for e in (1, 2, 3):
            u.append(("ckpt", b, e, tier))
    return u


def reference(b, E, ev, acc, nval, vals=None, patience=0, min_delta=0.0, mode="min", monitor="val_loss", w0=0.0):
    """Trace of the reference automaton: list of events and the final state."""
    w, step, g = w0, 0, 0.0
    a = acc if acc and acc > 1 else 1
    tr, loss_hist, met_hist, vloss, vmet = [], [], [], [], []
    best, count, nv = None, 0, 0
    for e in range(E):
        tr.append(("epoch_start", step, w))
        ls, ms = [], []
        for k in range(b):
            x = k + 1.0
            tr.append(("train", step, w, x))
            loss, out = w * x, x + w
            g += x
            step += 1
            if step % a == 0:
                w -= g / a
                g = 0.0
                ls.append(loss)
                ms.append(10 * out)
                tr.append(("step_end", step, w))
        tr.append(("epoch_end", step, w))
        if ls:
            loss_hist.append(np.mean(ls))
            met_hist.append(np.mean(ms))
        if nval and ev and e % ev == 0:
            vl, vm = [], []
            for k in range(nval):
                tr.append(("val", step, w))
                vl.append(vals[nv % len(vals)] if vals is not None else w * (k + 1.0))
                vm.append(10 * (k + 1.0 + w))
            nv += 1
            vloss.append(np.mean(vl))
            vmet.append(np.mean(vm))
            if patience and patience > 0:
                m = {"val_loss": vloss[-1], "val_m": vmet[-1]}[monitor]
                m = -m if mode == "max" else m
                if best is None or best - m > min_delta:
                    best, count = m, 0
                    tr.append(("improved", step, w))
                else:
                    if count >= patience:
                        tr.append(("stop", step, w))
                        break
                    count += 1
    return tr, dict(w=w, step=step, loss=loss_hist, m=met_hist, val_loss=vloss, val_m=vmet)


def run(b, E, ev, acc, nval, vals=None, metrics=True, disable=False, ckdir=None, save_every=None, keep=2, cb_look=None, **es):
    import jax
    import jax.numpy as jnp
    import optax
    from flax.core import FrozenDict

    from fortuna.prob_model.posterior.map.map_state import MAPState
    from fortuna.prob_model.posterior.map.map_trainer import MAPTrainer
    from fortuna.training.callback import Callback

    tr, keys, bad = [], [], []
    nv = [0]

    def loss(params, batch, n_data, mutable, return_aux, train, rng=None, calib_params=None, calib_mutable=None):
        x = batch[0][0]
        w = params["w"][0]
        aux = {"outputs": jnp.reshape(x + w, (1,))}
        cw = float(jax.lax.stop_gradient(w).primal if hasattr(jax.lax.stop_gradient(w), "primal") else jax.lax.stop_gradient(w))
        if n_data != (1000 if train else 77):
            bad.append(("n_data", train, n_data))
        if (calib_params or {}).get("t") != 5.0:
            bad.append(("calib_params", train))
        if train:
            keys.append(tuple(np.asarray(rng).ravel().tolist()))
            tr.append(("train", int(mutable["c"]), cw, float(x)))
            if "mutable" in return_aux:
                aux["mutable"] = FrozenDict({"c": mutable["c"] + 1})
            return w * x, aux
        tr.append(("val", int(mutable["c"]), cw))
        k = nv[0] // nval
        nv[0] += 1
        l = jnp.asarray(float(vals[k % len(vals)])) if vals is not None else w * x
        return l, aux

    class CB(Callback):
        def training_epoch_start(self, state):
            tr.append(("epoch_start", int(state.step), float(state.params["w"][0])))
            return state

        def training_epoch_end(self, state):
            tr.append(("epoch_end", int(state.step), float(state.params["w"][0])))
            return state

        def training_step_end(self, state):
            tr.append(("step_end", int(state.step), float(state.params["w"][0])))
            if cb_look:
                cb_look(int(state.step))
            return state

    class CB2(Callback):
        """callbacks run in order and their state is the one used afterwards"""

        def training_step_end(self, state):
            if tr[-1][0] != "step_end":
                bad.append(("callback-order", tr[-1]))
            return state

    def m(preds, targets):
        return jnp.mean(preds) * 10

    trainer = MAPTrainer(predict_fn=lambda o, **k: o, eval_every_n_epochs=ev, disable_training_metrics_computation=disable, save_checkpoint_dir=ckdir,
                         save_every_n_steps=save_every, keep_top_n_checkpoints=keep, early_stopping_verbose=False, **es)
    st = MAPState.init(params=FrozenDict({"w": jnp.zeros(1)}), mutable=FrozenDict({"c": jnp.zeros((), "int32")}), optimizer=optax.sgd(1.0), calib_params=FrozenDict({"t": 5.0}))
    dl = [(np.full((1,), i + 1, "float32"), np.zeros(1, "float32")) for i in range(b)]
    vdl = [(np.full((1,), i + 1, "float32"), np.zeros(1, "float32")) for i in range(nval)]
    kw = {}
    if acc is not None:
        kw["gradient_accumulation_steps"] = acc
    st, status = trainer.train(
        jax.random.PRNGKey(0), st, loss, dl, 1000, n_epochs=E, verbose=False, metrics=(m,) if metrics else None,
        validation_dataloader=vdl if nval else None, validation_dataset_size=77 if nval else None, callbacks=[CB(), CB2()], **kw)
    fin = dict(w=float(st.params["w"][0]), step=int(st.step), **{k: np.asarray(v).tolist() for k, v in status.items()})
    fin["c"] = int(st.mutable["c"])
    return tr, fin, keys, bad


def close(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and np.allclose(x[1:], y[1:], rtol=1e-4, atol=1e-4) for x, y in zip(a, b))


def compare(ctx, sig, cfg, got, ref, metrics, disable, acc):
    tr, fin, keys, bad = got
    rtr, rfin = ref
    rtr_vis = [t for t in rtr if t[0] not in ("improved", "stop")]
    ctx.trans(len(tr))
    ctx.state()
    ctx.trace()

    def first_diff():
        for i, (x, y) in enumerate(itertools.zip_longest(tr, rtr_vis)):
            if x is None or y is None or not close([x], [y]):
                return cfg, i, "got", x, "expected", y
        return cfg

    ctx.check(close(tr, rtr_vis), sig + ":trace", first_diff)
    for b in bad[:2]:
        ctx.fail(sig + ":" + b[0], (cfg, b))
    ctx.check(abs(fin["w"] - rfin["w"]) < 1e-3 and fin["step"] == rfin["step"] and fin["c"] == rfin["step"], sig + ":final", lambda: (cfg, fin, rfin))
    want = {"loss", "val_loss", "val_m", "m"}
    if not metrics:
        want -= {"m", "val_m"}
    if disable:
        want -= {"m"}
    for k in ("loss", "m", "val_loss", "val_m"):
        if k in want and rfin[k]:
            ctx.check(k in fin and np.shape(fin[k]) == np.shape(rfin[k]) and np.allclose(fin[k], rfin[k], rtol=1e-4, atol=1e-4), sig + ":history:" + k, lambda: (cfg, fin.get(k), rfin[k]))
        else:
            ctx.check(k not in fin or len(fin[k]) == 0, sig + ":history:unexpected:" + k, lambda: (cfg, fin.get(k)))
    if not (acc and acc > 1):
        ctx.check(len(set(keys)) == len(keys), sig + ":randomness-reused", lambda: (cfg, len(keys), len(set(keys))))
    else:
        ctx.check(len(set(keys)) * acc >= len(keys), sig + ":randomness-reused", lambda: (cfg, len(keys), len(set(keys))))
    ctx.nt(cfg)


def run_unit(u, ctx):
    if u[0] == "sched":
        _, b, E, nval = u
        for ev, acc, met in itertools.product((None, 0, 1, 2, 3) if nval else (1,), (None, 0, 1, 2, 3, 4), (0, 1, 2)):
            if met != 1 and (ev != 1 or acc in (0, 1)) or met == 1 and ev in (None, 3) and acc in (0, 1):
                continue
            cfg = ("sched", b, E, nval, ev, acc, met)
            try:
                got = run(b, E, ev, acc, nval, metrics=met > 0, disable=met == 2)
            except Exception as e:
                ctx.fail("sched:raised:" + type(e).__name__, (cfg, str(e)[:300]))
                continue
            compare(ctx, "sched", cfg, got, reference(b, E, ev, acc, nval), met > 0, met == 2, acc)
    elif u[0] == "early":
        _, first, L = u
        for rest in itertools.product((0, 1, 2), repeat=L - 2):
            vals = tuple(first) + rest
            for patience, md, ev, mode in ((1, 0.0, 1, "min"), (2, 0.0, 1, "min"), (1, 1.0, 1, "min"), (1, 0.5, 2, "min"), (2, 0.0, 1, "max"), (0, 0.0, 1, "min"), (3, 0.0, 1, "min")):
                if (patience in (0, 3) or ev == 2) and sum(rest) % 2:
                    pass
                E = L if ev == 1 else 2 * L - 1
                cfg = ("early", vals, patience, md, ev, mode)
                es = dict(early_stopping_patience=patience, early_stopping_min_delta=md, early_stopping_mode=mode)
                got = run(1, E, ev, None, 1, vals=vals, metrics=False, **es)
                compare(ctx, "early", cfg, got, reference(1, E, ev, None, 1, vals, patience, md, mode), False, False, None)
        # monitoring a metric
        for mode in ("min", "max"):
            for patience in (1, 2):
                es = dict(early_stopping_patience=patience, early_stopping_mode=mode, early_stopping_monitor="val_m")
                got = run(1, 5, 1, None, 1, **es)
                compare(ctx, "early", ("metric", mode, patience), got, reference(1, 5, 1, None, 1, None, patience, 0.0, mode, "val_m"), True, False, None)
    else:
        ckpt(u, ctx)


def ckpt(u, ctx):
    from fortuna.prob_model.posterior.posterior_state_repository import PosteriorStateRepository

    _, b, E, tier = u
    for se, keep, acc, es in itertools.product((None, 0, 1, 2, 3, 4), (1, 2, 3), (None, 2), (None, "improve", "worsen", "one")):
        if tier == "quick" and keep == 3 and es in ("worsen", "one"):
            continue
        d = tempfile.mkdtemp()
        try:
            vals = {None: None, "improve": (5, 4, 3, 2), "worsen": (1, 2, 3, 4), "one": (3, 2, 4, 4)}[es]
            pat = 1 if es else 0
            rtr, rfin = reference(b, E, 1, acc, 1 if es else 0, vals, pat)
            cfg = ("ckpt", b, E, se, keep, acc, es)
            steps = [t[1] for t in rtr if t[0] == "step_end"]
            save = [s for s in steps if se and s % se == 0]
            wts = {t[1]: t[2] for t in rtr}

            def ls():
                return sorted(int(f.split("_")[1]) for f in os.listdir(d))

            def look(step):
                have = ls()
                ctx.check(len(have) <= keep, "ckpt:too-many", lambda: (cfg, step, have))
                if se and step % se == 0:
                    ctx.check(bool(have) and have[-1] == step, "ckpt:not-saved", lambda: (cfg, step, have))
                if not es:
                    want = [s for s in save if s <= step][-keep:]
                    ctx.check(have == want, "ckpt:files-during", lambda: (cfg, step, have, want))
                else:
                    imp = [t[1] for t in rtr if t[0] == "improved" and t[1] < step]
                    later = [s for s in save if imp and imp[-1] < s <= step]
                    if imp and len(later) < keep:
                        ctx.check(imp[-1] in have, "ckpt:best-not-saved", lambda: (cfg, step, have, imp))

            try:
                got = run(b, E, 1, acc, 1 if es else 0, vals=vals, metrics=False, ckdir=d, save_every=se, keep=keep, cb_look=look, early_stopping_patience=pat)
            except Exception as e:
                ctx.fail("ckpt:raised:" + type(e).__name__, (cfg, str(e)[:300]))
                continue
            compare(ctx, "ckpt", cfg, got, (rtr, rfin), False, False, acc)
            have = ls()
            ctx.check(bool(have) and have[-1] == rfin["step"] and len(have) <= keep, "ckpt:final", lambda: (cfg, have, rfin["step"]))
            if not es:
                want = sorted(set(save) | {rfin["step"]})[-keep:]
                ctx.check(have == want, "ckpt:files", lambda: (cfg, have, want))
            r = PosteriorStateRepository(d)
            for s in have:
                st = r.get(checkpoint_path=os.path.join(d, f"checkpoint_{s}"))
                # the checkpoint of step s holds the parameters and the mutables after step s
                ctx.check(int(st.step) == s and int(st.mutable["c"]) == s and abs(float(st.params["w"][0]) - wts[s]) < 1e-3, "ckpt:content", lambda: (cfg, s, str(st.params), wts[s]))
        finally:
            shutil.rmtree(d)
