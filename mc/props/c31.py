"""C31 hallucination detection: scores and probabilities belong to a text and its context, not to their batch or history."""
import itertools
import os
import shutil
import tempfile

import numpy as np

ID = "C31"
LEVEL = "exploration"
RULE = (
    "all pairs of contexts and texts of up to three tokens over a two-letter vocabulary, a stub and two small transformers (absolute and rotary positions), all ordered batches of up to three representative pairs "
    "x batch sizes x padding tokens; every data set of up to four pairs with targets for fits, predictions, balancing and saving, stub clusterings; "
    "all sequences of group scores and embeddings of up to four points over three values for grouping; all strings of up to six symbols for the cleaner; "
    "non-trivial = a batch with different lengths, or a data set with both targets"
)
ASSUMPTIONS = ["floating-point tolerance 1e-4", "generative models respect the attention mask, and position_ids if they take them"]
V = 5  # pad, eos, a, b, c
VOC = {"_": 0, "$": 1, "a": 2, "b": 3, "c": 4}


class Tok:
    """character tokenizer with the interface of those of transformers"""

    def __init__(self, pad="_", side="right"):
        self.pad_token, self.eos_token, self.padding_side = pad, "$", side

    def __call__(self, strings, return_tensors=None, padding=False, **kw):
        import torch
        from transformers import BatchEncoding

        ids = [[VOC[c] for c in s] for s in ([strings] if isinstance(strings, str) else strings)]
        n = max(map(len, ids))
        assert padding or all(len(i) == n for i in ids)
        pad = VOC[self.pad_token]
        left = self.padding_side == "left"
        f = lambda i, p: [p] * (n - len(i)) + i if left else i + [p] * (n - len(i))
        return BatchEncoding({"input_ids": torch.tensor([f(i, pad) for i in ids]), "attention_mask": torch.tensor([f([1] * len(i), 0) for i in ids])})


def generator(kind):
    import torch

    torch.set_num_threads(1)
    torch.manual_seed(0)
    if kind == "gpt2":
        from transformers import GPT2Config, GPT2LMHeadModel

        m = GPT2LMHeadModel(GPT2Config(vocab_size=V, n_positions=16, n_embd=8, n_layer=2, n_head=2, initializer_range=0.7, attn_implementation="eager"))
        return m.eval()
    if kind == "llama":
        from transformers import LlamaConfig, LlamaForCausalLM

        m = LlamaForCausalLM(LlamaConfig(vocab_size=V, hidden_size=8, intermediate_size=16, num_hidden_layers=2, num_attention_heads=2, max_position_embeddings=16, initializer_range=0.7, attn_implementation="eager"))
        return m.eval()

    class Stub(torch.nn.Module):
        """logits from the mean of the tokens so far which are not masked"""

        def __init__(self):
            super().__init__()
            self.e = torch.nn.Parameter(torch.tensor(np.sin(np.arange(V * V).reshape(V, V) * 1.7) * 2, dtype=torch.float32))
            self.device = "cpu"

        def forward(self, input_ids, attention_mask):
            from types import SimpleNamespace

            w = attention_mask[..., None].float()
            h = torch.cumsum(self.e[input_ids] * w, 1) / torch.clamp(torch.cumsum(w, 1), min=1)
            return SimpleNamespace(logits=h + 0.5 * self.e[input_ids])

    return Stub()


def alone(model, text, context):
    """logits of the pair by itself; score and embedding by their definitions."""
    import torch

    ids = [VOC[c] for c in context + text]
    with torch.no_grad():
        lo = model(input_ids=torch.tensor([ids]), attention_mask=torch.ones((1, len(ids)), dtype=torch.long)).logits[0].numpy().astype("float64")
    lp = lo - np.log(np.exp(lo - lo.max(-1, keepdims=True)).sum(-1, keepdims=True)) - lo.max(-1, keepdims=True)
    return float(np.exp(np.mean([lp[t - 1, ids[t]] for t in range(len(context), len(ids))]))), lo.mean(0)


class Reduce:
    """stands for the reduction of embeddings: fitted centre, then two coordinates"""

    def fit_transform(self, e):
        self.c = e.mean(0)
        return self.transform(e)

    def transform(self, e):
        return (e - self.c)[:, [0, 2]]


class Cluster:
    """soft clusters along a coordinate; bic given"""

    def __init__(self, n, axis, bic):
        self.n, self.axis, self.b, self.fits = n, axis, bic, 0

    def fit(self, e):
        self.fits += 1
        self.lo, self.hi = float(e[:, self.axis].min()), float(e[:, self.axis].max())
        return self

    def bic(self, e):
        return self.b

    def predict_proba(self, e):
        c = np.linspace(self.lo, self.hi + 1e-3, self.n)
        p = np.exp(-2 * np.abs(e[:, self.axis][:, None] - c[None]))
        return p / p.sum(1, keepdims=True)


def calibrator(model, tok=None, clusters=None, **kw):
    from fortuna.hallucination import HallucinationMulticalibrator

    return HallucinationMulticalibrator(generative_model=model, tokenizer=tok or Tok(), embedding_reduction_model=Reduce(),
                                        clustering_models=clusters or [Cluster(2, 0, 3.0), Cluster(3, 1, 1.0), Cluster(2, 2, 2.0)], **kw)


def words(n):
    return ["".join(w) for k in range(1, n + 1) for w in itertools.product("ab", repeat=k)]


def batches(u, ctx):
    _, kind, pad, side, depth, part = u
    model = generator(kind)
    tok = Tok(pad, side)
    cal = calibrator(model, tok)
    cal.multicalibrator = object()  # as if fitted; only scores are asked for
    pairs = [(t, c) for t in words(depth) for c in words(depth)]
    want = {p: alone(model, *p) for p in pairs}
    few = pairs if len(pairs) <= 6 else [("a", "b"), ("aab"[:depth], "b"), ("b", "bab"[:depth]), ("ab", "ab"), ("bba"[:depth], "aab"[:depth]), ("a", "ba")]

    def ask(ps, b):
        s = cal.predict_proba([p[0] for p in ps], [p[1] for p in ps], batch_size=b, calibrate=False)
        e = cal._compute_scores_embeddings([p[0] for p in ps], [p[1] for p in ps], b)[1] if hasattr(cal, "_compute_scores_embeddings") else None
        return s, e

    for b in (1, 4, len(pairs)):
        s, e = ask(pairs, b)
        ctx.ev(len(pairs)); ctx.trans(len(pairs)); ctx.state(len(pairs))
        bad = [p for p, v in zip(pairs, s) if abs(v - want[p][0]) > 1e-4]
        ctx.check(len(s) == len(pairs) and not bad, f"score:{kind}:{'one' if b == 1 else 'batch'}", lambda: f"{u}, batches of {b}: score of {bad[0]} is {s[pairs.index(bad[0])]}, expected {want[bad[0]][0]}")
        if e is not None:
            bad = [p for p, v in zip(pairs, e) if np.abs(v - want[p][1]).max() > 1e-3]
            ctx.check(not bad, f"embedding:{kind}:{'one' if b == 1 else 'batch'}", lambda: f"{u}, batches of {b}: embedding of {bad[0]}")
    for n in (2, 3):
        for k, ps in enumerate(itertools.product(few, repeat=n)):
            if k % 4 != part:
                continue
            for b in range(1, n + 1):
                s, e = ask(list(ps), b)
                ctx.ev(); ctx.trans()
                if len({len(p[0]) for p in ps}) > 1 and b > 1:
                    ctx.nt((u, ps, b))
                ok = all(abs(v - want[p][0]) < 1e-4 for p, v in zip(ps, s)) and len(s) == n
                ctx.check(ok, f"score:{kind}:{'one' if b == 1 else 'batch'}", lambda: f"{u}, {ps} in batches of {b}: {s.tolist()}, expected {[want[p][0] for p in ps]}")
                if e is not None:
                    ctx.check(all(np.abs(v - want[p][1]).max() < 1e-3 for p, v in zip(ps, e)), f"embedding:{kind}:{'one' if b == 1 else 'batch'}", lambda: f"{u}, {ps} in batches of {b}: embeddings")
    ctx.check(tok.padding_side == side, "tokenizer", f"padding side left as {tok.padding_side}")
    ctx.sample(str(u))


def pipeline(u, ctx):
    """fit, predict, save, load: against the composition of the parts."""
    from fortuna.conformal import BinaryClassificationMulticalibrator

    _, first, n, thr = u
    model = generator("stub")
    pool = [("a", "b"), ("ab", "b"), ("b", "aa"), ("aba", "a")]
    scores = {p: alone(model, *p) for p in pool + [("bb", "ab")]}
    new = pool + [("bb", "ab")]
    d = tempfile.mkdtemp()
    try:
        for idx in itertools.product(range(len(pool)), repeat=n - 1):
            ps = [pool[i] for i in (first,) + idx]
            for y in itertools.product((0, 1), repeat=n):
                if n > 3 and (hash((idx, y)) + first) % 3:
                    continue
                cal = calibrator(model)
                b = 1 + (sum(idx) + sum(y)) % n
                texts, contexts, targets = [p[0] for p in ps], [p[1] for p in ps], list(y)
                try:
                    status = cal.fit(texts, contexts, targets, batch_size=b, quantile_group_scores_threshold=thr)
                except Exception as e:
                    ctx.fail(f"fit:{type(e).__name__}", f"{ps} {y}: {e!r:.300}")
                    continue
                ctx.ev(); ctx.state(); ctx.trans()
                if 0 < sum(y) < n:
                    ctx.nt((ps.__repr__(), y, thr))
                # the parts
                s = np.array([scores[p][0] for p in ps], "float32")
                red = Reduce()
                emb = np.concatenate([red.fit_transform(np.array([scores[p][1] for p in ps])), s[:, None]], 1)
                mu, sd = emb.mean(0), emb.std(0)
                sd = np.where(sd > 1e-6, sd, 1)
                c = Cluster(3, 1, 1.0).fit((emb - mu) / sd)

                def groups(e, q=None):
                    g = c.predict_proba((e - mu) / sd)
                    q = np.quantile(g, thr, axis=0) if q is None else q
                    # membership too close to the threshold depends on rounding
                    return np.concatenate([g >= q[None] - 1e-6, np.ones((len(g), 1))], 1).astype(bool), q, np.abs(g - q[None]).min(0)

                if (np.abs(emb.std(0)) < 1e-6).any() and (np.abs(emb.std(0)) > 0).any():
                    ctx.add("degenerate", 1)
                G, q, _ = groups(emb)
                ref = BinaryClassificationMulticalibrator()
                ref.calibrate(probs=s, targets=np.array(y), groups=G)
                es = np.array([scores[p][0] for p in new], "float32")
                ee = np.concatenate([red.transform(np.array([scores[p][1] for p in new])), es[:, None]], 1)
                want = np.array(ref.apply_patches(probs=es, groups=groups(ee, q)[0]))
                ask = lambda k, b=2, **kw: np.array(k.predict_proba([p[0] for p in new], [p[1] for p in new], batch_size=b, **kw))
                got = ask(cal)
                ctx.ev(4)
                # a borderline point may fall on either side of a quantile computed by rounding: both are right
                gs = c.predict_proba((ee - mu) / sd)
                firm = (np.abs(gs - q[None]) > 1e-5).all(1) | np.array([p in ps for p in new])
                tied = any(((np.abs(np.quantile(c.predict_proba((emb - mu) / sd)[:, k], thr) - c.predict_proba((emb - mu) / sd)[:, k]) < 1e-6) & (np.abs(q[k] - c.predict_proba((emb - mu) / sd)[:, k]) > 0)).any() for k in range(3))
                if not tied:
                    ctx.check(np.allclose(got[firm], want[firm], atol=1e-4), "predict", lambda: f"{ps} {y} threshold {thr}: probabilities {got.tolist()}, expected {want.tolist()}")
                else:
                    ctx.add("tied", 1)
                ctx.check(np.allclose(ask(cal, calibrate=False), es, atol=1e-5), "uncalibrated", lambda: f"{ps}: scores differ")
                again = ask(cal, b=1)
                ctx.check(np.allclose(again, got, atol=1e-5), "repeat", lambda: f"{ps} {y}: {got.tolist()} then {again.tolist()} in other batches")
                rev = np.array(cal.predict_proba([p[0] for p in new[::-1]], [p[1] for p in new[::-1]], batch_size=3))[::-1]
                ctx.check(np.allclose(rev, got, atol=1e-5), "order", lambda: f"{ps} {y}: {got.tolist()}, in reverse order {rev.tolist()}")
                pred = cal.predict([p[0] for p in new], [p[1] for p in new], batch_size=2)
                ctx.check(np.array_equal(pred, (got >= 0.5).astype(int)) or np.abs(got - 0.5).min() < 1e-5, "decision", lambda: f"{ps} {y}: {pred} for {got}")
                pred = cal.predict([p[0] for p in new], [p[1] for p in new], probs=np.array([0.5, 0.49, 0.51, 0.0, 1.0]))
                ctx.check(np.array_equal(pred, [1, 0, 1, 0, 1]), "decision:given", lambda: f"{pred}")
                f = os.path.join(d, "s")
                cal.save(f)
                other = calibrator(model)
                other.load(f)
                back = ask(other)
                ctx.ev(); ctx.trace()
                ctx.check(np.array_equal(back, got), "load", lambda: f"{ps} {y}: {got.tolist()} before saving, {back.tolist()} after loading")
                ctx.check((texts, contexts, targets) == ([p[0] for p in ps], [p[1] for p in ps], list(y)), "arguments", lambda: f"arguments changed to {texts} {contexts} {targets}")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def balance(u, ctx):
    """balancing repeats points of the rare class only, and leaves the lists of the caller alone."""
    model = generator("stub")
    pool = [("a", "b"), ("ab", "b"), ("b", "aa"), ("aba", "a"), ("bb", "ab")]
    for n in (2, 3, 4, 5):
        for y in itertools.product((0, 1), repeat=n):
            if len(set(y)) < 2:
                continue
            t, c, k = [p[0] for p in pool[:n]], [p[1] for p in pool[:n]], list(y)
            cal = calibrator(model, seed=sum(y))
            seen = {}
            real = cal._compute_scores_embeddings
            cal._compute_scores_embeddings = lambda texts, contexts, batch_size: seen.update(p=list(zip(texts, contexts))) or real(texts=texts, contexts=contexts, batch_size=batch_size)
            from fortuna.conformal import BinaryClassificationMulticalibrator as B

            fit = B.calibrate
            B.calibrate = lambda self, **kw: seen.update(y=np.array(kw["targets"]).tolist()) or fit(self, **kw)
            try:
                cal.fit(t, c, k, batch_size=2, balance=True)
            finally:
                B.calibrate = fit
            got = list(zip(seen["p"], seen["y"]))
            base = list(zip([tuple(p) for p in pool[:n]], y))
            rare = int(sum(y) * 2 < n)
            ctx.ev(); ctx.state(); ctx.trans(); ctx.nt((n, y))
            ok = got[:n] == base and all(g in base and g[1] == rare for g in got[n:]) and sum(g[1] for g in got) * 2 == len(got)
            ctx.check(ok, "balance", lambda: f"{base} balanced to {got}")
            ctx.check((t, c, k) == ([p[0] for p in pool[:n]], [p[1] for p in pool[:n]], list(y)), "balance:arguments", lambda: f"the lists of the caller became {t} {c} {k}")


def grouping(u, ctx):
    from fortuna.hallucination.grouping.clustering.base import GroupingModel

    _, n = u
    for vals in itertools.product((0.0, 1.0, 3.0), repeat=n):
        for const in (False, True):
            e = np.array([[v, 2.0 if const else (i * i) % 3, -v] for i, v in enumerate(vals)])
            for bics in itertools.permutations((1.0, 2.0, -3.0)) if n == 3 else [(1.0, -1.0, 2.0), (2.0, 2.0, 5.0)]:
                cl = [Cluster(2 + k, k, b) for k, b in enumerate(bics)]
                g = GroupingModel()
                keep = e.copy()
                g.fit(e, cl)
                sd = e.std(0)
                z = (e - e.mean(0)) / np.where(sd > 0, sd, 1)
                best = cl[int(np.argmin(bics))]
                ctx.ev(); ctx.state(); ctx.trans()
                if len(set(vals)) > 1:
                    ctx.nt((n, vals, const, bics))
                ctx.check(np.array_equal(e, keep), "group:input", "embeddings modified")
                ctx.check(g.clustering_model is best, "group:bic", lambda: f"bics {bics}: model of bic {g.clustering_model.b}")
                got, want = g.predict_proba(e), Cluster(best.n, best.axis, 0).fit(z).predict_proba(z)
                ctx.check(bool(np.allclose(got, want, atol=1e-6)), f"group:proba:{'constant' if const or len(set(vals)) == 1 else 'varied'}", lambda: f"embeddings {e.tolist()}: {got.tolist()}, expected {want.tolist()}")
                if not np.allclose(got, want, atol=1e-6):
                    continue
                h = g.hard_predict(e)
                ctx.check(bool((h.sum(1) == 1).all() and all(p[k] == p.max() for p, k in zip(got, h.argmax(1)))), "group:hard", lambda: f"{h}")
                for thr in (0.0, 0.5, 0.8, 1.0):
                    s = g.soft_predict(e, thr)
                    q = np.quantile(got, thr, axis=0)
                    firm = np.abs(got - q) > 1e-9
                    ctx.check(bool(np.array_equal(s[firm], (got > q)[firm])), "group:soft", lambda: f"{s}")
                # a single point is treated as in the whole
                one = g.predict_proba(e[:1])
                ctx.check(bool(np.allclose(one[0], got[0], atol=1e-6)), "group:alone", lambda: f"{one} alone, {got[0]} with others")
    g = GroupingModel()
    for f in (lambda: g.predict_proba(e), lambda: g.hard_predict(e), lambda: GroupingModel().fit(e, [])):
        try:
            f()
            ok = "no error"
        except Exception as ex:
            ok = type(ex).__name__
        ctx.ev()
        ctx.check(ok == "ValueError", "group:unfitted", ok)


def cleaner(u, ctx):
    from fortuna.hallucination.utils import string_cleaner

    _, first, n = u
    for rest in itertools.product("aB .?!'", repeat=n - 1):
        t = first + "".join(rest)
        o = string_cleaner(t)
        ctx.ev()
        squeeze = lambda s: s.replace(" ", "").lower()
        ctx.check(squeeze(o) == squeeze(t), "clean:content", lambda: f"{t!r} became {o!r}")
        seg = [x.strip() for x in o.replace("?", ".").replace("!", ".").split(".")]
        cap = all(not x or x == x[:1].upper() + x[1:].lower() or not x[:1].isalpha() for x in seg)
        if sum(1 for x in seg if x) > 1:
            ctx.nt(t)
        ctx.check(cap, "clean:capital", lambda: f"{t!r} became {o!r}")


def units(tier):
    q = tier == "quick"
    out = []
    for kind in ("stub", "gpt2", "llama"):
        for pad, side in (("_", "right"), (None, "left")):
            for part in range(4):
                if q and kind != "stub" and part % 2 == (side == "left"):
                    continue
                out.append(("batch", kind, pad, side, 2 if q and kind != "stub" else 3, part))
    for thr in (0.8, 0.5):
        for n in (2, 3) if q else (2, 3, 4):
            for first in range(4):
                if q and n == 3 and thr == 0.5 and first:
                    continue
                out.append(("pipe", first, n, thr))
    out += [("balance",)] + [("group", n) for n in ((2, 3) if q else (2, 3, 4, 5))]
    out += [("clean", c, n) for c in "aB .?!'" for n in ((1, 3, 5) if q else (1, 2, 3, 4, 5, 6))]
    return out


def run_unit(u, ctx):
    import logging

    from fortuna.conformal import BinaryClassificationMulticalibrator as B

    logging.disable(logging.CRITICAL)
    if not getattr(B, "_few", False):
        # a few rounds are enough here: both sides of the comparison stop after them
        real = B.calibrate
        B.calibrate = lambda self, **kw: real(self, **{"n_rounds": 3, **kw})
        B._few = True
    {"batch": batches, "pipe": pipeline, "balance": balance, "group": grouping, "clean": cleaner}[u[0]](u, ctx)
