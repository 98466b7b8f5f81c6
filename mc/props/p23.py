"""P23: exact distributions of simulated responses."""
import itertools
import math
import torch
from mc.core import close, require, raises
from mc import models as B, kinds as K
from mc import rng

META = dict(
    title="Simulated and guessed responses follow exactly the stated probabilities",
    statement="Every response matrix is simulated from a model with exactly the product of its response probabilities at the given latent variables, so "
              "respondents and items are independent and impossible responses never occur. Guessed data hold the correct option with exactly the given "
              "probability and the other options equally often; random incorrect imputation draws every incorrect option equally often, independently per cell.",
    over=["inputs", "configurations"],
    quant="all outcomes of the random generators, with their probabilities, for every model family and option and all small guessing and imputation settings",
    why="Tests look at shapes, or at one random draw; a wrong, dependent or shifted distribution cannot be seen in one draw.",
    files=["irtorch/models/base_irt_model.py", "irtorch/models/model_mix.py", "irtorch/_internal_utils.py", "irtorch/utils.py"],
    mech=[("simulation", "sample_test_data"), ("guessing", "random_guessing_data"), ("imputation", "impute_missing random incorrect")],
    technique="probabilistic exploration: all answers of the random generators consulted by the real code are enumerated and weighted, giving the exact distribution",
)
PARALLEL = True
BOUNDS = "1-2 respondents x 1-3 items of 2-4 categories; all families; guessing probabilities 0, 0.25, 0.6 and default; up to 4096 outcomes each"
ASSUMPTIONS = ["draws through torch.multinomial, bernoulli and randint are resolved; for any other generator 20000 draws are compared within 6 standard errors instead"]


def compare(ctx, fn, want, what, big=None):
    """fn() -> matrix; want: {matrix: probability}; big(n) -> fraction of each outcome in n draws (fallback)."""
    try:
        got, runs = rng.distribution(fn)
    except rng.Unresolved:
        ctx.notes["unresolved"] = True
        torch.manual_seed(11)
        n, got = 20000, {}
        for _ in range(n):
            k = tuple(tuple(x) for x in fn().tolist())
            got[k] = got.get(k, 0) + 1
        for k in set(got) | set(want):
            p = want.get(k, 0.0)
            require(abs(got.get(k, 0) / n - p) <= 6 * math.sqrt(max(p * (1 - p), 1e-6) / n) and (p > 0 or k not in got), f"{what}: {k} in {got.get(k, 0)} of {n} draws, probability {p}")
        return
    ctx.step(runs)
    for k in set(got) | set(want):
        require(abs(got.get(k, 0.0) - want.get(k, 0.0)) < 1e-5, f"{what}: {k} with probability {got.get(k, 0.0):.6f} instead of {want.get(k, 0.0):.6f}")


def product(P, cats):
    """P[i][j][v] -> distribution of the matrix."""
    out = {}
    n = len(P)
    for cells in itertools.product(*[range(c) for _ in range(n) for c in cats]):
        p = 1.0
        for i, v in enumerate(cells):
            p *= P[i // len(cats)][i % len(cats)][v]
        if p > 0:
            out[tuple(tuple(float(x) for x in cells[i * len(cats):(i + 1) * len(cats)]) for i in range(n))] = p
    return out


class IntDraws:
    """torch.randint answered like torch.multinomial with equal weights."""

    def __enter__(self):
        self.old = torch.randint
        torch.randint = self.f
        return self

    def f(self, *a, **k):
        low, high, size = (0, a[0], a[1]) if len(a) == 2 else a[:3]
        size = tuple(int(s) for s in size)
        n = math.prod(size)
        if n == 0:
            return self.old(*a, **k)
        return (torch.multinomial(torch.ones(n, high - low), 1).reshape(size) + low)

    def __exit__(self, *a):
        torch.randint = self.old


def run(ctx):
    from irtorch._internal_utils import random_guessing_data, impute_missing_internal
    from irtorch.utils import impute_missing
    ths = [torch.tensor([[0.7, -0.4]]), torch.tensor([[-1.2, 0.9], [1.5, 0.3]])]
    confs = [d for d in B.configs(ctx.thorough, psets=(0, 1), all_masks=ctx.thorough)] + list(B.mix_configs())
    for d in ctx.each(confs):
        m = B.build(**d)
        cats = m.item_categories
        for th in ths:
            th = th[:, :m.latent_variables].contiguous()
            if math.prod(cats) ** len(th) > 4096:
                continue
            with ctx.case("simulation", respondents=len(th), **d):
                P = m.item_probabilities(th).detach().double().tolist()
                compare(ctx, lambda: m.sample_test_data(th), product(P, cats), "simulated data")
                x = m.sample_test_data(th)
                require(tuple(x.shape) == (len(th), len(cats)) and x.dtype == torch.float32 and not x.requires_grad, "kind of tensor")
                ctx.state(d, len(th))
    for kn in ctx.each(list(K.KINDS)):
        with ctx.case("scaled model", kind=kn):
            m = K.KINDS[kn]()
            th = ths[0][:, :m.latent_variables].contiguous()
            P = m.item_probabilities(th).detach().double().tolist()
            compare(ctx, lambda: m.sample_test_data(th), product(P, m.item_categories), "data simulated from a fitted, rescaled model")
            ctx.state(kn)
    gs = (0.0, 0.25, 0.6)
    for cats in ctx.each([c for n in (1, 2) for c in itertools.product((2, 3, 4), repeat=n)]):
        for size in (1, 2):
            for g in [None] + list(itertools.product(gs, repeat=len(cats))):
                for key in [None] + list(itertools.product(*[range(c) for c in cats])):
                    if size == 2 and len(cats) == 2 and key is not None and (key[0] != 0 or g not in (None, (0.25, 0.6))):
                        continue
                    with ctx.case("guessing", cats=cats, size=size, guess=g, key=key):
                        pr = []
                        for j, c in enumerate(cats):
                            if key is None:
                                q = g[j] if g is not None and c == 2 else 0.0
                                pr.append([1 - q, q] + [0.0] * (c - 2))
                            else:
                                q = g[j] if g is not None else 1 / c
                                pr.append([q if v == key[j] else (1 - q) / (c - 1) for v in range(c)])
                        compare(ctx, lambda: random_guessing_data(list(cats), size, None if g is None else list(g), None if key is None else list(key)),
                                product([pr] * size, cats), "guessed data")
                        ctx.state("guess", cats, size, g, key)
        with ctx.case("guessing refused", cats=cats):
            for bad in ([1.0] * len(cats), [-0.1] * len(cats), [0.2] * (len(cats) + 1), ["a"] * len(cats), 0.3):
                raises(lambda: random_guessing_data(list(cats), 2, bad), f"guessing probabilities {bad}", ValueError)
    cells = (0., 1., math.nan, -1.)
    for a in ctx.each(list(itertools.product(cells, repeat=4))):
        rows = [list(a[:2]), list(a[2:])]
        for key in ((0, 1), (1, 2), (2, 0)):
            cats = [3, 4]
            with ctx.case("random incorrect", data=[[str(x) for x in r] for r in rows], key=key):
                P = []
                for r in rows:
                    P.append([])
                    for j, x in enumerate(r):
                        if math.isnan(x) or x == -1:
                            P[-1].append([0.0 if v == key[j] else 1 / (cats[j] - 1) for v in range(cats[j])])
                        else:
                            P[-1].append([float(v == x) for v in range(cats[j])])
                want = product(P, cats)
                data = torch.tensor(rows)
                for fn in (impute_missing, impute_missing_internal):
                    def call():
                        with IntDraws():
                            return fn(data, method="random incorrect", mc_correct=list(key), item_categories=cats)
                    compare(ctx, call, want, fn.__name__)
                ctx.state("impute", str(rows), key)
