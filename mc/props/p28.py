"""P28: the InterModel Vigorish against its definition (Domingue et al. 2024)."""
import itertools
import math
import torch
from torch import nn
from mc.core import close, require
from mc import models as B, kinds as K

META = dict(
    title="The InterModel Vigorish is the defined gain of the second model over the first",
    statement="imv is (w2 - w1) / w1, where w is the coin at least as good as a fair one whose expected log-likelihood equals the model's mean log-likelihood over "
              "exactly the observed responses; models no better than a fair coin have w = 1/2. It is zero for equally good models, positive exactly when the second "
              "predicts better, and unaffected by respondent order, duplication of all rows, the missing code, or whether thetas are supplied or computed.",
    over=["inputs", "configurations"],
    quant="all ordered pairs of models with a prescribed mean log-likelihood on a grid; all 2x2 data matrices with both missing codes x model pairs; every pair of fitted-looking kinds",
    why="Tests replace the likelihoods by two constants and repeat the code's own computation.",
    files=["irtorch/utils.py", "irtorch/evaluator.py"],
    mech=[("gain", "imv"), ("mean log-likelihood", "log_likelihood")],
    technique="exhaustive enumeration of likelihood pairs and small data matrices against a bisection solution of the defining equation",
)
PARALLEL = True
BOUNDS = "all ordered pairs of 19 (thorough 61) mean log-likelihoods; 4^4 matrices x 3 model pairs (thorough 7^4 with 3 categories); 7 x 7 kinds"
ASSUMPTIONS = ["w is compared to 2e-5 (single precision); mean log-likelihoods within 1e-5 of log(1/2) are not enumerated, except exactly equal models"]
NAN = math.nan


def coin(e):
    """w in [1/2, 1] with w log w + (1-w) log(1-w) = e, by bisection."""
    if e <= -math.log(2):
        return 0.5
    lo, hi = 0.5, 1.0
    for _ in range(200):
        mid = (lo + hi) / 2
        v = mid * math.log(mid) + ((1 - mid) * math.log1p(-mid) if mid < 1 else 0.0)
        lo, hi = (mid, hi) if v < e else (lo, mid)
    return (lo + hi) / 2


class Coins(B.M.BaseIRTModel):
    """Items answered correctly with a fixed probability."""

    def __init__(self, probs):
        super().__init__(latent_variables=1, item_categories=[2] * len(probs))
        self.probs = probs
        self.p = nn.Parameter(torch.zeros(1))

    def forward(self, theta):
        row = torch.tensor([v for p in self.probs for v in (math.log1p(-p), math.log(p))])
        return row.repeat(len(theta), 1)


def gain(e1, e2):
    a, b = coin(e1), coin(e2)
    return (b - a) / a


def miss(x):
    return math.isnan(x) or x == -1


def mean_ll(m, rows, th):
    P = m.item_probabilities(th).double()
    v = [math.log(max(float(P[i, j, int(x)]), 1e-30)) for i, r in enumerate(rows) for j, x in enumerate(r) if not miss(x)]
    return sum(v) / len(v) if v else None


def run(ctx):
    from irtorch.utils import imv
    n = ctx.pick(9, 30)
    levels = [-3.0, -1.0, -0.7] + [round(-0.0004 - 0.6924 * (i / (2 * n - 3)) ** 1.5, 6) for i in range(2 * n - 2)]
    ones = torch.ones(3, 1)
    th = torch.tensor([[-1.0], [0.0], [1.0]])
    for a in ctx.each(levels):
        with ctx.case("pairs of likelihoods", first=a):
            for b in levels:
                v = imv(Coins([math.exp(a)]), Coins([math.exp(b)]), ones, th, th)
                close(v, gain(a, b), f"imv of mean log-likelihoods {a} and {b}", atol=5e-5)
                if a == b:
                    close(v, 0.0, "imv of equal models", atol=1e-6)
                if abs(a - b) > 1e-3 and max(a, b) > -0.69:
                    require((v > 0) == (b > a), f"sign of the imv {v} for {a} and {b}")
                ctx.step()
            ctx.state("level", a)
    pairs = {
        "1PL-2PL": lambda: (B.build("1PL", 1, [2, 2], p=0), B.build("2PL", 1, [2, 2], p=1)),
        "2PL-NN": lambda: (B.build("2PL", 1, [2, 2], p=1), B.build("NN", 1, [2, 2], p=0, separate="items")),
        "3PL-MIX": lambda: (B.build("3PL", 1, [2, 2]), B.build("MIX", 1, [], parts=[("2PL", 1, [2]), ("1PL", 1, [2])])),
    }
    if ctx.thorough:
        pairs["GPC-GRM"] = lambda: (B.build("GPC", 1, [3, 2]), B.build("GRM", 1, [3, 2]))
    th2 = torch.tensor([[-0.8], [1.1]])
    th3 = torch.tensor([[0.4], [-0.2]])
    for name, mk in pairs.items():
        cats = mk()[0].item_categories
        vals = [list(range(c)) + [NAN, -1] for c in cats]
        for r0 in ctx.each(list(itertools.product(*vals))):
            m1, m2 = mk()
            for r1 in itertools.product(*vals):
                rows = [[float(x) for x in r0], [float(x) for x in r1]]
                e1, e2 = mean_ll(m1, rows, th2), mean_ll(m2, rows, th3)
                if e1 is None or min(abs(e + math.log(2)) for e in (e1, e2)) < 1e-4:
                    continue
                with ctx.case("matrices", models=name, rows=rows):
                    data = torch.tensor(rows)
                    v = imv(m1, m2, data, th2, th3)
                    close(v, gain(e1, e2), "imv", atol=1e-4)
                    close(imv(m2, m1, data, th3, th2), gain(e2, e1), "imv the other way", atol=1e-4)
                    close(imv(m1, m2, data.flip(0), th2.flip(0), th3.flip(0)), v, "imv of reversed rows", atol=1e-5)
                    close(imv(m1, m2, data.repeat(2, 1), th2.repeat(2, 1), th3.repeat(2, 1)), v, "imv of repeated rows", atol=1e-5)
                    ctx.step(4)
                    ctx.state(name, rows)
    names = sorted(K.KINDS)
    for a in ctx.each(names):
        m1 = K.KINDS[a]()
        for b in names:
            m2 = K.KINDS[b]()
            with ctx.case("computed scores", first=a, second=b):
                cats = [min(x, y) for x, y in zip(m1.item_categories, m2.item_categories)]
                if len(m1.item_categories) != len(m2.item_categories):
                    continue
                data = K.data_for(cats, n=6, k=1)
                for est in ("EAP", "MAP"):
                    kw = dict(theta_estimation=est, eap_theta_integration_points=7)
                    t1 = m1.latent_scores(data, rescale=False, **kw)
                    t2 = m2.latent_scores(data, rescale=False, **kw)
                    want = gain(mean_ll(m1, data.tolist(), t1), mean_ll(m2, data.tolist(), t2))
                    close(imv(m1, m2, data, **kw), want, f"imv with {est} scores", atol=2e-4)
                    close(imv(m1, m2, data, t1, **kw), want, f"imv with {est} scores of the first", atol=2e-4)
                    close(imv(m1, m2, data, model2_theta=t2, **kw), want, f"imv with {est} scores of the second", atol=2e-4)
                    ctx.step(3)
                ctx.state("kinds", a, b)
