"""P19: fit measures for every small data set."""
import itertools
import math
import torch
from torch import nn
from mc.core import close, raises, require
from mc import models as B

META = dict(
    title="Fit measures equal their definitions on exactly the observed responses",
    statement="Residuals, accuracy, precision/recall/F1, infit and outfit and log-likelihoods are those defined in the documentation, computed for each item "
              "and respondent from exactly its observed responses, at every level and reduction, with the same averages for both missing codes; "
              "impossible responses count as a log-likelihood of -30.",
    over=["inputs", "configurations"],
    quant="all data matrices of two respondents with both missing codes x kinds of model, all levels and reductions; every model family on one data set",
    why="Tests check shapes and ranges on data without, or with one kind of, missing responses.",
    files=["irtorch/evaluator.py", "irtorch/models/base_irt_model.py"],
    mech=[("residuals", "residuals"), ("accuracy", "accuracy, predictions"), ("mean squares", "infit_outfit"), ("likelihood", "log_likelihood")],
    technique="exhaustive enumeration of small data matrices against direct evaluation of the definitions in plain Python",
)
PARALLEL = True
BOUNDS = "all 2x2 matrices over {categories, nan, -1} for 4 kinds of model (thorough: 3x2 for two of them); every family x option on a 5-respondent matrix"
ASSUMPTIONS = []
NAN = math.nan


class Certain(B.M.BaseIRTModel):
    """Item 1 is answered 1 with certainty."""

    def __init__(self):
        super().__init__(latent_variables=1, item_categories=[2, 3])
        self.p = nn.Parameter(torch.zeros(1))

    def forward(self, theta):
        n = len(theta)
        a = torch.tensor([-math.inf, 0.0, -math.inf]).repeat(n, 1)
        b = torch.stack([torch.zeros(n), theta[:, 0], 0.5 + self.p * theta[:, 0]], 1)
        return torch.cat([a, b], 1)


KINDS = {
    "GPC": lambda: B.build("GPC", 1, [2, 3]),
    "NRM-mc": lambda: B.build("NRM", 1, [2, 3], mc_correct=[1, 2]),
    "MIX": lambda: B.build("MIX", 1, [], parts=[("2PL", 1, [2]), ("GPC", 1, [3])]),
    "certain": Certain,
}


def miss(x):
    return math.isnan(x) or x == -1


def mean(v):
    v = [x for x in v if not math.isnan(x)]
    return sum(v) / len(v) if v else NAN


def spec(m, rows, th):
    P = m.item_probabilities(th).double().tolist()
    key, cats = m.mc_correct, m.item_categories
    n, k = len(rows), len(cats)
    E = [[P[i][j][key[j]] if key is not None else sum(v * P[i][j][v] for v in range(cats[j])) for j in range(k)] for i in range(n)]
    R = [[NAN] * k for _ in range(n)]
    A = [[NAN] * k for _ in range(n)]
    L = [[NAN] * k for _ in range(n)]
    Q = [[NAN] * k for _ in range(n)]
    V = [[NAN] * k for _ in range(n)]
    best = [[max(range(cats[j]), key=lambda v: P[i][j][v]) for j in range(k)] for i in range(n)]
    for i, row in enumerate(rows):
        for j, x in enumerate(row):
            if miss(x):
                continue
            x = int(x)
            R[i][j] = 1 - P[i][j][x] if key is not None else x - E[i][j]
            A[i][j] = float(best[i][j] == x)
            L[i][j] = math.log(P[i][j][x]) if P[i][j][x] > 0 else -30.0
            s = float(x == key[j]) if key is not None else x
            Q[i][j] = (s - E[i][j]) ** 2
            V[i][j] = E[i][j] * (1 - E[i][j]) if key is not None else sum((v - E[i][j]) ** 2 * P[i][j][v] for v in range(cats[j]))
    return P, E, R, A, L, Q, V, best


def col(M, j):
    return [r[j] for r in M]


def flat(M):
    return [x for r in M for x in r]


def nansum(v):
    return sum(x for x in v if not math.isnan(x))


def ratio(a, b):
    if b == 0:
        return NAN if a == 0 else math.inf
    return a / b


def check(ctx, m, rows, th):
    e = m.evaluate
    data = torch.tensor(rows)
    n, k = len(rows), m.items
    P, E, R, A, L, Q, V, best = spec(m, rows, th)
    tol = dict(atol=2e-4, rtol=1e-4)
    close(e.residuals(data, th), R, "residuals", **tol)
    close(e.residuals(data, th, average_over="items"), [mean(r) for r in R], "residuals over items", **tol)
    close(e.residuals(data, th, average_over="respondents"), [mean(col(R, j)) for j in range(k)], "residuals over respondents", **tol)
    close(e.residuals(data, th, average_over="everything"), mean(flat(R)), "residuals over everything", **tol)
    close(e.accuracy(data, th), mean(flat(A)), "accuracy", **tol)
    close(e.accuracy(data, th, level="item"), [mean(col(A, j)) for j in range(k)], "accuracy of items", **tol)
    close(e.accuracy(data, th, level="respondent"), [mean(r) for r in A], "accuracy of respondents", **tol)
    close(e.log_likelihood(data, th, reduction="none"), L, "log-likelihoods", **tol)
    for red, f in (("sum", nansum), ("mean", mean)):
        close(e.log_likelihood(data, th, reduction=red), f(flat(L)), f"log-likelihood {red}", **tol)
        close(e.log_likelihood(data, th, reduction=red, level="item"), [f(col(L, j)) for j in range(k)], f"log-likelihood {red} of items", **tol)
        close(e.log_likelihood(data, th, reduction=red, level="respondent"), [f(r) for r in L], f"log-likelihood {red} of respondents", **tol)
    W = [[NAN if math.isnan(q) else (0.0 if q == 0 else ratio(q, v)) for q, v in zip(a, b)] for a, b in zip(Q, V)]
    for level, take, cnt in (("item", col, k), ("respondent", lambda M, i: M[i], n)):
        infit, outfit = e.infit_outfit(data, th, level=level)
        for i in range(cnt):
            q, v = nansum(take(Q, i)), nansum(take(V, i))
            if v > 1e-6:
                close(infit[i], q / v, f"infit of {level} {i}", **tol)
            w = take(W, i)
            if all(math.isfinite(x) or math.isnan(x) for x in w):
                close(outfit[i], mean(w), f"outfit of {level} {i}", atol=1e-3, rtol=1e-3)
    df = e.predictions(data, th)
    for j in range(k):
        obs = [(int(rows[i][j]), best[i][j]) for i in range(n) if not miss(rows[i][j])]
        want = dict.fromkeys(("precision", "recall", "f1", "w_precision", "w_recall", "w_f1"), 0.0)
        c = m.item_categories[j]
        for v in range(c):
            tp = sum(o == v and b == v for o, b in obs)
            fp = sum(o != v and b == v for o, b in obs)
            fn = sum(o == v and b != v for o, b in obs)
            pr = tp / (tp + fp) if tp else 0.0
            rc = tp / (tp + fn) if tp else 0.0
            f1 = 2 * pr * rc / (pr + rc) if tp else 0.0
            weight = sum(o == v for o, _ in obs) / len(obs) if obs else 0.0
            for name, x in (("precision", pr), ("recall", rc), ("f1", f1)):
                want[name] += x / c
                want["w_" + name] += x * weight
        for name, x in want.items():
            if not obs:
                continue
            close(float(df[name].iloc[j]), x, f"{name} of item {j}", **tol)
    ctx.step(20)


def run(ctx):
    th2 = torch.tensor([[-0.7], [1.1], [0.2]])
    cells = [(0., 1., NAN, -1.), (0., 1., 2., NAN, -1.)]
    rows_all = list(itertools.product(*cells))
    for kn in KINDS:
        m = KINDS[kn]()
        nr = 3 if ctx.thorough and kn in ("GPC", "NRM-mc") else 2
        for rows in ctx.each(list(itertools.product(rows_all, repeat=nr))):
            rows = [list(r) for r in rows]
            with ctx.case("data", kind=kn, data=[[str(x) for x in r] for r in rows]):
                check(ctx, m, rows, th2[:nr])
                ctx.state(kn, str(rows))
    for d in ctx.each(list(B.configs(ctx.thorough, psets=(0, 1), all_masks=ctx.thorough)) + list(B.mix_configs())):
        with ctx.case("families", **d):
            m = B.build(**d)
            lv = m.latent_variables
            rows = [[float((i * (j + 2) + i // 2) % c) for j, c in enumerate(m.item_categories)] for i in range(5)]
            rows[1][0], rows[3][-1] = NAN, -1.0
            th = torch.tensor([[-1.3, .4], [.2, 1.1], [0.9, -.7], [1.8, 0.1], [-0.4, -1.6]])[:, :lv]
            check(ctx, m, rows, th)
            raises(lambda: m.evaluate.infit_outfit(torch.tensor(rows), th, level="everything"), "unknown level")
            ctx.state(d)
