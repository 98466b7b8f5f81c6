"""P18: the distribution of sum scores."""
import itertools
import math
import torch
from mc.core import close, raises, require
from mc import kinds as K
from mc import models as B

META = dict(
    title="Sum score distributions are exact sums over all response patterns",
    statement="For every latent density method the predicted sum score distribution is the probability, under the model and that density of the latent "
              "variables, of all response patterns with that score: one entry for every possible score, none negative, adding up to one; with a scoring "
              "key a response counts one if and only if it is the correct option.",
    over=["configurations", "inputs"],
    quant="every model family and option, scoring key and density method; all category count vectors with up to four items",
    why="Tests check shapes and that the entries add to one, which stays true when items, categories or weights are mixed up.",
    files=["irtorch/evaluator.py", "irtorch/_internal_utils.py"],
    mech=[("recursion", "conditional_score_distribution"), ("scoring key", "sum_incorrect_probabilities"), ("weights", "_get_theta_scores_and_weights")],
    technique="exhaustive enumeration of all response patterns and all small configurations, brute-force summation compared with the real recursion",
)
PARALLEL = True
BOUNDS = "all category vectors with 1-4 items of 2-4 categories; every family x option x 1-2 latent variables x 3 score/density settings; autoencoder populations"
ASSUMPTIONS = ["the shape of the density approximations themselves is checked by P21", "sampled latent variables are compared within four standard errors"]


def brute(P, cats, w, key=None):
    """P: (thetas, items, categories) probabilities, w weights."""
    P, w = P.double(), w.double()
    top = len(cats) if key is not None else sum(c - 1 for c in cats)
    out = torch.zeros(top + 1, dtype=torch.float64)
    for pat in itertools.product(*[range(c) for c in cats]):
        s = sum(int(x == k) for x, k in zip(pat, key)) if key is not None else sum(pat)
        pr = torch.ones(len(P), dtype=torch.float64)
        for j, x in enumerate(pat):
            pr = pr * P[:, j, x]
        out[s] += (pr * w).sum()
    return out


def grid_for(theta, n):
    lo, hi, sd = theta.min(0)[0], theta.max(0)[0], theta.std(0)
    axes = [torch.linspace(float(a - s), float(b + s), n) for a, b, s in zip(lo, hi, sd)]
    return torch.tensor(list(itertools.product(*[x.tolist() for x in axes])), dtype=torch.float32)


def run(ctx):
    from irtorch._internal_utils import conditional_score_distribution, sum_incorrect_probabilities
    from irtorch.estimation_algorithms import JML, MML
    vectors = [c for n in (1, 2, 3, 4) for c in itertools.product((2, 3, 4), repeat=n)]
    for cats in ctx.each(vectors):
        with ctx.case("recursion", cats=cats):
            raw = torch.tensor([[[1.0 + math.sin(1.9 * q + 2.3 * j + 0.7 * v) if v < c else 0.0 for v in range(max(cats))] for j, c in enumerate(cats)] for q in range(3)])
            P = raw / raw.sum(2, keepdim=True)
            got = conditional_score_distribution(P, list(cats))
            for q in range(3):
                close(got[q], brute(P[q:q + 1], cats, torch.ones(1)), "conditional score distribution", atol=1e-6)
            for key in itertools.product(*[range(c) for c in cats]) if len(cats) < 4 else [tuple(c - 1 for c in cats), tuple(j % c for j, c in enumerate(cats))]:
                two = sum_incorrect_probabilities(P, list(cats), list(key))
                for j, k in enumerate(key):
                    close(two[:, j, 1], P[:, j, k], f"probability of the correct option, key {key}")
                    close(two[:, j, 0], 1 - P[:, j, k], f"probability of an incorrect option, key {key}", atol=1e-6)
                ctx.step()
            ctx.state("recursion", cats)
    confs = [d for d in B.configs(ctx.thorough, psets=(0, 1), all_masks=ctx.thorough)]
    for d in ctx.each(confs):
        with ctx.case("model", **d):
            m = B.build(**d)
            lv = d["lv"]
            a = JML()
            a.training_theta_scores = torch.tensor([[-1.3, .4], [.2, 1.1], [0.9, -.7], [1.8, 0.1], [-0.4, -1.6]])[:, :lv]
            a.train_data = torch.zeros(5, len(d["cats"]))
            m.algorithm = a
            got = m.evaluate.sum_score_probabilities("data")
            P = m.item_probabilities(a.training_theta_scores)
            key = m.mc_correct
            close(got, brute(P, m.item_categories, torch.full((5,), 0.2), key), "sum scores of the training population", atol=1e-5)
            require(got.min() >= 0 and abs(float(got.sum()) - 1) < 1e-5, "not a distribution")
            for method in ("qmvn", "gmm") if d.get("p") == 0 else ():
                if method == "gmm":
                    torch.manual_seed(0)
                    m.evaluate.approximate_latent_density(a.training_theta_scores, "gmm", [1])
                got = m.evaluate.sum_score_probabilities(method, trapezoidal_segments=7)
                th = grid_for(a.training_theta_scores, 7)
                w = m.evaluate.latent_density.pdf(th).double()
                close(got, brute(m.item_probabilities(th), m.item_categories, w / w.sum(), key), f"sum scores with {method}", atol=1e-5)
            ctx.state(d)
            ctx.step(3)
    # a model with a known normal population: sampled, so compared within sampling error
    for d in ctx.each([d for d in B.configs(psets=(0,)) if d["family"] in ("2PL", "GPC", "NRM") and d["mask"] is None and len(d["cats"]) > 1]):
        with ctx.case("normal population", **d):
            m = B.build(**d)
            lv = d["lv"]
            a = MML()
            a.covariance_matrix = torch.tensor([[1.6, -0.5], [-0.5, 0.7]])[:lv, :lv]
            m.algorithm = a
            torch.manual_seed(5)
            got = m.evaluate.sum_score_probabilities("data")
            import numpy as np
            x, w = np.polynomial.hermite_e.hermegauss(31)
            L = np.linalg.cholesky(a.covariance_matrix.double().numpy())
            pts = torch.tensor(np.array([L @ np.array(c) for c in itertools.product(x, repeat=lv)]), dtype=torch.float32)
            ws = torch.tensor([math.prod(c) for c in itertools.product(w / w.sum(), repeat=lv)])
            want = brute(m.item_probabilities(pts), m.item_categories, ws, m.mc_correct)
            close(got, want, "sum scores of a normal population", atol=0.033, rtol=0)
            close(got.sum(), 1.0, "total")
            ctx.state("normal", d)
    for kn in ctx.each(["GPC1-JML", "2PL1-MML", "NRM1-mc-JML", "MIX1-JML", "GRM2-AE", "NN1-VAE"]):
        with ctx.case("given population", kind=kn):
            m = K._k(B.build("2PL", 1, [2] * 4), K.mml, "S") if kn == "2PL1-MML" else K.KINDS[kn]()
            if hasattr(m.algorithm, "encoder"):
                continue
            # response patterns with finite maximum likelihood scores
            every = torch.tensor(list(itertools.product(*[[float(x) for x in range(c)] for c in m.item_categories])))
            scores = m.latent_scores(every, theta_estimation="ML", lbfgs_learning_rate=0.25, rescale=False)
            pop = every[scores.abs().amax(dim=1) < 2.5][:5]
            require(len(pop) >= 2, "the population of the check is empty")
            for rows in (pop, pop[:1], pop[1:]):
                th = m.latent_scores(rows, theta_estimation="ML", lbfgs_learning_rate=0.25, rescale=False)
                got = m.evaluate.sum_score_probabilities("data", population_data=rows)
                close(got, brute(m.item_probabilities(th), m.item_categories, torch.full((len(rows),), 1 / len(rows)), m.mc_correct), "sum scores of a given population", atol=2e-3)
                ctx.state("population", kn, len(rows))
    for kn in ctx.each(["GRM2-AE", "NN1-VAE"]):
        with ctx.case("autoencoder population", kind=kn):
            m = K.KINDS[kn]()
            pop = K.data_for(m.item_categories, n=6, k=2)
            th = m.latent_scores(pop, theta_estimation="NN", rescale=False)
            close(m.evaluate.sum_score_probabilities("data", population_data=pop), brute(m.item_probabilities(th), m.item_categories, torch.full((6,), 1 / 6.)),
                  "sum scores of a given population", atol=1e-5)
            th = m.algorithm.training_theta_scores
            close(m.evaluate.sum_score_probabilities("data"), brute(m.item_probabilities(th), m.item_categories, torch.full((len(th),), 1 / len(th))),
                  "sum scores of the training population", atol=1e-5)
            if kn == "NN1-VAE":
                for pop_ in (None, pop):
                    torch.manual_seed(3)
                    got = m.evaluate.sum_score_probabilities("encoder sampling", population_data=pop_, sample_size=20000)
                    src = m.algorithm.train_data if pop_ is None else pop_
                    mean, se = m.latent_scores(src, theta_estimation="NN", standard_errors=True, rescale=False)
                    import numpy as np
                    x, w = np.polynomial.hermite_e.hermegauss(21)
                    pts = (mean + se * torch.tensor(x, dtype=torch.float32)).reshape(-1, 1)
                    ws = torch.tensor(w / w.sum()).repeat(len(src)) / len(src)
                    close(got, brute(m.item_probabilities(pts), m.item_categories, ws), "sum scores of encoder samples", atol=0.015, rtol=0)
            else:
                raises(lambda: m.evaluate.sum_score_probabilities("encoder sampling"), "encoder sampling without a variational autoencoder")
            raises(lambda: m.evaluate.sum_score_probabilities("median"), "unknown density")
            ctx.state(kn)
