"""P37: answers stay exact for long tests, many categories and many respondents."""
import itertools
import math
import numpy as np
import torch
from mc.core import close, require, quiet
from mc import models as B
from mc.scorers import loglik, algorithm, normal_logpdf
from mc.props import p15, p19, p20, p27

NAN = float("nan")
META = dict(
    title="Answers stay exact for long tests, many categories and many respondents",
    statement="However many items, response categories and respondents there are, likelihoods, fitting losses, scores, sum score distributions, information and fit measures equal their definitions: no "
              "likelihood of a long response pattern underflows, no category or respondent is left out or treated differently because of the size. "
              "Repeating every respondent k times leaves averages, proportions, correlations and normalised distributions as they are and multiplies sums by k.",
    over=["inputs", "configurations"],
    quant="every model family x a ladder of sizes (up to 1500 items, 40 categories, 100000 latent vectors, 40 repetitions) x fitting algorithms, scoring methods and fit measures",
    why="Tests use ten items and a hundred respondents; products of hundreds of probabilities underflow, and chunked or sampled code paths start, only beyond that.",
    files=["irtorch/models/base_irt_model.py", "irtorch/estimation_algorithms/mml.py", "irtorch/estimation_algorithms/vae.py", "irtorch/estimation_algorithms/jml.py", "irtorch/evaluator.py",
           "irtorch/_internal_utils.py"],
    mech=[("likelihoods", "response_log_likelihoods, MML._train_step, VAE._loss_function"), ("posterior", "_eap_theta_scores"), ("sum scores", "conditional_score_distribution")],
    technique="exhaustive enumeration of a ladder of sizes x families x entry points on the real code against double-precision definitions, and replication of every respondent as a metamorphic oracle",
)
PARALLEL = True
BOUNDS = ("items 1, 2, 3, 40, 300 (1500 for scores, 700 for sum scores); categories 2 to 40; respondents up to 1500 in fit measures, 100000 latent vectors; repetitions 1, 2, 3, 40; 1-2 latent variables")
ASSUMPTIONS = ["single precision: tolerances are relative to the size of the sums", "definitions are those of P15, P18, P19, P20 and P27"]
POLY = ("GPC", "GRM", "NRM", "BSP", "SUR", "POLY", "NN")


def long_cats(fam, n):
    if fam in B.BINARY:
        return [2] * n
    if fam == "NEST":
        return ([3, 4] * n)[:n]
    return ([3, 2, 4] * n)[:n]


def wide_cats(c):
    return [c, 2, c - 1]


def moderate(m):
    """Item parameters of a sane long test: discriminations of one sign, moderate difficulties."""
    with torch.no_grad():
        if hasattr(m, "weight_param"):
            m.weight_param.copy_(0.4 + 0.3 * m.weight_param.abs() / (1 + m.weight_param.abs()))
    return m


def patterns(cats, n=4):
    d = torch.tensor([[float((i * (j + 2) + j // 3 + i) % c) for j, c in enumerate(cats)] for i in range(n)])
    d[1, ::3] = NAN
    d[2, ::4] = -1
    return d


# ------------------------------------------------------------------------------------------------ scores and distributions
def eap(ctx, d):
    m = moderate(B.build(**d))
    lv, cats = d["lv"], m.item_categories
    data = patterns(cats)
    for state in ("none", "cov", "train"):
        m.algorithm = algorithm(state, lv)
        pts = 41 if lv == 1 else 9
        with quiet():
            got = m.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=pts, rescale=False)
        if state == "train":
            tr = m.algorithm.training_theta_scores.double()
            rng = tr.max(0).values - tr.min(0).values
            lo, hi = tr.min(0).values - 0.25 * rng, tr.max(0).values + 0.25 * rng
            cov = torch.cov(tr.T).reshape(lv, lv)
        else:
            lo, hi = torch.full((lv,), -3.).double(), torch.full((lv,), 3.).double()
            cov = m.algorithm.covariance_matrix.double() if state == "cov" else torch.eye(lv).double()
        grid = torch.cartesian_prod(*[torch.linspace(float(a), float(b), pts, dtype=torch.float64) for a, b in zip(lo, hi)]).view(-1, lv)
        lp = loglik(m, grid.float(), data, cats) + normal_logpdf(grid, cov)
        close(got, torch.softmax(lp, 1) @ grid, f"EAP ({state})", atol=max(2e-4, 2e-6 * len(cats)))
        ctx.step(len(data))


def ml(ctx, d):
    m = moderate(B.build(**d))
    lv, cats = d["lv"], m.item_categories
    data = patterns(cats)
    for state in ("none", "train"):
        m.algorithm = algorithm(state, lv)
        with quiet():
            got = m.latent_scores(data, theta_estimation="ML", rescale=False)
        require(bool(got.isfinite().all()), f"ML scores {got.tolist()}")
        grid = torch.linspace(-3, 3, 601).view(-1, 1)
        best, ix = loglik(m, grid, data, cats).max(1)
        own = torch.diagonal(loglik(m, got, data, cats))
        for i in range(len(data)):
            if abs(float(grid[ix[i]])) < 2.9:
                require(float(own[i]) >= float(best[i]) - 2e-5 * len(cats) - 2e-3, f"row {i} ({state}): score {got[i].tolist()} has log-likelihood {own[i]:.4f}, {float(grid[ix[i]]):.2f} has {best[i]:.4f}")
        ctx.step(len(data))


def convolve(P, cats, key):
    """Exact sum score distribution at one latent vector, P: (items, categories) in double."""
    out = np.ones(1)
    for j, c in enumerate(cats):
        out = np.convolve(out, P[j, :c] if key is None else np.array([1 - P[j, key[j]], P[j, key[j]]]))
    return out


def sums(ctx, d):
    from irtorch.estimation_algorithms import JML
    m = moderate(B.build(**d))
    cats, lv = m.item_categories, d["lv"]
    a = JML()
    th = torch.tensor([[-1.1, 0.4], [0.3, -0.8], [1.6, 0.9]])[:, :lv]
    a.training_theta_scores = th
    a.train_data = torch.zeros(3, len(cats))
    m.algorithm = a
    with quiet():
        got = m.evaluate.sum_score_probabilities("data")
    P = m.item_probabilities(th).detach().double().numpy()
    want = sum(convolve(p, cats, m.mc_correct) for p in P) / 3
    close(got, want, "sum score distribution", atol=max(2e-6, 2e-7 * len(cats)), rtol=1e-3)
    require(abs(float(got.double().sum()) - 1) < 1e-5 + 1e-6 * len(cats), "not a distribution")
    w = np.array([[(v if m.mc_correct is None else v == m.mc_correct[j]) * (v < c) for v in range(max(cats))] for j, c in enumerate(cats)], dtype=float)
    close(m.expected_scores(th, return_item_scores=False),
          (P * w).sum((1, 2)), "expected sum scores", rtol=1e-4, atol=1e-4)
    ctx.step(2)


def likelihood(ctx, d):
    m = moderate(B.build(**d))
    cats, lv = m.item_categories, d["lv"]
    data = patterns(cats)
    th = torch.tensor([[-2.1, 0.4], [0.3, -0.8], [1.6, 0.9], [2.5, -2.0]])[:, :lv]
    with torch.no_grad():
        want = torch.diagonal(loglik(m, th, data, cats))
        mask = data.isnan() | (data == -1)
        out = m(th)
        tol = dict(atol=1e-4, rtol=3e-6 * math.sqrt(len(cats)) + 1e-5)
        p = m.item_probabilities(th)
        least = min(float(p[i, j, int(x)]) for i, r in enumerate(data.tolist()) for j, x in enumerate(r) if x == x and x != -1)
        if least < 1e-36:            # single precision has no such probability: the definition cannot be evaluated
            want = None
        if want is not None:
            close(m.log_likelihood(data, out, mask, loss_reduction="sum"), want.sum(), "log-likelihood", **tol)
            rows = m.response_log_likelihoods(data, out, mask).masked_fill(mask, 0).sum(1)
            close(rows, want, "log-likelihoods of the respondents", **tol)
    require(tuple(p.shape) == (4, len(cats), max(cats)), f"shape {tuple(p.shape)}")
    close(p.double().sum(2), torch.ones(4, len(cats)), "total probability", atol=2e-5)
    for j, c in enumerate(cats):
        require(not bool(p[:, j, c:].any()), f"item {j} has {c} categories")
        require(bool((p[:, j, :c] >= 0).all()), "negative probability")
    with quiet():
        I = m.information(th, item=True)
        T = m.information(th, item=False)
    close(T, I.double().sum(1), "test information", rtol=1e-4, atol=1e-3)
    G = m.probability_gradients(th, rescale=False).double()
    P = p.double()
    w = torch.where(P > 1e-12, 1 / P.clamp_min(1e-12), torch.zeros_like(P))
    if bool((P[P > 0] > 1e-6).all()):
        close(I, torch.einsum("nik,nika,nikb->niab", w, G, G), "item information", rtol=1e-3, atol=1e-3)
    ctx.step(4)


# ------------------------------------------------------------------------------------------------ repetition
def repetition(ctx, kind, k):
    from mc import kinds as K
    m = K.KINDS[kind]()
    e = m.evaluate
    n = 11
    data, th = K.data_for(m.item_categories, n=n, missing=True), K.thetas_for(m.latent_variables, n=n)
    dk, tk = data.repeat(k, 1), th.repeat(k, 1)
    tol = dict(atol=3e-4, rtol=3e-4)
    for name, f, times in (
        ("accuracy", lambda d, t: e.accuracy(d, t), 1), ("accuracy item", lambda d, t: e.accuracy(d, t, level="item"), 1),
        ("log-likelihood", lambda d, t: e.log_likelihood(d, t, reduction="mean"), 1), ("log-likelihood item", lambda d, t: e.log_likelihood(d, t, reduction="mean", level="item"), 1),
        ("log-likelihood sum", lambda d, t: e.log_likelihood(d, t, reduction="sum"), k),
        ("residuals", lambda d, t: e.residuals(d, t, average_over="everything"), 1), ("residuals item", lambda d, t: e.residuals(d, t, average_over="respondents"), 1),
        ("infit", lambda d, t: e.infit_outfit(d, t)[0], 1), ("outfit", lambda d, t: e.infit_outfit(d, t)[1], 1),
        ("predictions", lambda d, t: torch.tensor(e.predictions(d, t).to_numpy(dtype=float)), 1),
        ("mutual information", lambda d, t: torch.tensor(e.mutual_information_difference(d, t)[0].to_numpy(dtype=float)), 1),
        ("q3", lambda d, t: torch.tensor(e.q3(d, t)[0].to_numpy(dtype=float)), 1),
        ("one group", lambda d, t: e.latent_group_probabilities(d, t, groups=1)[0], 1), ("one group, model", lambda d, t: e.latent_group_probabilities(d, t, groups=1)[1], 1),
        ("every value a group", lambda d, t: e.latent_group_probabilities(d, t, groups=n)[0], 1), ("model in every group", lambda d, t: e.latent_group_probabilities(d, t, groups=n)[1], 1),
        ("group log-likelihood", lambda d, t: e.group_fit_log_likelihood(d, t, groups=n), 1),
        ("raw group residuals", lambda d, t: e.group_fit_residuals(d, t, groups=n, standardize=False)[0], 1),
        ("group residuals", lambda d, t: e.group_fit_residuals(d, t, groups=n)[0], math.sqrt(k)),
    ):
        with quiet():
            one, many = f(data, th), f(dk, tk)
        one = torch.as_tensor(one).double() * times
        many = torch.as_tensor(many).double()
        if name.startswith("mutual") or name == "q3":
            # three decimals or constant residuals: leave the diagonal and rounding out
            keep = ~(one.isnan() | many.isnan())
            require(torch.equal(one.isnan(), many.isnan()) or name == "q3", f"{name}: other entries are missing")
            close(many[keep], one[keep], f"{name} of {k} copies", atol=2e-3)
        else:
            close(many, one, f"{name} of {k} copies", **tol)
        ctx.step()
    if not kind.startswith("MIX"):
        close(m.population_difficulty(tk), m.population_difficulty(th), "difficulty of a repeated population", **tol)
        close(m.population_discrimination(tk), m.population_discrimination(th), "discrimination of a repeated population", **tol)
        if m.algorithm.training_theta_scores is not None and not hasattr(m.algorithm, "covariance_matrix"):
            with quiet():
                one = e.sum_score_probabilities("data")
                m.algorithm.training_theta_scores = m.algorithm.training_theta_scores.detach().repeat(k, 1)
                many = e.sum_score_probabilities("data")
            close(many, one, "sum scores of a repeated population", atol=1e-5)


def losses(ctx, d, alg, k):
    """Losses before the first step: k copies of every respondent have k times the log-likelihood."""
    from irtorch import estimation_algorithms as A
    out = []
    for times in (1, k):
        torch.manual_seed(2)
        m = B.build(**d)
        data = p15.data_for(m.item_categories, True).repeat(times, 1)
        o = dict(max_epochs=2, device="cpu", learning_rate=1e-6)
        if alg == "MML":
            o.update(quadrature_points=5)
        elif alg == "JML":
            o.update(start_thetas=torch.tensor([[-0.8, 0.3], [0.4, -0.6], [1.1, 0.9], [0.1, -1.2]])[:, :d["lv"]].repeat(times, 1))
        else:
            o.update(hidden_layers_encoder=[4], evaluation_interval_size=1, batch_normalization_encoder=False)
        a = getattr(A, alg)()
        with quiet():
            m.fit(data, algorithm=a, **o)
        out.append(float(a.training_history["train_loss"][0]))
        require(len(a.train_data) == len(data), "training data")
    close(out[1], out[0] * (1 if alg == "AE" else k), f"loss of {k} copies", rtol=1e-4, atol=1e-4)
    ctx.step(2)


def run(ctx):
    fams = []
    for fam, o in B.VARIANTS:
        if ctx.thorough or fam not in [f for f, _ in fams]:
            fams.append((fam, o))
    ladder = [(fam, o, n, lv) for n in (300, 40, 1) for lv in (1, 2) for fam, o in fams if not (fam == "1PL" and lv == 2)]
    for fam, o, n, lv in ctx.each(ladder):
        d = dict(family=fam, lv=lv, cats=long_cats(fam, n), p=0, **o)
        short = dict(d, cats=n)
        for name, f, a in (("MML", p15.mml, ("gauss_hermite", 1, True, 5 if lv == 1 else 3)), ("MML", p15.mml, ("quasi_mc", 0, True, 4)), ("JML", p15.jml, (True, 3)),
                           ("AE", p15.ae, ("AE", True, 3, 1, None)), ("VAE", p15.ae, ("VAE", True, 3, 1, None)), ("VAE", p15.ae, ("VAE", True, 3, 3, 2))):
            if n == 1 and name == "MML" or lv == 2 and n != 40 and not ctx.thorough:
                continue
            with ctx.case(f"long {name}", **short, how=[str(x) for x in a]):
                f(ctx, d, *a)
                ctx.state(name, short, [str(x) for x in a])
        with ctx.case("long likelihood", **short):
            likelihood(ctx, d)
            ctx.state("ll", short)
        if lv == 1 or n < 300 or ctx.thorough:
            with ctx.case("long sums", **short):
                sums(ctx, d)
                ctx.state("sums", short)
    for fam, n, lv in ctx.each([(f, n, lv) for n in (1500, 300, 40) for lv in (1, 2) for f in ("2PL", "GPC", "GRM", "3PL", "NRM")]):
        d = dict(family=fam, lv=lv, cats=long_cats(fam, n))
        short = dict(d, cats=n)
        with ctx.case("long EAP", **short):
            eap(ctx, d)
            ctx.state("EAP", short)
        if lv == 1 and fam in ("2PL", "GPC", "GRM"):
            with ctx.case("long ML", **short):
                ml(ctx, d)
                ctx.state("ML", short)
        if n == 1500 and lv == 1 and fam in ctx.pick(("2PL",), ("2PL", "GPC", "NRM")):
            with ctx.case("long sums", **dict(short, cats=700)):
                sums(ctx, dict(d, cats=long_cats(fam, 700)))
                ctx.state("sums", dict(short, cats=700))
    for fam, c, lv in ctx.each([(f, c, lv) for c in (40, 25, 12, 9, 3) for lv in (1, 2) for f in POLY]):
        d = dict(family=fam, lv=lv, cats=wide_cats(c))
        with ctx.case("categories", **d):
            likelihood(ctx, d)
            sums(ctx, d)
            for f, a in ((p15.mml, ("gauss_hermite", 1, True, 3)), (p15.jml, (True, 3)), (p15.ae, ("AE", True, 3, 1, None))):
                if fam != "GRM" and c < 40:        # the data of the check meet probabilities below single precision there
                    f(ctx, dict(d, p=0), *a)
            ctx.state("cats", d)
    for kind, n in ctx.each([(k, n) for k in ("GPC", "NRM-mc", "MIX") for n in (1, 40, 1500)]):
        with ctx.case("many respondents", kind=kind, n=n):
            m = p19.KINDS[kind]()
            rows = [[float((i * (j + 2) + i // 7 + j) % c) for j, c in enumerate(m.item_categories)] for i in range(n)]
            for i in range(0, n, 9):
                rows[i][i % 2] = NAN if i % 2 else -1.0
            th = torch.tensor([[1.5 * math.sin(0.7 * i)] for i in range(n)])
            p19.check(ctx, m, rows, th)
            if n > 1 and kind != "NRM-mc":
                p20.check(ctx, m, rows, th)
            for g in (1, 10, 37):
                if g <= n and kind != "MIX":
                    ths = torch.tensor([[2.9 * ((7 * i) % n) / n - 1.4] for i in range(n)]) if n % 7 else th
                    p27.check(ctx, m, torch.tensor(rows), ths, g, std=False)
            ctx.state("n", kind, n)
    for kind, n in ctx.each([(k, n) for k in ("GPC", "NRM") for n in (5, 12, 24)]):
        with ctx.case("many items", kind=kind, n=n):
            d = dict(family=kind, lv=1, cats=long_cats(kind, n), **({"mc_correct": [j % 2 for j in range(n)]} if kind == "NRM" else {}))
            m = B.build(**d)
            rows = [[float((i * (j + 2) + i // 7 + j) % c) for j, c in enumerate(m.item_categories)] for i in range(30)]
            for i in range(0, 30, 4):
                rows[i][i % n] = NAN if i % 8 else -1.0
            th = torch.tensor([[1.5 * math.sin(0.7 * i)] for i in range(30)])
            p19.check(ctx, m, rows, th)
            if kind == "GPC":
                p20.check(ctx, m, rows, th)
            ctx.state("items", kind, n)
    from mc import kinds as K
    for kind, k in ctx.each([(kind, k) for kind in sorted(K.KINDS) for k in (2, 3, 40)]):
        with ctx.case("repetition", kind=kind, times=k):
            repetition(ctx, kind, k)
            ctx.state("rep", kind, k)
    for fam, o, alg, k in ctx.each([(f, o, a, k) for f, o in fams for a in ("JML", "MML", "AE") for k in (2, 7, 250)]):
        d = dict(family=fam, lv=1, cats=long_cats(fam, 3), p=0, **o)
        with ctx.case("repeated fit", **d, algorithm=alg, times=k):
            losses(ctx, d, alg, k)
            ctx.state("loss", d, alg, k)
    for fam, lv in ctx.each([(f, lv) for f in dict(fams) for lv in (1, 2) if not (f == "1PL" and lv == 2)]):
        with ctx.case("many latent vectors", family=fam, lv=lv):
            m = B.build(**dict(family=fam, lv=lv, cats=long_cats(fam, 3), **dict(fams)[fam]))
            base = B.thetas([-1.3, -0.2, 0.8], lv)
            n = 100000 // len(base)
            with torch.no_grad():
                p = m.item_probabilities(base.repeat(n, 1))
                want = m.item_probabilities(base)
            require(len(p) == n * len(base), "rows")
            close(p.view(n, len(base), *want.shape[1:]), want.unsqueeze(0).expand(n, *want.shape), "probabilities of a long table", atol=1e-5)
            ctx.state("vectors", fam, lv)
