"""P36: every table of valid responses can be fitted and scored, however small or one-sided."""
import itertools
import math
import torch
from mc.core import require, quiet
from mc import models as B
from mc import kinds as K

NAN = float("nan")
META = dict(
    title="Any table of valid responses can be fitted and scored, with finite results",
    statement="Every table of valid responses and missing codes (one respondent, one item, constant columns, perfect or zero scores, equal respondents, items or respondents without any response) can be "
              "fitted by every family with every algorithm, and scored by every method. The fit leaves finite parameters and losses and one finite latent score row per respondent, also where the model gives a response a probability that rounds to 0 (the log-likelihood and its gradients stay defined); "
              "scoring gives one finite row per respondent, inside the range searched, and equal rows for respondents with equal responses.",
    over=["inputs", "configurations"],
    quant="all tables of up to two respondents and two items over the lowest and highest response and both missing codes x families x algorithms x scoring methods",
    why="Tests fit data drawn at random, in which every item varies and no two respondents need agree; sample sizes of one and empty columns divide by zero.",
    files=["irtorch/estimation_algorithms/jml.py", "irtorch/estimation_algorithms/mml.py", "irtorch/estimation_algorithms/ae.py", "irtorch/estimation_algorithms/vae.py",
           "irtorch/models/base_irt_model.py", "irtorch/irt_dataset.py"],
    mech=[("fits", "the fit methods of JML, MML, AE and VAE"), ("scores", "BaseIRTModel.latent_scores")],
    technique="exhaustive enumeration of all small response tables on the real code, for every family, algorithm and scoring method, with a finiteness and consistency monitor",
)
PARALLEL = True
BOUNDS = "all tables of 1-2 respondents x 1-2 items over {0, highest, nan, -1} (quick: 2x2 without -1, each table in one order of its respondents; 2x2 scored for GPC and NRM), 1 and 2 latent variables, 3 epochs; the gradients of the log-likelihood for every response at latent scores up to 20 with parameters enlarged up to 10 (thorough: 30) times, and fits from such parameters; every family (thorough: every option and batch size 1)"
ASSUMPTIONS = ["the item categories of the model are given, so that a table may show only some of them", "standard errors are left out: they are undefined where the information vanishes"]


def tables(cats, full):
    """Every table of 1-2 respondents over the lowest and highest response and the missing codes."""
    for n in (1, 2):
        codes = (NAN, -1.) if full or n * len(cats) < 4 else (NAN,)
        cells = [[0., float(c - 1), *codes] for c in cats] * n
        for v in itertools.product(*cells):
            half = len(cats)
            if not full and n == 2 and str(v[:half]) > str(v[half:]):
                continue                        # quick: each table of two respondents in one order
            yield torch.tensor(v).view(n, len(cats))


def finite_model(m, what):
    for k, v in list(m.named_parameters()) + list(m.named_buffers()):
        if v.dtype.is_floating_point:
            require(bool(v.isfinite().all()), f"{what}: {k} is not finite")


def enlarge(m, scale):
    with torch.no_grad():
        for v in m.parameters():
            v.mul_(scale)


def saturated(ctx, m, scale):
    """Every response at latent scores so far out that its probability rounds to 0 or 1."""
    enlarge(m, scale)
    ths = torch.tensor(list(itertools.product((-20., -6., -1., 0., 2., 6., 20.), repeat=m.latent_variables)))
    for y in range(m.max_item_responses):
        data = torch.tensor([[float(min(y, c - 1)) for c in m.item_categories]]).repeat(len(ths), 1)
        t = ths.clone().requires_grad_()
        m.zero_grad()
        ll = m.log_likelihood(data, m(t), None, "none")
        require(not bool(ll.isnan().any()), f"response {y}: the log-likelihood is undefined")
        ll.sum().backward()
        require(bool(t.grad.isfinite().all()), f"response {y}: the gradient by the latent scores is not finite: {t.grad[:, 0].tolist()}")
        for k, v in m.named_parameters():
            require(v.grad is None or bool(v.grad.isfinite().all()), f"response {y}: the gradient by {k} is not finite")
        ctx.step(len(ths))


def fit(ctx, d, alg, data, batch, scale=None):
    from irtorch import estimation_algorithms as A
    torch.manual_seed(3)
    m = B.build(**d)
    o = dict(max_epochs=3, device="cpu")
    if scale is not None:
        enlarge(m, scale)
    if alg == "MML":
        o.update(quadrature_points=3 if scale is None else 15)
    else:
        o.update(batch_size=batch)
    if alg in ("AE", "VAE"):
        o.update(hidden_layers_encoder=[3], evaluation_interval_size=1)
    a = getattr(A, alg)()
    given = data.clone()
    with quiet():
        m.fit(given, algorithm=a, **o)
    require(K_same(given, data), "the data were changed")
    finite_model(m, "after the fit")
    require(m.algorithm is a, "the algorithm is not the given one")
    h = a.training_history["train_loss"]
    require(len(h) > 0 and all(math.isfinite(float(x)) for x in h), f"history {[float(x) for x in h]}")
    t = a.training_theta_scores
    if alg in ("AE", "VAE", "JML"):
        require(t is not None and tuple(t.shape) == (len(data), m.latent_variables), "one row of latent scores per respondent")
        require(bool(t.isfinite().all()), "the latent scores are not finite")
    grid = torch.tensor(list(itertools.product((-1., 0.5), repeat=m.latent_variables)))
    p = m.item_probabilities(grid)
    require(bool(p.isfinite().all()), "the probabilities after the fit are not finite")
    if alg == "AE":
        with quiet():
            s = m.latent_scores(data, theta_estimation="NN", rescale=False)
        same_rows(m, data, s, "NN", 1e-6)
    ctx.step(3)


def K_same(a, b):
    return a.shape == b.shape and bool(((a == b) | (a.isnan() & b.isnan())).all())


def same_rows(m, data, s, what, tol):
    require(tuple(s.shape) == (len(data), m.latent_variables), f"{what}: shape {tuple(s.shape)}")
    require(bool(s.isfinite().all()), f"{what}: not finite: {s.tolist()}")
    for i, j in itertools.combinations(range(len(data)), 2):
        x, y = data[i].clone(), data[j].clone()
        x[x == -1] = NAN
        y[y == -1] = NAN
        if K_same(x, y):
            require(bool(((s[i] - s[j]).abs() <= tol).all()), f"{what}: equal responses, different scores {s.tolist()}")


def score(ctx, m, data, tol=1e-4):
    for meth in ("ML", "MAP", "EAP"):
        with quiet():
            s = m.latent_scores(data.clone(), theta_estimation=meth, rescale=False, **({"eap_theta_integration_points": 5} if meth == "EAP" else {}))
        same_rows(m, data, s, meth, tol)
        ctx.step()


def families(ctx):
    seen = set()
    for fam, o in B.VARIANTS:
        if fam in seen and not ctx.thorough:
            continue
        seen.add(fam)
        yield fam, o


def run(ctx):
    confs = []
    for fam, o in families(ctx):
        for lv in (1, 2):
            for cats in ([2], [2, 2]) if fam in B.BINARY else ([3], [3, 2]):
                if fam == "NEST":
                    cats = [3] * len(cats)
                if fam == "1PL" and lv > 1:
                    continue
                if fam == "NEST" and lv > 1 and o["incorrect_response_model"] == "bspline":
                    continue
                confs.append(dict(family=fam, lv=lv, cats=cats, **o))
    for d in confs:
        for alg in ("JML", "MML", "AE", "VAE"):
            for batch in (None, 1) if ctx.thorough and alg != "MML" else (None,):
                for data in ctx.each(list(tables(d["cats"], ctx.thorough))):
                    with ctx.case(f"fit {alg}", **d, data=data, batch=batch):
                        fit(ctx, dict(d, p=-1), alg, data, batch)
                        ctx.state("fit", d, alg, batch, data)
    for d in confs:
        for p in (0, 2) if ctx.thorough else (0,):
            m = None
            for data in ctx.each([t for t in tables(d["cats"], ctx.thorough) if ctx.thorough or t.numel() < 4 or d["family"] in ("GPC", "NRM")]):
                if m is None:
                    m = B.build(**d, p=p)
                    (K.jml if d["lv"] == 1 else K.mml)(m)
                with ctx.case("score", **d, params=p, data=data):
                    score(ctx, m, data)
                    ctx.state("score", d, p, data)
    scales = (1., -1., 3., 10., -10., 30.) if ctx.thorough else (1., 3., 10., -10.)
    for d in ctx.each(confs):
        if len(d["cats"]) == 2 or ctx.thorough:
            for p, scale in itertools.product((0, 2), scales):
                if scale < 0 and d["family"] == "GRM":
                    continue                    # thresholds out of order: not a graded response model
                with ctx.case("gradients far out", **d, params=p, scale=scale):
                    saturated(ctx, B.build(**d, p=p), scale)
                    ctx.state("far", d, p, scale)
        if len(d["cats"]) == 2 and d["lv"] == 1:
            data = K.data_for(d["cats"], missing=True)
            for alg, scale in itertools.product(("MML", "JML", "VAE"), (3., 30.)):
                with ctx.case(f"fit {alg}, far out", **d, scale=scale):
                    fit(ctx, dict(d, p=0), alg, data, None, scale)
                    ctx.state("fit far", d, alg, scale)
    for fam, n in ctx.each([(f, n) for f in ("1PL", "2PL", "3PL", "GPC", "GRM", "NRM") for n in (120, 900)]):
        # so many responses that the likelihood of a respondent underflows in double precision
        c = 2 if fam in B.BINARY else 3
        d = dict(family=fam, lv=1, cats=[c] * n)
        rows = torch.tensor([[float(j % c) for j in range(n)], [float((j + 1) % c) for j in range(n)], [0.0] * n, [c - 1.0] * n, [NAN] * n,
                             [0.0 if j % 3 else NAN for j in range(n)], [float(j % c) for j in range(n)]])
        with ctx.case("many items", items=n, family=fam):
            m = B.build(**d, p=0)
            m.algorithm = None
            score(ctx, m, rows, 2e-3)
            ctx.state("many", fam, n)
        for alg in ("JML", "MML"):
            with ctx.case(f"fit {alg}, many items", items=n, family=fam):
                fit(ctx, dict(d, p=-1), alg, rows, None)
                ctx.state("fit many", fam, n, alg)
