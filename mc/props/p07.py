"""P07: ML, MAP and EAP scores are what their names say."""
import itertools
import numpy as np
import torch
from mc.core import close, require, raises
from mc import models as B
from mc import scales as S
from mc.scorers import loglik, algorithm, normal_logpdf

META = dict(
    title="ML, MAP and EAP scores maximise or average the respondent's likelihood",
    statement="The ML (MAP) score of a response pattern has a (penalised) log-likelihood no lower than that of any other latent vector near it and, for "
              "models with one maximum, anywhere; the EAP score is the posterior mean over the documented integration grid and prior. Missing "
              "responses, coded nan or -1, contribute nothing. Scores on a transformed scale are the transformation of the scores on the "
              "original one, with ML standard errors 1/sqrt of the information on the requested scale.",
    over=["inputs", "configurations"],
    quant="all response patterns with missing values of small tests for all model families, with every kind of fitted or unfitted algorithm state",
    why="Tests check output shapes, or mock the optimiser; whether each row of a jointly optimised batch, each algorithm state and each missing "
        "pattern gives the right score requires comparing with the likelihood of every pattern.",
    files=["irtorch/models/base_irt_model.py"],
    mech=[("optimisation", "_ml_map_theta_scores, _initial_theta_from_training_data"), ("integration", "_eap_theta_scores, _theta_grid"),
          ("dispatch", "latent_scores")],
    technique="exhaustive enumeration of response patterns (including missing codes) x models x algorithm states on the real scoring code against "
              "float64 likelihoods evaluated on a grid",
)
PARALLEL = True
BOUNDS = ("all response patterns of 2-4 items with up to 4 categories, with nan and -1 missing codes, x all model families (1-2 latent variables) x "
          "algorithm states none / covariance matrix / training scores x ML, MAP, EAP x 3 scale stacks; EAP with 5, 9 and default grid points")
ASSUMPTIONS = ["the unique-maximum comparison applies to 1PL, 2PL, GPC and GRM with moderate parameters and an interior maximum; for the other "
               "families only local optimality and improvement over the start are claimed", "log-likelihood tolerance 2e-3 per respondent"]
CONCAVE = ("1PL", "2PL", "GPC", "GRM")


def data_for(cats, thorough):
    n = len(cats)
    rows = B.responses(cats)
    extra = B.responses(cats, missing=(float("nan"),)) if n <= 2 or thorough else None
    if extra is None:
        extra = rows.clone()
        for i in range(len(extra)):
            extra[i, i % n] = float("nan")
    coded = rows[:: max(1, len(rows) // 6)].clone()
    coded[:, 0] = -1
    allmiss = torch.full((1, n), float("nan"))
    d = torch.cat([rows, extra, coded, allmiss])
    return d


def many(ctx, rows, train):
    """Starting points for large tables are found in other ways (a sample of, or the median, training score): the maximum is the same."""
    m = B.build("2PL", 1, [2, 2, 2])
    with torch.no_grad():
        m.weight_param.copy_(torch.tensor([1., .8, 1.3]).view_as(m.weight_param))
        m.bias_param.copy_(torch.tensor([.3, -.2, .1]).view_as(m.bias_param))
    m.algorithm = algorithm("train", 1)
    m.algorithm.training_theta_scores = torch.linspace(-2.5, 2.5, train).view(-1, 1)
    patterns = torch.tensor([[1., 0., 0.], [0., 1., 1.], [1., float("nan"), 0.]])
    data = patterns.repeat((rows + 2) // 3, 1)[:rows]
    got = m.latent_scores(data, theta_estimation="ML", rescale=False)
    require(tuple(got.shape) == (rows, 1) and bool(got.isfinite().all()), f"shape {tuple(got.shape)}")
    grid = torch.linspace(-2, 2, 4001).view(-1, 1)
    for i in range(min(3, rows)):
        want = grid[loglik(m, grid, patterns[i:i + 1], [2, 2, 2])[0].argmax()].item()
        mine = got[i::3]
        require(float((mine - want).abs().max()) <= 0.01, f"responses {patterns[i].tolist()}: scores {float(mine.min())} to {float(mine.max())}, the maximum is at {want}")
        ctx.step()


def run(ctx):
    fams = [("1PL", 1, [2, 2, 2]), ("2PL", 1, [2, 2, 2]), ("2PL", 2, [2, 2, 2]), ("3PL", 1, [2, 2]), ("GPC", 1, [3, 2]), ("GPC", 2, [3, 3]),
            ("GRM", 1, [3, 2]), ("GRM", 2, [2, 4]), ("NRM", 1, [3, 2]), ("BSP", 1, [3, 2]), ("BSP", 2, [3, 2]), ("SUR", 1, [3, 2]),
            ("POLY", 1, [3, 2]), ("NN", 1, [3, 2]), ("NN", 2, [2, 3]), ("NEST", 1, [3, 3])]
    confs = [dict(family=f, lv=lv, cats=c) for f, lv, c in fams] + list(B.mix_configs((0, 2, 3)))
    if ctx.thorough:
        confs += [dict(family=f, lv=lv, cats=c, p=1) for f, lv, c in fams] + \
                 [dict(family="2PL", lv=2, cats=[2] * 4), dict(family="GPC", lv=1, cats=[4, 3, 2]), dict(family="GRM", lv=1, cats=[3, 3, 3])]
    jobs = [(c, st) for c in confs for st in ("none", "unfit", "cov", "train")]
    for d, state in ctx.each(jobs):
        lv, cats = d["lv"], d["cats"]
        data = data_for(cats, ctx.thorough)
        for st in ("",) if state == "unfit" else ("", "SH", "R"):
            with ctx.case("EAP", state=state, stack=st, **d):
                m = B.build(**d)
                m.algorithm = algorithm(state, lv)
                for s in S.stack(st, m):
                    m.add_scale_transformation(s)
                for pts in (5, 9) + ((None,) if lv == 1 or ctx.thorough else ()):
                    got = m.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=pts, rescale=False)
                    k = pts or {1: 200, 2: 15}[lv]
                    if state == "train":
                        tr = m.algorithm.training_theta_scores.double()
                        rng = tr.max(0).values - tr.min(0).values
                        lo, hi = tr.min(0).values - 0.25 * rng, tr.max(0).values + 0.25 * rng
                        cov = torch.cov(tr.T).reshape(lv, lv)
                    else:
                        lo, hi = torch.full((lv,), -3.).double(), torch.full((lv,), 3.).double()
                        cov = m.algorithm.covariance_matrix.double() if state == "cov" else torch.eye(lv).double()
                    grid = torch.tensor(list(itertools.product(*[np.linspace(lo[a], hi[a], k) for a in range(lv)])))
                    ll = loglik(m, grid.float(), data, cats)                 # (rows, grid)
                    lp = ll + normal_logpdf(grid, cov)
                    w = torch.softmax(lp, 1)
                    close(got, w @ grid, f"EAP with {pts} points", atol=2e-4)
                    ctx.step(len(data))
                    if st:
                        close(m.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=pts), m.transform_theta(got),
                              "rescaled EAP", atol=1e-5)
                one = m.latent_scores(data[1], theta_estimation="EAP", eap_theta_integration_points=5, rescale=False)
                close(one, m.latent_scores(data[1:2], theta_estimation="EAP", eap_theta_integration_points=5, rescale=False), "1-D data")
                ctx.state("EAP", state, st, d)
                ctx.outcome(np.round(got.numpy(), 3))
        for est in ("ML", "MAP"):
            st = {"none": "", "unfit": "R", "cov": "SH", "train": "A"}[state]
            with ctx.case(est, state=state, stack=st, **d):
                m = B.build(**d)
                m.algorithm = algorithm(state, lv)
                for s in S.stack(st, m):
                    m.add_scale_transformation(s)
                got = m.latent_scores(data, theta_estimation=est, rescale=False)
                require(got.shape == (len(data), lv) and not got.requires_grad, f"shape {tuple(got.shape)}")
                # prior of the MAP scores
                if state == "train":
                    tr = m.algorithm.training_theta_scores.double()
                    cov = torch.cov(tr.T).reshape(lv, lv)
                elif state == "cov":
                    cov = m.algorithm.covariance_matrix.double()
                else:
                    cov = torch.eye(lv).double()
                prior = (lambda t: normal_logpdf(t, cov)) if est == "MAP" else (lambda t: 0.0)
                own = torch.stack([loglik(m, got[i:i + 1], data[i:i + 1], cats)[0, 0] for i in range(len(data))])
                own = own + (prior(got.double()) if est == "MAP" else 0)
                grid = torch.tensor(list(itertools.product(np.linspace(-4, 4, 41 if lv == 1 else 21), repeat=lv))).float()
                obj = loglik(m, grid, data, cats) + (prior(grid.double()) if est == "MAP" else 0)
                best, ix = obj.max(1)
                allmissing = ((data.isnan()) | (data == -1)).all(1)
                start = torch.zeros(len(data), lv)
                for i in range(len(data)):
                    if allmissing[i] and est == "ML":
                        continue
                    interior = bool((grid[ix[i]].abs() < 3.2).all())
                    if d["family"] in CONCAVE and (interior or est == "MAP"):
                        require(own[i] >= best[i] - 2e-3, f"row {data[i].tolist()}: {est} score {got[i].tolist()} has objective {own[i]:.5f}, "
                                                          f"{grid[ix[i]].tolist()} has {best[i]:.5f}")
                    if state != "train":
                        s0 = loglik(m, start[i:i + 1], data[i:i + 1], cats)[0, 0] + (prior(start[i:i + 1].double()) if est == "MAP" else 0)
                        require(own[i] >= s0 - 2e-3, f"row {data[i].tolist()}: {est} score is worse than the starting point")
                    elif interior:
                        tr = m.algorithm.training_theta_scores
                        s0 = (loglik(m, tr, data[i:i + 1], cats)[0] + (prior(tr.double()) if est == "MAP" else 0))
                        if est == "ML":
                            require(own[i] >= s0.max() - 2e-3, f"row {data[i].tolist()}: ML score is worse than the best training score")
                    # local optimality
                    if d["family"] in CONCAVE or interior:
                        near = got[i:i + 1] + torch.tensor(list(itertools.product((-0.05, 0., 0.05), repeat=lv)))
                        nl = loglik(m, near, data[i:i + 1], cats)[0] + (prior(near.double()) if est == "MAP" else 0)
                        if d["family"] in CONCAVE and interior:
                            require(own[i] >= nl.max() - 5e-4, f"row {data[i].tolist()}: {est} score {got[i].tolist()} is not a local maximum")
                    ctx.step()
                close(m.latent_scores(data, theta_estimation=est), m.transform_theta(got), f"rescaled {est}", atol=2e-4)
                if est == "ML" and d["family"] in ("1PL", "2PL", "GPC", "GRM"):
                    keep = (got.abs() < 3).all(1) & ~allmissing
                    if bool(keep.any()):
                        dd = data[keep]
                        g0, se0 = m.latent_scores(dd, theta_estimation="ML", standard_errors=True, rescale=False)
                        info = m.information(g0, item=False, rescale=False)
                        close(se0, 1 / torch.diagonal(info, dim1=1, dim2=2).sqrt(), "standard errors", atol=1e-4)
                        g1, se1 = m.latent_scores(dd, theta_estimation="ML", standard_errors=True)
                        info = m.information(g0, item=False, rescale=True)
                        close(se1, 1 / torch.diagonal(info, dim1=1, dim2=2).sqrt(), "rescaled standard errors", atol=1e-3)
                ctx.state(est, state, d)
                ctx.outcome(np.round(got.numpy(), 2))
    sizes = [(2, 500000), (2, 500001), (1000, 1000), (1000, 1001), (1001, 1000), (500001, 2)] + ctx.pick([], [(500000, 3), (1, 1000001), (3, 333334)])
    for rows, train in ctx.each(sizes):
        with ctx.case("many", rows=rows, train=train):
            many(ctx, rows, train)
            ctx.state("many", rows, train)
    for bad in ctx.each(["XX", "NN", "SE"]):
        with ctx.case("arguments", bad=bad):
            m = B.build("2PL", 1, [2, 2])
            data = torch.tensor([[0., 1.]])
            if bad == "SE":
                for est in ("EAP", "MAP"):
                    raises(lambda: m.latent_scores(data, theta_estimation=est, standard_errors=True), "standard errors for " + est, ValueError)
            else:
                raises(lambda: m.latent_scores(data, theta_estimation=bad), f"theta_estimation {bad}", ValueError)
            ctx.state(bad)
