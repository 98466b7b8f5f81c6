"""P10: bit scores are entropy path lengths."""
import itertools
import math
import numpy as np
import torch
from mc.core import close, require, raises, Mismatch
from mc import models as B

META = dict(
    title="Bit scores are the length of the entropy path from the starting point",
    statement="The bit score of a latent vector is, for each latent variable, the total variation in bits of the chosen items' response entropies "
              "along that latent variable from the starting point to the score, with the other latent variables at their population median; "
              "reduced to one dimension it is measured along the line from the bottom of the grid. Scores at or below the start are zero, scores never decrease towards higher "
              "expected test scores, and the unidimensional Jacobian is the derivative. Only the chosen items matter.",
    over=["configurations", "inputs"],
    quant="all model families, slope signs, item subsets, starting points, populations and points of the latent grid including the tails",
    why="Tests check shapes and one decomposition with mocked grids; inverted scales, item subsets, starts inside the range and populations "
        "interact and need a reference path length.",
    files=["irtorch/rescale/bit.py", "irtorch/_internal_utils.py", "irtorch/outlier_detector.py"],
    mech=[("bit scores", "transform, transform_to_1D, _compute_*_bit_scores"), ("start", "_get_inverted_scale_multiplier, set_start_theta, bit_score_starting_theta_mc"),
          ("Jacobian", "jacobian")],
    technique="exhaustive enumeration of models x starts x populations x item subsets x latent grid on the real scale against a directly integrated "
              "entropy path",
)
PARALLEL = True
BOUNDS = ("8 model families with both slope signs x 1-2 latent variables x 5 starts x 3 populations x all item subsets of 3 items x 9 (25) latent points x "
          "2 grid resolutions")
ASSUMPTIONS = ["numerical path length within 1% + 0.01 bits", "the population covers the scores (beyond its most extreme non-outlier the code takes the chord, a documented grid limit)",
               "between a start below -7 and -7 the code takes the chord of the entropy curve", "the path in one dimension from a start inside the range is only bounded from below"]


def H(m, th, items):
    with torch.no_grad():
        p = m.item_probabilities(th).double()
    return (-(p * p.clamp_min(1e-12).log2()).sum(2))[:, items]


def path(m, a, b, items, n=2001):
    """total variation in bits along the straight line a -> b (vectors)"""
    r = torch.linspace(0, 1, n).view(-1, 1)
    h = H(m, (1 - r) * a.view(1, -1) + r * b.view(1, -1), items)
    return float((h[1:] - h[:-1]).abs().sum())


def direction(m, lv):
    s = []
    for k in range(lv):
        t = torch.zeros(2, lv)
        t[0, k], t[1, k] = -1., 1.
        e = m.expected_scores(t).sum(1)
        s.append(-1. if e[0] > e[1] else 1.)
    return torch.tensor(s)


def run(ctx):
    from irtorch.rescale import Bit
    fams = [("2PL", {}), ("3PL", {}), ("GPC", {}), ("GRM", {}), ("NRM", {}), ("NN", {}), ("BSP", {}), ("POLY", {})]
    jobs = []
    for f, o in fams:
        for lv in (1, 2):
            for p in (0, 1):
                for flip in (False, True):
                    if flip and f in ("BSP",):
                        continue
                    cats = [2, 2, 2] if f in B.BINARY else [3, 2, 4]
                    jobs.append(dict(family=f, lv=lv, cats=cats, p=p, **o, _flip=flip))
    # positive-slope 2PL so that the reference direction is unambiguous in both dimensions
    pops = {"none": None,
            "sym": [[-9., -8.], [-3., -5.], [-1., .5], [0.2, 1.], [.6, -.4], [1.5, 2.], [4.4, .1], [9., 8.]],
            "skew": [[-8.5, -8.], [-4., -3.], [-3., -2.2], [0.4, -1.7], [0.9, -1.], [2.9, 0.5], [3.5, 4.4], [5., 5.], [9., 9.]]}
    starts = {"default": None, "low": [-1.2, -0.8], "mid": [0.3, 0.1], "far": [-9., -8.]}
    for d in ctx.each(jobs):
        flip = d.pop("_flip")
        lv = d["lv"]
        m = B.build(**d)
        if flip:
            with torch.no_grad():
                for n, q in m.named_parameters():
                    if n.endswith("weight_param") or n.endswith("directions") or "negation" in n:
                        q.neg_()
        mult = direction(m, lv)
        th = B.thetas([-8., -3.1, -1.6, -0.9, 0., 0.35, 1.4, 2.8, 9.] if lv == 1 else [-2.6, -0.7, 0.2, 0.9, 2.3], lv)
        subsets = [None, [0], [2], [0, 2], [1, 2], [2, 0], [0, 1, 2]] if d["p"] == 0 or ctx.thorough else [None, [1]]
        for pn, pop in pops.items():
            for sn, st in starts.items():
                if sn in ("far",) and pn == "skew" and not ctx.thorough:
                    continue
                for items in subsets if (sn, pn) in (("default", "none"), ("mid", "sym")) or ctx.thorough else [None, [0, 2]]:
                    with ctx.case("bit", flip=flip, population=pn, start=sn, items=items, **d):
                        P = None if pop is None else torch.tensor(pop)[:, :lv]
                        start = None if st is None else torch.tensor(st)[:lv] * mult
                        b = Bit(m, population_theta=P, start_theta=start, items=items, grid_points=1500)
                        it = items or [0, 1, 2]
                        s0 = (start if start is not None else mult * -10000.) * mult          # oriented
                        med = torch.zeros(lv) if P is None else torch.max(P * mult, s0).median(0).values
                        tt = torch.max(th * mult, s0)
                        got = b.transform(th.clone())
                        want = torch.zeros(th.shape)
                        memo, ok = {}, torch.ones(th.shape, dtype=torch.bool)
                        for i in range(len(th)):
                            for k in range(lv):
                                key = (k, float(tt[i, k]))
                                if key not in memo:
                                    a, e, z = med.clone(), med.clone(), med.clone()
                                    a[k], e[k], z[k] = max(s0[k], min(-7., tt[i, k])), tt[i, k], max(s0[k], -400.)
                                    # below the grid the code steps from the start straight to the first point
                                    jump = float((H(m, (a * mult).view(1, -1), it) - H(m, (z * mult).view(1, -1), it)).abs().sum())
                                    tail = path(m, z * mult, a * mult, it)
                                    memo[key] = (jump + path(m, a * mult, e * mult, it), pn == "none" or tail - jump < 4e-3)
                                want[i, k], ok[i, k] = memo[key]
                        want = torch.where(ok, want, got)
                        close(got, want, "bit scores", atol=0.012, rtol=0.012)
                        require(bool((got[(tt <= s0 + 1e-9)] < 1e-3).all()), "score at the start is not zero")
                        # monotone towards higher scores
                        for k in range(lv):
                            order = torch.argsort(tt[:, k])
                            g = got[order, k]
                            require(bool((g[1:] - g[:-1] > -1e-4).all()), "bit score decreases")
                        ctx.step(len(th))
                        if lv == 1:
                            close(b.transform_to_1D(th.clone()), got, "transform_to_1D of a unidimensional model")
                            x = th[(th[:, 0] * mult > s0 + 0.05) & (th[:, 0].abs() < 7)]
                            if len(x):
                                h = 2e-2
                                f = [path(m, (torch.max(x[i] * mult, s0) - h) * mult, (torch.max(x[i] * mult, s0) + h) * mult, it, 41) for i in range(len(x))]
                                J = b.jacobian(x.clone())
                                close(J[:, 0, 0].detach() * mult, torch.tensor(f) / (2 * h), "Jacobian", atol=0.04, rtol=0.03)
                        elif items is None or ctx.thorough:
                            one = b.transform_to_1D(th.clone())
                            require(tuple(one.shape) == (len(th), 1), f"shape {tuple(one.shape)}")
                            h0 = H(m, (s0.clamp_min(-60.) * mult).view(1, -1), it)
                            least = (H(m, tt * mult, it) - h0).abs().sum(1)
                            require(bool((one[:, 0].double() >= least - 0.01).all()), "bit score in one dimension shorter than the entropy difference")
                            if sn in ("default", "far") and pn == "none":
                                # a straight line from the bottom of the grid; the first step leads there from the start
                                w1 = []
                                for i in range(len(th)):
                                    a = torch.full((lv,), -7.)
                                    jump = (H(m, (a * mult).view(1, -1), it) - h0).abs().sum()
                                    w1.append(path(m, a * mult, tt[i] * mult, it) + float(jump))
                                close(one[:, 0], torch.tensor(w1), "bit score in one dimension", atol=0.03, rtol=0.03)
                        # only the chosen items matter
                        if items and len(items) < 3 and d["family"] == "2PL":
                            rest = [j for j in range(3) if j not in items]
                            with torch.no_grad():
                                old = m.bias_param.clone()
                                m.bias_param[rest] += 1.7
                                moved = b.transform(th.clone())
                                m.bias_param.copy_(old)
                            close(moved, got, "bit scores after moving an item that is not chosen", atol=1e-5)
                        ctx.state(d, flip, pn, sn, items)
                        ctx.outcome(np.round(got.numpy(), 2))
    # starting point and arguments
    for n in ctx.each([2, 3]):
        with ctx.case("start", n=n):
            m = B.build("2PL", 1, [2] * n, p=0)
            with torch.no_grad():
                m.weight_param.abs_()
            m.mc_correct = [1] * n
            raises(lambda: Bit(m, start_theta=torch.zeros(2)), "start of the wrong size", ValueError)
            raises(lambda: Bit(m, grid_points=0), "grid of no points", ValueError)
            raises(lambda: Bit(m, items="0"), "items not a list", ValueError)
            raises(lambda: Bit(m, items=[0.5]), "items not integers", ValueError)
            raises(lambda: Bit(m).inverse(torch.zeros(1, 1)), "inverse", NotImplementedError)
            b = Bit(m, start_theta=torch.tensor([[0.25]]))
            c = Bit(m)
            c.set_start_theta(torch.tensor([0.25]))
            th = B.thetas([-1., 0.3, 2.], 1)
            close(b.transform(th), c.transform(th), "set_start_theta")
            raises(lambda: c.set_start_theta(torch.tensor([0.25, 1.])), "start of the wrong size", ValueError)
            m2 = B.build("2PL", 1, [2, 2])
            raises(lambda: Bit(m2, mc_start_theta_approx=True), "guessing start without a multiple choice model", ValueError)
            # guessing never right on two-option items: the random data is one known pattern
            for items in ([None, [0], [1]] if n == 2 else [None, [0, 2], [2, 1]]):
                k = len(items) if items else n
                m.algorithm = None
                kw = dict(guessing_probabilities=[0.0] * k, guessing_iterations=5, theta_estimation="EAP")
                b = Bit(m)
                b.bit_score_starting_theta_mc(items=items, **kw)
                row = torch.full((1, n), float("nan"))
                row[0, items if items else list(range(n))] = 0.
                want = m.latent_scores(row, theta_estimation="EAP", rescale=False).flatten()
                c = Bit(m)
                c.set_start_theta(want)
                at = torch.cat([want.view(1, -1) + s for s in (0.0, 0.4, 1.1)])
                close(b.transform(at), c.transform(at), f"bit scores from the start for items {items}", atol=1e-3)
                raises(lambda: b.bit_score_starting_theta_mc(items=items, guessing_probabilities=[0.1] * (k + 1)), "too many guessing probabilities", ValueError)
            ctx.state("start", n)
