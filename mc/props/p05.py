"""P05: expected scores, gradients and information follow from the response probabilities."""
import itertools
import math
import numpy as np
import torch
from mc.core import close, require
from mc import models as B
from mc import scales as S

META = dict(
    title="Scores, gradients and information follow from the response probabilities",
    statement="Expected item and test scores are the probability-weighted item scores (the probability of the correct option for "
              "multiple-choice models), probability and expected-score gradients are the derivatives of those, and information is the sum "
              "over response categories of the squared gradient divided by the probability, added over items and projected on the given angles. "
              "Population difficulty and discrimination are the averages of these over the given latent vectors. After scale "
              "transformations all gradients and the information are with respect to the transformed scale.",
    over=["configurations", "inputs"],
    quant="all models, category layouts, option combinations, stacks of scale transformations and latent vectors",
    why="Tests mock the Jacobian or check shapes of one model; an error in one family's vectorised gradient, in the chain rule through "
        "a stack of scales, or for non-diagonal Jacobians is not visible in a handful of examples.",
    files=["irtorch/models/base_irt_model.py", "irtorch/models/nested_logit.py", "irtorch/models/model_mix.py"],
    mech=[("gradients", "probability_gradients, expected_item_score_gradients, _rescale_gradients"),
          ("information", "information"), ("summaries", "expected_scores, population_difficulty, population_discrimination")],
    technique="exhaustive enumeration of model configurations x scale stacks x latent grid on the real models against central "
              "differences of the model's own probabilities and of the scale stack",
)
PARALLEL = True
BOUNDS = ("all model families and options x category layouts up to 4 categories x 1-2 latent variables x 2 parameter settings x "
          "scale stacks up to depth 3 (9 for 2PL and GPC and in thorough, 3 for every other model) x every point of a latent grid x 3 angle vectors")
ASSUMPTIONS = ["central differences with step 1e-2, tolerance 4e-3 relative to the gradient's size",
               "grid points avoid the splines' clamped boundaries"]
STACKS = ["", "A", "R", "S", "O", "AS", "SA", "HO", "RSA", "SHA"]
H = 1e-2


def fd(f, th):
    """central differences of f: (n, ...) -> (n, ..., lv), in double on the outputs"""
    out = []
    for d in range(th.shape[1]):
        e = torch.zeros(1, th.shape[1])
        e[0, d] = H
        # five-point stencil: error O(H^4)
        g = (-f(th + 2 * e).detach().double() + 8 * f(th + e).detach().double()
             - 8 * f(th - e).detach().double() + f(th - 2 * e).detach().double()) / (12 * H)
        out.append(g)
    return torch.stack(out, -1)


def info_of(P, G):
    """sum over categories g g^T / p, zero where p is zero"""
    P = P.detach().double()
    w = torch.where(P > 1e-12, 1 / P.clamp_min(1e-12), torch.zeros_like(P))
    return torch.einsum("nik,nika,nikb->niab", w, G, G)


def tol(G):
    return 4e-3 * max(1.0, float(G.abs().max()))


def run(ctx):
    for d in ctx.each(list(B.configs(ctx.thorough, psets=(0, 1))) + list(B.mix_configs())):
        lv, cats = d["lv"], d["cats"]
        mix = d["family"] == "MIX"
        with ctx.case("model", **d):
            m = B.build(**d)
            th = B.thetas([-1.3, -0.4, 0.35, 1.1] if lv == 1 else [-1.1, 0.35, 0.9], lv)
            P = m.item_probabilities(th).detach()
            mc = d.get("mc_correct")
            w = torch.zeros(len(cats), max(cats)).double()
            for j, c in enumerate(cats):
                if mc is not None:
                    w[j, mc[j]] = 1
                else:
                    w[j, :c] = torch.arange(c).double()
            if mix:
                es = torch.cat([x.expected_scores(th) for x in m.models], 1).detach()
                close(m.expected_scores(th), es, "expected scores of a mix")
            es = (P.double() * w).sum(2)
            if not mix:
                close(m.expected_scores(th), es, "expected item scores")
                close(m.expected_scores(th, return_item_scores=True), es, "expected item scores")
                close(m.expected_scores(th, return_item_scores=False), es.sum(1), "expected test score", atol=2e-5)
            G = fd(m.item_probabilities, th)
            close(m.probability_gradients(th, rescale=False), G, "probability gradients", atol=tol(G))
            eg = (G * w.unsqueeze(-1)).sum(2)
            div = torch.ones(len(cats)).double() if mc is not None else torch.tensor(cats).double() - 1
            if not mix:
                close(m.expected_item_score_gradients(th, rescale_by_item_score=False), eg, "expected score gradients", atol=tol(eg))
                close(m.expected_item_score_gradients(th), eg / div[:, None], "standardised expected score gradients", atol=tol(eg))
                close(m.population_difficulty(th), (1 - es / div).mean(0), "population difficulty")
                close(m.population_discrimination(th), (eg / div[:, None]).mean(0), "population discrimination", atol=tol(eg))
            # exact gradients (same derivative the model reports) for a tight information identity
            Gm = m.probability_gradients(th, rescale=False).detach().double()
            I = info_of(P, Gm)
            if bool((P[P > 0] > 1e-4).all()):
                # p -> 0 makes the ratio numerically meaningless only in the far tails
                close(info_of(P, G), I, "information from finite differences", atol=0.02 * max(1., float(I.abs().max())))
            close(m.information(th, item=True), I, "item information", atol=1e-4 * max(1., float(I.abs().max())))
            close(m.information(th, item=False), I.sum(1), "test information", atol=1e-4 * max(1., float(I.abs().max())))
            if lv > 1:
                for deg in ([0, 90], [45, 45], [30, 60]):
                    c = torch.tensor([math.cos(math.radians(x)) for x in deg]).double()
                    want = torch.einsum("a,niab,b->ni", c, I, c)
                    close(m.information(th, degrees=deg), want, f"information at {deg}", atol=1e-4 * max(1., float(I.abs().max())))
                    close(m.information(th, item=False, degrees=deg), want.sum(1), f"test information at {deg}",
                          atol=1e-4 * max(1., float(I.abs().max())))
                try:
                    m.information(th, degrees=[10])
                except ValueError:
                    pass
                else:
                    require(False, "wrong number of angles accepted")
            ctx.state(d)
            ctx.step(len(th))
            ctx.outcome(np.round(I.numpy()[0, 0], 4))
        if d.get("p", 0) != 0 and not ctx.thorough:
            continue
        for st in STACKS[1:] if ctx.thorough or d["family"] in ("2PL", "GPC") else ("S", "HO", "RSA"):
            with ctx.case("rescaled", stack=st, **d):
                m = B.build(**d)
                for s in S.stack(st, m):
                    m.add_scale_transformation(s)
                th = B.thetas([-1.1, 0.35, 0.9], lv)
                J = fd(m.transform_theta, th)                       # (n, out, in)
                close(m.theta_transform_jacobian(th), J, "Jacobian of the scale stack", atol=tol(J))
                Jinv = torch.linalg.inv(J)
                P = m.item_probabilities(th).detach()
                raw = m.probability_gradients(th, rescale=False).detach().double()
                G = torch.einsum("nika,nab->nikb", raw, Jinv)       # dp/dt = dp/dtheta dtheta/dt
                close(m.probability_gradients(th), G, "rescaled probability gradients", atol=tol(G))
                I = info_of(P, G)
                sc = max(1., float(I.abs().max()))
                close(m.information(th), I, "rescaled information", atol=8e-3 * sc)
                close(m.information(th, item=False), I.sum(1), "rescaled test information", atol=1.6e-2 * sc)
                close(m.information(th, rescale=False), info_of(P, raw), "unscaled information", atol=1e-4 * max(1., float(info_of(P, raw).abs().max())))
                if lv > 1:
                    c = torch.tensor([math.cos(math.radians(x)) for x in (30, 60)]).double()
                    close(m.information(th, degrees=[30, 60]), torch.einsum("a,niab,b->ni", c, I, c), "rescaled information at an angle",
                          atol=1.6e-2 * sc)
                if not mix:
                    r = m.expected_item_score_gradients(th, rescale=False).detach().double()
                    eg = torch.einsum("nia,nab->nib", r, Jinv)
                    close(m.expected_item_score_gradients(th), eg, "rescaled expected score gradients", atol=tol(eg))
                    close(m.population_discrimination(th), eg.mean(0), "rescaled discrimination", atol=tol(eg))
                    close(m.population_discrimination(th, rescale=False), r.mean(0), "unscaled discrimination", atol=tol(r))
                # probabilities themselves do not move with the scale
                close(m.item_probabilities(th), B.build(**d).item_probabilities(th), "probabilities with a scale")
                ctx.state(st, d)
                ctx.step(len(th))
