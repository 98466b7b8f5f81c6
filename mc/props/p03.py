"""P03: the log-likelihood is the sum of log-probabilities of the observed responses."""
import numpy as np
import torch
from mc.core import close, require
from mc import models as B

META = dict(
    title="Log-likelihood equals the summed log-probabilities of observed responses",
    statement="For every response pattern and latent vector the log-likelihood a model reports is the sum, over the responses "
              "that were observed, of the log of the probability the same model gives that response; responses that are missing "
              "(NaN or -1) contribute nothing. Requested per response, each value belongs to its own respondent and item and is "
              "NaN where missing; sums and means per item, per respondent and overall are sums and means of those values.",
    over=["inputs", "configurations"],
    quant="all model families and mixes, all response patterns with every placement of missing codes, all reductions",
    why="Tests evaluate a handful of fixed outputs; the layout of missing responses, category padding and per-response order "
        "is only settled by checking every pattern for every family.",
    files=["irtorch/models/base_irt_model.py", "irtorch/models/model_mix.py", "irtorch/models/three_parameter_logistic.py",
           "irtorch/models/graded_response.py", "irtorch/models/nested_logit.py", "irtorch/models/surprisal_spline.py",
           "irtorch/evaluator.py"],
    mech=[("log likelihood", "log_likelihood of the base model and its overrides"),
          ("reductions", "log-likelihood of the evaluator")],
    technique="exhaustive enumeration of response patterns including missing codes on every model configuration, compared "
              "response by response with the model's own probabilities",
)
BOUNDS = ("all configurations of 11 families and 7 mixes x all complete patterns of <=3 items with every placement of NaN and -1 "
          "x 3 latent vectors x all reductions and levels")
ASSUMPTIONS = ["a probability of exactly zero may be reported as a finite floor by the evaluator"]


def run(ctx):
    base = [-1.3, 0.2, 1.1]
    for d in list(B.configs(ctx.thorough, psets=ctx.pick((0,), (0, 1, 2)), all_masks=ctx.thorough)) + list(B.mix_configs()):
        d = dict(d)
        lv, cats = d["lv"], d["cats"]
        with ctx.case("model", **d):
            m = B.build(**d)
            for code in (float("nan"), -1.0):
                pats = B.responses(cats, (code,))
                n = pats.shape[0]
                # three latent vectors, assigned so that neighbouring rows differ
                th = torch.tensor([[base[(i + 2 * q) % 3] + 0.01 * (i % 7) for q in range(lv)] for i in range(n)])
                with torch.no_grad():
                    P = m.item_probabilities(th).double().numpy()
                mask = torch.isnan(pats) | (pats == -1)
                want = np.full(pats.shape, np.nan)
                for i in range(n):
                    for j in range(len(cats)):
                        if not mask[i, j]:
                            want[i, j] = np.log(P[i, j, int(pats[i, j])])
                        ctx.state(code != code, d, pats[i].tolist() if not mask[i].any() else [x if x == x else None for x in pats[i].tolist()])
                ctx.step(n)
                out = m(th)
                if d["family"] != "MIX":
                    ll = m.log_likelihood(pats, out, mask, loss_reduction="none")
                    close(ll.detach().reshape(-1, len(cats)), want, f"per-response log-likelihood (missing {code})", atol=1e-3)
                full = ~mask.any(1)
                require(abs(m.log_likelihood(pats, out, mask, loss_reduction="sum").item() - np.nansum(want)) < 1e-3 * (1 + n),
                        "summed log-likelihood with missing responses")
                lls = m.log_likelihood(pats[full], m(th[full]), loss_reduction="sum")
                require(abs(lls.item() - want[full.numpy()].sum()) < 1e-3 * (1 + n), "summed log-likelihood of complete data")
                if d["family"] != "MIX":
                    llc = m.log_likelihood(pats[full], m(th[full]), loss_reduction="none")
                    close(llc.detach().reshape(-1, len(cats)), want[full.numpy()], "per-response, complete data", atol=1e-3)
                ev = m.evaluate
                close(ev.log_likelihood(pats.clone(), th, reduction="none"), want, "evaluator per response", atol=1e-3)
                for level, ax in (("all", None), ("item", 0), ("respondent", 1)):
                    with np.errstate(all="ignore"):
                        wsum, wmean = np.nansum(want, axis=ax), np.nanmean(want, axis=ax)
                    close(ev.log_likelihood(pats.clone(), th, reduction="sum", level=level), wsum, f"evaluator sum by {level}", atol=2e-3)
                    close(ev.log_likelihood(pats.clone(), th, reduction="mean", level=level), wmean, f"evaluator mean by {level}", atol=2e-3)
            # very unlikely responses: the same probabilities, no floors
            pats = B.responses(cats)
            for x in (-13., -9., -6., -3., 3., 6., 9., 13.):
                th = torch.full((pats.shape[0], lv), x)
                with torch.no_grad():
                    P = np.take_along_axis(m.item_probabilities(th).double().numpy(), pats.long().numpy()[:, :, None], 2)[:, :, 0]
                    ll = m.response_log_likelihoods(pats, m(th))
                ev = m.evaluate.log_likelihood(pats.clone(), th, reduction="none")
                for got, what in ((ll.double().numpy(), "per response"), (ev.double().numpy(), "evaluator per response")):
                    for i, j in np.ndindex(*P.shape):
                        if P[i, j] > 1e-5:
                            require(abs(got[i, j] - np.log(P[i, j])) < 1e-3 + 1e-6 / P[i, j], f"{what}: {got[i, j]} for a probability of {P[i, j]}")
                        else:
                            require(got[i, j] < -11.3, f"{what}: {got[i, j]} for a probability of {P[i, j]}")
                ctx.step(len(pats))
            ctx.outcome(np.round(np.nansum(want), 3))
