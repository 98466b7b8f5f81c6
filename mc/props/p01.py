"""P01: item response probabilities are proper distributions."""
import torch
from mc.core import require, Mismatch
from mc import models as B

META = dict(
    title="Item response probabilities are proper distributions for every latent vector",
    statement="For every model, latent vector and parameter values that define the model, the returned response probabilities "
              "of an item are finite, lie in [0, 1], sum to one over that item's own categories, and are exactly zero for "
              "categories the item does not have.",
    over=["inputs", "configurations"],
    quant="all model families and options, category layouts, item-latent masks, parameter settings and latent vectors",
    why="Tests check single layouts at moderate latent values; mixed numbers of categories, masks, option combinations and extreme "
        "latent values are where padding, missing-category masks and overflow go wrong.",
    files=["irtorch/models/base_irt_model.py", "irtorch/models/generalized_partial_credit.py", "irtorch/models/graded_response.py",
           "irtorch/models/monotone_nn.py", "irtorch/models/nested_logit.py", "irtorch/models/model_mix.py",
           "irtorch/models/surprisal_spline.py", "irtorch/models/monotone_b_spline.py"],
    mech=[("missing categories", "each model's forward: -inf logits for categories an item lacks"),
          ("normalisation", "probabilities_from_output"), ("padding", "ModelMix._pad_and_concat")],
    technique="exhaustive enumeration of model configurations x parameter settings x latent grid on the real models",
)
BOUNDS = ("11 model families and their option variants x categories per item up to 4 x 1-2 latent variables x all "
          "item-latent masks of 2 items x 4 parameter settings x theta grid from -1000 to 1000 (all combinations)")
ASSUMPTIONS = ["graded response parameters have ordered thresholds (otherwise they define no distribution)",
               "missing-category columns are those beyond an item's own number of categories"]


def check(ctx, d, th):
    m = B.build(**d)
    p = m.item_probabilities(th)
    n, cats = th.shape[0], d["cats"]
    require(tuple(p.shape) == (n, len(cats), max(cats)), f"shape {tuple(p.shape)}")
    ok = torch.isfinite(p)
    if not ok.all():
        i = ok.logical_not().nonzero()[0].tolist()
        raise Mismatch(f"non-finite probability {p[tuple(i)].item()} at theta={th[i[0]].tolist()} item {i[1]} category {i[2]}")
    require((p >= -1e-6).all() and (p <= 1 + 1e-6).all(), f"probability outside [0,1]: {p.min().item()}, {p.max().item()}")
    s = (p.sum(2) - 1).abs()
    if s.max() > 1e-4:
        i = s.argmax().item()
        raise Mismatch(f"probabilities sum to {1 + s.flatten()[i].item():.6f} at theta={th[i // len(cats)].tolist()} item {i % len(cats)}")
    for j, c in enumerate(cats):
        require(c == max(cats) or p[:, j, c:].abs().max() == 0, f"item {j}: mass on a category that does not exist")
    ctx.step(n * len(cats))
    return p


def run(ctx):
    vals = [-1000., -300., -100., -30., -16.7, -8., -3., -1., -0.3, 0., 0.5, 1., 2., 4., 8., 18., 30., 100., 300., 1000.]
    for d in list(B.configs(ctx.thorough, psets=(-1, 0, 1, 2), all_masks=True)) + list(B.mix_configs()):
        th = B.thetas(vals if d["lv"] == 1 else (vals if ctx.thorough else [-300., -30., -3., -0.3, 0., 1., 4., 18., 300.]), d["lv"])
        with ctx.case("distribution", **d):
            p = check(ctx, d, th)
            ctx.state(d)
            ctx.outcome([round(x, 3) for x in p.detach()[:3].flatten().tolist()])
