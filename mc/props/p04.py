"""P04: item-latent relationship masks and monotonicity."""
import itertools
import torch
from mc.core import require, Mismatch, close
from mc import models as B

META = dict(
    title="Item-latent masks cut dependence and monotone models are monotone",
    statement="An item's response probabilities never depend on a latent variable it was declared unrelated to, and do depend on "
              "the ones it is related to. For models that promise monotonicity the expected item score (or the probability of the "
              "correct option) is monotone in every latent variable, non-decreasing when negative relationships are disallowed. "
              "The direction a model reports for a related item and latent variable is the direction its expected score moves in.",
    over=["configurations", "inputs"],
    quant="all models with relationship masks, every mask of two items and two or three latent variables, every pair of points of the latent grid",
    why="Tests use the fully connected default or a single mask; which of the masked weights is really zero, for every mask and layer "
        "layout, needs enumeration.",
    files=["irtorch/models/two_parameter_logistic.py", "irtorch/models/monotone_nn.py", "irtorch/models/monotone_polynomial.py",
           "irtorch/models/monotone_b_spline.py", "irtorch/models/surprisal_spline.py", "irtorch/models/nominal_response.py",
           "irtorch/torch_modules/softplus_linear.py", "irtorch/torch_modules/negation_layer.py",
           "irtorch/torch_modules/monotone_polynomial.py"],
    mech=[("masking", "free weight masks and zeroed layer outputs"), ("monotonicity", "softplus weights, cumulative sums"),
          ("directions", "item_theta_relationship_directions")],
    technique="exhaustive enumeration of masks, options and parameter settings; every line of the latent grid is checked for "
              "dependence and order on the real model",
)
BOUNDS = ("all masks of 2 items x 2 latents (and 2 x 3 in thorough) x all masked families and options x 3 parameter settings; "
          "all adjacent points of a 9-value grid along every latent")
ASSUMPTIONS = ["monotone within float32 noise 1e-5", "polynomial grids stay within [-4, 4]"]
VALS = [-4., -2.5, -1.4, -0.6, 0., 0.45, 1.2, 2.2, 4.]


def score(p, mc):
    if mc:
        return torch.stack([p[:, j, c] for j, c in enumerate(mc)], 1)
    return (p * torch.arange(p.shape[2])).sum(2)


def lines(m, lv, d, cats):
    """probabilities on lines along latent d, at every combination of the other latents: (others, VALS, items, K)"""
    out = []
    for other in itertools.product([-1.2, 0.3, 1.5], repeat=lv - 1):
        th = torch.tensor([list(other[:d]) + [v] + list(other[d:]) for v in VALS])
        out.append(m.item_probabilities(th))
    return torch.stack(out).detach()


def monotone_family(d):
    f = d["family"]
    if f in ("NRM",):
        return None
    if f == "NEST":
        return "correct"
    return "score"


def run(ctx):
    lvs = (1, 2, 3) if ctx.thorough else (1, 2)
    for d in list(B.configs(ctx.thorough, psets=(0, 1, -1), all_masks=True, lvs=lvs)):
        lv, cats, mask = d["lv"], d["cats"], d["mask"]
        if lv == 3 and len(cats) > 2:
            continue
        with ctx.case("mask", **d):
            m = B.build(**d)
            mc = d.get("mc_correct")
            dirs = m.item_theta_relationship_directions(B.thetas(VALS, lv)) if d["family"] not in ("NRM",) else None
            kind = monotone_family(d)
            nonneg = (d.get("negative_latent_variable_item_relationships") is False) or d["family"] in ("BSP", "SUR", "1PL")
            for k in range(lv):
                P = lines(m, lv, k, cats)
                for j in range(len(cats)):
                    related = mask is None or mask[j][k]
                    span = (P[:, :, j].amax(1) - P[:, :, j].amin(1)).abs().max().item()
                    ctx.step(P.shape[0] * P.shape[1])
                    if not related:
                        require(span < 1e-6, f"item {j} depends on latent {k} it is unrelated to (span {span})")
                        continue
                    if kind is None and cats[j] < 2:
                        continue
                    require(span > 1e-4, f"item {j} does not depend on latent {k} it is related to (span {span})")
                    if kind:
                        s = score(P.reshape(-1, len(cats), max(cats)), mc if kind == "correct" or mc else None)
                        s = s.reshape(P.shape[0], len(VALS), len(cats))[:, :, j]
                        diff = s[:, 1:] - s[:, :-1]
                        up, down = (diff >= -2e-5).all().item(), (diff <= 2e-5).all().item()
                        require(up or down, f"item {j} not monotone along latent {k}: {[round(x, 5) for x in s[0].tolist()]}")
                        if nonneg:
                            require(up, f"item {j} decreases along latent {k}")
                        if dirs is not None:
                            want = 1 if s[:, -1].sum() > s[:, 0].sum() else -1
                            require(int(dirs[j, k]) == want,
                                    f"item {j} latent {k}: direction reported {int(dirs[j, k])}, observed {want}")
                        ctx.outcome(up, down)
            ctx.state(d)
    # several hidden layouts of the network (separate blocks must not leak into each other)
    for hid in ([3], [6], [3, 3], [6, 3], [3, 6, 3]):
        for sep in ("items", "categories"):
            for cats in ([3, 2], [2, 3, 2]):
                for mask in B.masks(len(cats), 2) if len(cats) == 2 or ctx.thorough else B.masks(3, 2)[::3]:
                    for neg in (True, False):
                        dd = dict(family="NN", lv=2, cats=cats, mask=mask, p=1, hidden_dim=hid, separate=sep,
                                  negative_latent_variable_item_relationships=neg)
                        with ctx.case("network layout", **dd):
                            m = B.build(**dd)
                            # every parameter block of one item leaves the other items alone
                            th = B.thetas([-1.2, 0.4], 2)
                            for k in range(2):
                                P = lines(m, 2, k, cats)
                                for j in range(len(cats)):
                                    span = (P[:, :, j].amax(1) - P[:, :, j].amin(1)).max().item()
                                    require((span < 1e-6) if not mask[j][k] else (span > 1e-5),
                                            f"item {j} latent {k}: span {span} with mask {mask}")
                                    if mask[j][k]:
                                        s = score(P.reshape(-1, len(cats), max(cats)), None).reshape(P.shape[0], -1, len(cats))[:, :, j]
                                        df = s[:, 1:] - s[:, :-1]
                                        require((df >= -2e-5).all() or (neg and (df <= 2e-5).all()), f"item {j} not monotone along {k}")
                                    ctx.step(P.shape[0] * P.shape[1])
                            ctx.state(dd)
    # items are functionally separate: moving one item's parameters leaves every other item unchanged
    for d in B.configs(ctx.thorough, psets=(0,)):
        if len(d["cats"]) < 2:
            continue
        with ctx.case("item separation", **d):
            m = B.build(**d)
            th = B.thetas([-1.2, 0.4], d["lv"])
            base = m.item_probabilities(th).detach()
            total = 0
            for name, p in m.named_parameters():
                flat = p.data.view(-1)
                for i in range(flat.numel() if ctx.thorough else min(flat.numel(), 24)):
                    old = flat[i].item()
                    flat[i] = old + 0.5
                    now = m.item_probabilities(th).detach()
                    flat[i] = old
                    moved = [(now[:, j] - base[:, j]).abs().max().item() > 1e-7 for j in range(len(d["cats"]))]
                    require(sum(moved) <= 1, f"parameter {name}[{i}] moves items {moved}")
                    total += sum(moved)
                    ctx.step()
            require(total > 0, "no parameter has an effect")
            ctx.state("sep", d)
