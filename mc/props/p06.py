"""P06: every row is treated on its own."""
import itertools
import torch
from mc.core import close, require
from mc import models as B
from mc import scales as S

META = dict(
    title="A row's result does not depend on the other rows of the batch",
    statement="Probabilities, expected scores, gradients, information, scale transformations and Jacobians, EAP scores and response log-likelihoods "
              "computed for a latent vector or response pattern are the same whether it is given alone or in any batch, "
              "repeated, or in any order. Batches of one row work like any other.",
    over=["inputs", "configurations"],
    quant="all models and scales, all batches of up to three rows drawn with repetition from a pool",
    why="The batched implementations reshape, repeat, sort and flatten; which rows get mixed up depends on the batch's size, order and ties, and "
        "tests use one fixed batch.",
    files=["irtorch/models/base_irt_model.py", "irtorch/models/nested_logit.py", "irtorch/models/model_mix.py",
           "irtorch/torch_modules/b_spline.py", "irtorch/torch_modules/rational_quadratic_spline.py", "irtorch/rescale/rank_cdf.py"],
    mech=[("batching", "forward, vmap in probability_gradients, repeat_interleave in _rescale_gradients and EAP"),
          ("splines", "bin search and boundary clamping per row")],
    technique="exhaustive enumeration of all row sequences up to length 3 over a pool of rows for every model and scale; each batch result is "
              "compared with the stacked single-row results",
)
PARALLEL = True
BOUNDS = ("all model configurations x all 3 + 9 + 27 row sequences over 3 latent vectors (quick: all sequences of length 1 and 2 and the "
          "permutations and repeats of length 3) x 7 functions; the same for every scale")
ASSUMPTIONS = ["float32 results of different batch sizes agree within 1e-5", "ML/MAP scoring optimises a batch jointly and is covered by P07"]


def seqs(n, full):
    out = [s for k in (1, 2) for s in itertools.product(range(n), repeat=k)]
    out += list(itertools.product(range(n), repeat=3)) if full else [(0, 1, 2), (2, 1, 0), (1, 0, 1), (2, 2, 0), (0, 0, 0)]
    return out


def run(ctx):
    for d in ctx.each(list(B.configs(ctx.thorough, psets=(0,))) + list(B.mix_configs())):
        lv, cats = d["lv"], d["cats"]
        mix = d["family"] == "MIX"
        with ctx.case("model", **d):
            m = B.build(**d)
            pool = torch.tensor([[-1.2, 0.4], [0.35, -2.6], [7.0, 1.5]])[:, :lv]
            data = torch.tensor([[0.] * len(cats), [float(c - 1) for c in cats], [float(i % c) for i, c in enumerate(cats)]])
            data[1, 0] = float("nan")
            miss = data.isnan()
            fns = {
                "probabilities": lambda ix: m.item_probabilities(pool[ix]),
                "expected scores": lambda ix: m.expected_scores(pool[ix]),
                "probability gradients": lambda ix: m.probability_gradients(pool[ix]),
                "information": lambda ix: m.information(pool[ix]),
                "response log-likelihoods": lambda ix: m.response_log_likelihoods(data[ix], m(pool[ix]), miss[ix]),
                "EAP": lambda ix: m.latent_scores(data[ix], theta_estimation="EAP", eap_theta_integration_points=7),
            }
            if not mix:
                fns["score gradients"] = lambda ix: m.expected_item_score_gradients(pool[ix])
            for s in S.stack("SH", m):
                m.add_scale_transformation(s)
            for name, f in fns.items():
                ref = [f([i]).detach() for i in range(3)]
                for q in seqs(3, ctx.thorough):
                    got = f(list(q)).detach()
                    close(got, torch.cat([ref[i] for i in q]), f"{name} of rows {q}", atol=2e-5)
                    ctx.step()
            ctx.state(d)
    from irtorch.rescale import Bit, RankCDF, Reverse
    pop = torch.tensor([[-1., 0.2], [0.5, 0.5], [0.5, -2.], [2., 1.], [0., 0.]])
    for lv in ctx.each((1, 2)):
        m = B.build("2PL", lv, [2, 2])
        scales = {"reverse": Reverse([True, False][:lv]), "rotate": S.rotate(m), "rank": RankCDF(pop[:, :lv]), "flow": S.flow(lv)}
        if lv == 1:
            scales["link spline"] = S.link("spline")
            scales["link inverted"] = S.link("spline", True)
            scales["link network"] = S.link("neuralnet")
        scales["bit"] = Bit(m, grid_points=60, start_theta=torch.tensor([-2.5] * lv))
        scales["bit, lowest start"] = Bit(m, grid_points=60)
        scales["bit, population"] = Bit(m, population_theta=pop[:, :lv], grid_points=60)
        pool = torch.tensor([[-1.2, 0.4], [0.35, -2.6], [9.0, 1.5], [-8., 5.5]])[:, :lv]
        inside = torch.tensor([[-0.7, 0.4], [0.35, -1.6], [1.5, 0.9], [-0.1, -0.5]])[:, :lv]
        for rows in ((2, 3), (0, 3), (1, 3)):
            with ctx.case("bit scores beyond the population", lv=lv, rows=rows):
                s = scales["bit, population"]
                close(s.transform(pool[list(rows)]), torch.cat([s.transform(pool[[i]]) for i in rows]), f"transform of rows {rows}", atol=1e-4)
                ctx.step()
                ctx.state("beyond", lv, rows)
        everywhere = pool
        for name, s in scales.items():
            pool = inside if name == "bit, population" else everywhere
            with ctx.case("scale", scale=name, lv=lv):
                bit = name.startswith("bit")
                for fn in ("transform", "inverse", "jacobian") if not bit else ("transform", "transform_to_1D") + ("jacobian",) * (lv == 1):
                    if (fn in ("inverse", "jacobian") and name == "rank") or (fn == "inverse" and name == "link network"):
                        continue
                    f = getattr(s, fn)
                    ref = [f(pool[[i]]).detach() for i in range(4)]
                    for q in seqs(4, True):
                        close(f(pool[list(q)]).detach(), torch.cat([ref[i] for i in q]), f"{fn} of rows {q}", atol=1e-4 if bit else 2e-5)
                        ctx.step()
                ctx.state(name, lv)
