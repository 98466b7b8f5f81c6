"""P29: a mix of models against its parts, and mixes of one family against the undivided model."""
import itertools
import math
import torch
from mc.core import close, require, raises
from mc import models as B

META = dict(
    title="A mix of models behaves as its parts side by side, and as the undivided model",
    statement="A ModelMix gives every item exactly the probabilities, expected scores, gradients, information and response log-likelihoods its own model gives, in the order "
              "of the models, for any combination and nesting of models. Dividing the items of one model over the parts of a mix changes no number it reports, no latent score "
              "and nothing a deterministic fit produces.",
    over=["configurations", "inputs"],
    quant="all ordered pairs (thorough: triples) of model families incl. nested mixes; all divisions of a model's items into consecutive parts x all response patterns with missing codes",
    why="Tests look at one mix of two models.",
    files=["irtorch/models/model_mix.py", "irtorch/models/base_irt_model.py"],
    mech=[("parts", "ModelMix.forward, probabilities_from_output"), ("likelihoods", "log_likelihood, response_log_likelihoods")],
    technique="exhaustive enumeration of combinations, nestings and divisions of models; parts and undivided model are the oracle",
)
PARALLEL = True
BOUNDS = "13 x 13 ordered pairs x 1-2 latent variables, nestings to depth 3 of 4 models; every division of 3 items of 6 families; all patterns; MML, JML and AE fits of 3 epochs"
ASSUMPTIONS = ["parts without a scoring key"]
NAN = math.nan

PARTS = [("1PL", 1, [2]), ("2PL", 0, [2, 2]), ("3PL", 0, [2]), ("GPC", 0, [3, 2]), ("GPC", 0, [4]), ("GRM", 0, [2, 4]), ("NRM", 0, [3]), ("BSP", 0, [3, 2], {"separate": "items"}),
         ("BSP", 0, [2, 3], {"separate": "categories"}), ("SUR", 0, [3]), ("POLY", 0, [2, 3], {"separate": "categories"}), ("NN", 0, [4, 2], {"separate": "items"}),
         ("NN", 0, [3], {"separate": "categories"})]


def part(i, lv, p=0):
    f, only, cats, *o = PARTS[i]
    return B.build(f, lv, cats, None, p, **(o[0] if o else {}))


def pad(t, C):
    return torch.cat([t, torch.zeros(*t.shape[:2], C - t.shape[2], *t.shape[3:])], 2)


def side_by_side(ctx, mix, parts, lv):
    th = B.thetas((-1.3, 0.2, 1.6), lv)
    C = max(c for m in parts for c in m.item_categories)
    cats = [c for m in parts for c in m.item_categories]
    require(mix.item_categories == cats and mix.items == len(cats) and mix.latent_variables == lv, "items of the mix")
    close(mix.item_probabilities(th), torch.cat([pad(m.item_probabilities(th), C) for m in parts], 1), "probabilities", atol=1e-6)
    close(mix.expected_scores(th), torch.cat([m.expected_scores(th) for m in parts], 1), "expected scores")
    close(mix.expected_scores(th, return_item_scores=False), sum(m.expected_scores(th, return_item_scores=False) for m in parts), "expected sum scores", atol=1e-4)
    close(mix.probability_gradients(th), torch.cat([pad(m.probability_gradients(th), C) for m in parts], 1), "gradients", atol=1e-4)
    close(mix.information(th), torch.cat([m.information(th) for m in parts], 1), "information", atol=1e-3, rtol=1e-3)
    close(mix.information(th, item=False), sum(m.information(th).sum(1) for m in parts), "test information", atol=1e-3, rtol=1e-3)
    close(mix.expected_item_score_gradients(th), torch.cat([m.expected_item_score_gradients(th) for m in parts], 1), "expected score gradients", atol=1e-4)
    close(mix.item_theta_relationship_directions(th), torch.cat([m.item_theta_relationship_directions(th) for m in parts], 0), "directions")
    rows = [[float((i + j) % c) for j, c in enumerate(cats)] for i in range(len(th))]
    rows[1][0] = NAN
    rows[2][-1] = -1.0
    data = torch.tensor(rows)
    mask = data.isnan() | (data == -1)
    splits = torch.split(data, [m.items for m in parts], 1)
    masks = torch.split(mask, [m.items for m in parts], 1)
    want = torch.cat([m.response_log_likelihoods(d.contiguous(), m(th), k.contiguous()) for m, d, k in zip(parts, splits, masks)], 1)
    close(mix.response_log_likelihoods(data, mix(th), mask), want, "response log-likelihoods", atol=1e-5)
    close(mix.log_likelihood(data, mix(th), mask, loss_reduction="sum"), want.nansum(), "log-likelihood", atol=1e-4)
    close(mix.evaluate.log_likelihood(data, th, reduction="none"), want, "evaluated log-likelihoods", atol=1e-5)
    # every response certain to occur is possible and every sample valid
    torch.manual_seed(0)
    s = mix.sample_test_data(th.repeat(20, 1))
    require(bool((s >= 0).all()) and all(float(s[:, j].max()) < c for j, c in enumerate(cats)), "simulated responses outside the items' categories")
    require(sum(p.numel() for p in mix.parameters()) == sum(p.numel() for m in parts for p in m.parameters()), "parameters of the mix")
    ctx.step(11)


def flatten(tree, lv, out):
    """A tree of part indices -> model; leaves appended to out."""
    from irtorch.models import ModelMix
    if isinstance(tree, int):
        m = part(tree, lv, p=len(out) % 2)
        out.append(m)
        return m
    return ModelMix([flatten(t, lv, out) for t in tree])


def trees(leaves):
    """All ways to nest a sequence of leaves in mixes of at least two."""
    def sub(seq):
        if len(seq) == 1:
            yield seq[0]
            return
        yield from groups(seq)

    def groups(seq):
        n = len(seq)
        for cuts in itertools.product((False, True), repeat=n - 1):
            if not any(cuts):
                continue
            parts, cur = [], [seq[0]]
            for c, x in zip(cuts, seq[1:]):
                if c:
                    parts.append(cur)
                    cur = [x]
                else:
                    cur.append(x)
            parts.append(cur)
            yield from (list(t) for t in itertools.product(*[list(sub(p)) for p in parts]))
    return list(groups(list(leaves)))


WHOLE = [("2PL", 1, [2, 2, 2]), ("2PL", 2, [2, 2, 2]), ("3PL", 1, [2, 2, 2]), ("GPC", 1, [3, 2, 4]), ("GPC", 2, [3, 2, 3]), ("GRM", 1, [2, 4, 3]), ("NRM", 1, [3, 2, 4])]


def item_slice(m, a, b):
    """A model of the same family with items a..b-1 and the same response probabilities, by copying parameters item-wise."""
    f = type(m)
    cats = m.item_categories
    kw = dict(latent_variables=m.latent_variables)
    sub = f(items=b - a, **kw) if f.__name__ in ("TwoParameterLogistic", "ThreeParameterLogistic") else f(item_categories=cats[a:b], **kw)
    with torch.no_grad():
        for (n, p), (_, q) in zip(sub.named_parameters(), m.named_parameters()):
            per = q.numel() // len(cats)
            if q.numel() == len(cats) * per and q.shape[0] == len(cats):
                p.copy_(q[a:b])
                continue
            if q.numel() == sum(c - 1 for c in cats):
                o = [sum(c - 1 for c in cats[:i]) for i in range(len(cats) + 1)]
                p.copy_(q.flatten()[o[a]:o[b]].reshape(p.shape))
                continue
            if q.numel() == len(cats) * m.latent_variables:
                p.copy_(q.reshape(len(cats), -1)[a:b].reshape(p.shape))
                continue
            if q.shape[0] == sum(cats):
                p.copy_(q[sum(cats[:a]):sum(cats[:b])])
                continue
            raise NotImplementedError(n)
    return sub


def run(ctx):
    from irtorch.models import ModelMix
    pairs = [(i, j, lv) for i in range(len(PARTS)) for j in range(len(PARTS)) for lv in (1, 2) if not (lv == 2 and 0 in (i, j))]
    for i, j, lv in ctx.each(pairs):
        with ctx.case("pairs", parts=[PARTS[i][0], PARTS[j][0]], index=[i, j], lv=lv):
            out = []
            side_by_side(ctx, flatten([i, j], lv, out), out, lv)
            ctx.state(i, j, lv)
    if ctx.thorough:
        for t in ctx.each([t + (lv,) for t in itertools.product(range(1, len(PARTS)), repeat=3) for lv in (1,)]):
            with ctx.case("triples", index=list(t[:3]), lv=t[3]):
                out = []
                side_by_side(ctx, flatten(list(t[:3]), t[3], out), out, t[3])
                ctx.state(t)
    seqs = [(3, 1, 2, 8), (5, 6, 1, 3)] + ([(7, 11, 9, 4), (2, 12, 10, 1)] if ctx.thorough else [])
    for tree in ctx.each([t for s in seqs for k in (1, 2, 3, 4) for t in trees(s[:k]) if t] + [[3], [8], [[1]]]):
        with ctx.case("nested", tree=tree):
            out = []
            mix = flatten(tree, 1, out)
            side_by_side(ctx, mix, out, 1)
            ctx.state("nested", str(tree))
    with ctx.case("refused"):
        raises(lambda: ModelMix([part(1, 1), part(3, 2)]), "parts with different numbers of latent variables", ValueError)
    # divisions of one model
    from irtorch.estimation_algorithms import MML, JML, AE
    divisions = [[(0, 1), (1, 3)], [(0, 2), (2, 3)], [(0, 1), (1, 2), (2, 3)], [(0, 3)]]
    for (f, lv, cats), div in ctx.each([(w, d) for w in WHOLE for d in divisions]):
        def both(p=1):
            w = B.build(f, lv, cats, None, p)
            return w, ModelMix([item_slice(w, a, b) for a, b in div])
        with ctx.case("division", family=f, lv=lv, cats=cats, division=div):
            w, mix = both()
            side_by_side(ctx, mix, [w], lv)
            vals = [list(range(c)) + [NAN, -1] for c in cats]
            data = torch.tensor(list(itertools.product(*vals)), dtype=torch.float32)
            for est, o in (("EAP", dict(eap_theta_integration_points=7 if lv == 1 else 5)),):
                a, b = [m.latent_scores(data, theta_estimation=est, **o) for m in (w, mix)]
                close(b, a, f"{est} scores", atol=1e-3)
            full = torch.tensor(list(itertools.product(*[range(c) for c in cats])), dtype=torch.float32)
            th = torch.tensor([[1.1 * math.sin(1.3 * i + d) for d in range(lv)] for i in range(len(full))])
            for name, q in (("infit", lambda m: m.evaluate.infit_outfit(full, th)), ("accuracy", lambda m: m.evaluate.accuracy(full, th, level="item")),
                            ("residuals", lambda m: m.evaluate.residuals(full, th, average_over="none")), ("group log-likelihoods", lambda m: m.evaluate.group_fit_log_likelihood(full, th, groups=3)),
                            ("group residuals", lambda m: m.evaluate.group_fit_residuals(full, th, groups=2)[0]), ("q3", lambda m: torch.tensor(m.evaluate.q3(full, th)[0].values if isinstance(m.evaluate.q3(full, th), tuple) else m.evaluate.q3(full, th).values.astype(float)))):
                a, b = q(w), q(mix)
                for x, y in zip(a if isinstance(a, tuple) else (a,), b if isinstance(b, tuple) else (b,)):
                    close(y, x, name, atol=2e-3, rtol=2e-3)
            ctx.step(7)
            ctx.state("division", f, lv, div)
        with ctx.case("fit", family=f, lv=lv, cats=cats, division=div):
            full = torch.tensor(list(itertools.product(*[list(range(c)) for c in cats])), dtype=torch.float32)
            full[1, 0] = NAN
            full[2, 2] = -1
            for alg, o in ((MML, dict(max_epochs=3, quadrature_points=5)), (JML, dict(max_epochs=3)), (AE, dict(max_epochs=3, hidden_layers_encoder=[4]))):
                w, mix = both()
                for m in (w, mix):
                    torch.manual_seed(4)
                    m.fit(full, algorithm=alg(), device="cpu", **o)
                th = B.thetas((-1.1, 0.4, 1.5), lv)
                close(mix.item_probabilities(th), w.item_probabilities(th), f"probabilities after fitting with {alg.__name__}", atol=2e-3)
                close(mix.algorithm.training_history["train_loss"], w.algorithm.training_history["train_loss"], f"losses of {alg.__name__}", atol=1e-3, rtol=1e-4)
                if alg is not MML:
                    close(mix.algorithm.training_theta_scores, w.algorithm.training_theta_scores, f"scores of {alg.__name__}", atol=5e-3)
                ctx.step()
            ctx.state("fit", f, lv, div)
