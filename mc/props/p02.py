"""P02: probabilities of the parametric models are those of the documented formulas at the exported parameters."""
import itertools
import numpy as np
import torch
from mc.core import close, require
from mc import models as B

META = dict(
    title="Parametric models follow their formulas at the exported item parameters",
    statement="For the one-, two- and three-parameter logistic, generalized partial credit, graded response, nominal and "
              "nested logit models, the response probabilities at any latent vector are those the model's formula gives for "
              "the item parameters the model exports, with exactly one table row per item. Exporting in traditional IRT "
              "format describes the same response curves. Identification constraints hold: nominal weights and intercepts "
              "sum to zero within an item and guessing probabilities lie in [0, 1].",
    over=["inputs", "configurations"],
    quant="all model families, category layouts, item-latent masks, parameter settings and latent vectors",
    why="Existing tests call the export on one fitted layout and look at shapes; they never recompute probabilities from "
        "the exported numbers over all layouts, so a misplaced row, column or sign is invisible.",
    files=["irtorch/models/one_parameter_logistic.py", "irtorch/models/two_parameter_logistic.py",
           "irtorch/models/three_parameter_logistic.py", "irtorch/models/generalized_partial_credit.py",
           "irtorch/models/graded_response.py", "irtorch/models/nominal_response.py", "irtorch/models/nested_logit.py"],
    mech=[("forward pass", "each model's forward / probabilities_from_output"),
          ("export", "each model's item_parameters")],
    technique="exhaustive enumeration of model configurations x parameter settings x latent grid on the real models "
              "against an independent float64 evaluation of the formula from the exported table",
)
BOUNDS = ("7 parametric families x category layouts up to 4 categories and 3 items x 1-2 latent variables x all masks of two "
          "items x 3 parameter settings x a theta grid; IRT format for every unidimensional configuration")
ASSUMPTIONS = ["for the generalized partial credit model the exported d of a category is that category's intercept",
               "float32 arithmetic, tolerance 1e-4"]


def sig(x):
    return 1 / (1 + np.exp(-x))


def softmax(z):
    z = np.exp(z - z.max(-1, keepdims=True))
    return z / z.sum(-1, keepdims=True)


def cols(df, letter, n):
    return np.stack([df[f"{letter}{i + 1}"].to_numpy(dtype=float) for i in range(n)], 1)


def from_table(family, df, th, cats, lv, irt=False):
    """Probabilities (rows, items, max(cats)) from an exported table."""
    n, K = len(cats), max(cats)
    require(len(df) == n, f"table has {len(df)} rows for {n} items")
    out = np.zeros((th.shape[0], n, K))
    if family == "1PL":
        p = sig(th + df["d"].to_numpy(dtype=float)[None])
        return np.stack([1 - p, p], 2)
    if family in ("2PL", "3PL"):
        a = cols(df, "a", lv)
        z = a[:, 0] * (th - df["b"].to_numpy(dtype=float)) if irt else th @ a.T + df["d"].to_numpy(dtype=float)
        c = df["c"].to_numpy(dtype=float) if family == "3PL" else 0.0
        require(np.all((c >= 0) & np.less_equal(c, 1)), f"guessing {c}")
        p = c + (1 - c) * sig(z)
        return np.stack([1 - p, p], 2)
    if family == "NRM":
        for j, k in enumerate(cats):
            a = np.array([[float(df[f"a{d + 1}{x + 1}"].iloc[j]) for d in range(lv)] for x in range(K)])
            d0 = np.array([float(df[f"d{x + 1}"].iloc[j]) for x in range(K)])
            require(abs(d0.sum()) < 1e-4 and np.all(abs(a.sum(0)) < 1e-4), "nominal parameters do not sum to zero")
            require(np.all(a[k:] == 0) and np.all(d0[k:] == 0), "parameters exported for a category that does not exist")
            out[:, j, :k] = softmax(th @ a[:k].T + d0[:k])
        return out
    a = cols(df, "a", lv)
    for j, k in enumerate(cats):
        z = th @ a[j]
        if family == "GPC":
            if irt:
                d = np.array([0.0] + [-a[j, 0] * float(df[f"b{x}"].iloc[j]) for x in range(1, k)])
            else:
                d = np.array([float(df[f"d{x + 1}"].iloc[j]) for x in range(k)])
            out[:, j, :k] = softmax(z[:, None] * np.arange(k) + d)
        else:
            d = [(-a[j, 0] * float(df[f"b{x}"].iloc[j])) if irt else float(df[f"d{x}"].iloc[j]) for x in range(1, k)]
            g = np.concatenate([np.ones((len(z), 1)), sig(z[:, None] + np.array(d)), np.zeros((len(z), 1))], 1)
            out[:, j, :k] = g[:, :-1] - g[:, 1:]
    return out


FAM = ("1PL", "2PL", "3PL", "GPC", "GRM", "NRM")


def run(ctx):
    vals = [-3., -1.2, 0., 0.7, 2.5]
    layouts = {"b": [[2], [2, 2], [2, 2, 2]], "p": [[2], [3, 2], [2, 4], [3, 3], [2, 3, 4]]}
    for fam in FAM:
        for lv in (1, 2) + ((3,) if ctx.thorough else ()):
            if fam == "1PL" and lv > 1:
                continue
            for cats in layouts["b" if fam in B.BINARY else "p"]:
                ms = [None] + (B.masks(len(cats), lv) if fam != "1PL" and lv > 1 and len(cats) * lv < 7 else [])
                for mask in ms:
                    for p in (-1, 0, 1, 2):
                        th = B.thetas(vals if lv < 3 else [-1.2, 0., 0.7], lv)
                        with ctx.case("table", family=fam, lv=lv, cats=cats, mask=mask, p=p):
                            m = B.build(fam, lv, cats, mask, p)
                            got = m.item_probabilities(th)
                            t = th.double().numpy()
                            df = m.item_parameters()
                            close(got, from_table(fam, df, t, cats, lv), "probabilities", atol=2e-4)
                            if mask is not None and fam != "NRM":
                                a = cols(df, "a", lv)
                                require(((a != 0) == np.array(mask)).all(), f"weights {a.tolist()} exported for mask {mask}")
                            if lv == 1 and fam not in ("1PL", "NRM"):
                                close(got, from_table(fam, m.item_parameters(irt_format=True), t, cats, lv, irt=True),
                                      "probabilities from the IRT format", atol=2e-4)
                            ctx.state(fam, lv, cats, mask, p)
                            ctx.step(len(th))
                            ctx.outcome(np.round(got.detach().numpy()[0], 3))
    # nested logit: correct part from its own model, incorrect part conditional nominal
    for inner in ("2PL", "3PL", "1PL", "GPC"):
        for lv in (1, 2):
            if inner == "1PL" and lv > 1:
                continue
            for cats in ([3], [3, 2], [2, 4], [4, 3], [3, 3, 2]):
                for mc in itertools.product(*[range(c) for c in cats]):
                    if len(cats) == 3 and not ctx.thorough and sum(mc) % 2:
                        continue
                    for p in (0, 1):
                        with ctx.case("nested", inner=inner, lv=lv, cats=cats, mc=list(mc), p=p):
                            m = B.build("NEST", lv, cats, None, p, inner=inner, mc_correct=list(mc))
                            th = B.thetas(vals, lv)
                            t = th.double().numpy()
                            pc = from_table(inner, m.correct_response_model.item_parameters(), t, [2] * len(cats), lv)[:, :, 1]
                            inc = from_table("NRM", m.nominal_response_model.item_parameters(), t, [c - 1 for c in cats], lv)
                            want = np.zeros((len(th), len(cats), max(cats)))
                            for j, c in enumerate(cats):
                                want[:, j, mc[j]] = pc[:, j]
                                rest = [x for x in range(c) if x != mc[j]]
                                for i, x in enumerate(rest):
                                    want[:, j, x] = (1 - pc[:, j]) * inc[:, j, i]
                            close(m.item_probabilities(th), want, "nested logit probabilities", atol=2e-4)
                            ctx.state("nested", inner, lv, cats, mc, p)
                            ctx.step(len(th))
