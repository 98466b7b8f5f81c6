"""Deterministic model configurations: every check that ranges over "all models" uses this list."""
import itertools
import math
import torch
from irtorch import models as M

INF = float("inf")


def masks(items, lv):
    """All boolean item-latent relationship matrices without an empty row."""
    rows = [r for r in itertools.product([False, True], repeat=lv) if any(r)]
    return [list(map(list, m)) for m in itertools.product(rows, repeat=items)]


def wave(n, k, scale=1.0):
    return torch.tensor([scale * math.sin(1.7 * i + 0.9 * k + 0.6) + 0.13 * ((i % 3) - 1) for i in range(n)],
                        dtype=torch.float32)


def set_params(model, k):
    """Parameter alphabet.  k=0: moderate values; k=1: other signs; k=2: large; k=-1: as initialised but
    made deterministic where the initialisation is random."""
    with torch.no_grad():
        for j, (name, p) in enumerate(sorted(model.named_parameters())):
            if k == -1:
                if name.endswith("directions") or (isinstance(model, (M.GradedResponse, M.NominalResponse))
                                                   and name.endswith("weight_param")):
                    p.copy_((0.2 + wave(p.numel(), j, 0.1).abs()).reshape(p.shape))
                continue
            scale = {0: 0.8, 1: 0.8, 2: 2.5}[k]
            v = wave(p.numel(), 3 * k + j, scale)
            if "raw_weight" in name or "tau" in name or "omega" in name or "alpha" in name:
                v = wave(p.numel(), 3 * k + j, 0.7)
            if name.endswith("directions") or "negation" in name:
                v = v.sign() * (0.3 + v.abs())
            if name.endswith("weight_param") and "raw" not in name:
                v = v.sign() * (0.25 + v.abs())          # no accidental zero slopes
            if name.endswith("coefficients") and not isinstance(model, M.NestedLogit):
                v = v - 1.0
            p.copy_(v.reshape(p.shape))
        for m in model.modules():
            if isinstance(m, M.GradedResponse):
                # ordered thresholds: the model's parameters only define probabilities if they decrease
                n = 0
                for cats in m.item_categories:
                    b = m.bias_param[n:n + cats - 1]
                    start = 0.4 * math.sin(n + k) + 0.7
                    m.bias_param[n:n + cats - 1] = start - 0.75 * torch.arange(len(b))
                    n += cats - 1
    return model


def build(family, lv, cats, mask=None, p=0, **o):
    """Build the real model.  `cats` categories per item; binary families need all twos."""
    cats = list(cats)
    n = len(cats)
    mk = torch.tensor(mask, dtype=torch.bool) if mask is not None else None
    if family == "1PL":
        m = M.OneParameterLogistic(items=n)
    elif family == "2PL":
        m = M.TwoParameterLogistic(latent_variables=lv, items=n, item_theta_relationships=mk)
    elif family == "3PL":
        m = M.ThreeParameterLogistic(latent_variables=lv, items=n, item_theta_relationships=mk)
    elif family == "GPC":
        m = M.GeneralizedPartialCredit(latent_variables=lv, item_categories=cats, item_theta_relationships=mk)
    elif family == "GRM":
        m = M.GradedResponse(latent_variables=lv, item_categories=cats, item_theta_relationships=mk)
    elif family == "NRM":
        m = M.NominalResponse(latent_variables=lv, item_categories=cats, item_theta_relationships=mk, **o)
    elif family == "BSP":
        m = M.MonotoneBSpline(latent_variables=lv, item_categories=cats, **o)
    elif family == "SUR":
        m = M.SurprisalSpline(latent_variables=lv, item_categories=cats, item_theta_relationships=mk)
    elif family == "POLY":
        m = M.MonotonePolynomial(latent_variables=lv, item_categories=cats, item_theta_relationships=mk, **o)
    elif family == "NN":
        m = M.MonotoneNN(latent_variables=lv, item_categories=cats, item_theta_relationships=mk, **o)
    elif family == "NEST":
        inner = o.pop("inner", "2PL")
        corr = build(inner, lv, [2] * n, mask if inner in ("2PL", "3PL", "GPC", "GRM", "POLY", "NN") else None)
        o.setdefault("mc_correct", [c - 1 for c in cats])
        m = M.NestedLogit(correct_response_model=corr, latent_variables=lv, item_categories=cats,
                          item_theta_relationships=mk, **o)
    elif family == "MIX":
        parts = o.pop("parts")
        m = M.ModelMix([build(*pt, p=p) if not isinstance(pt, dict) else build(p=p, **pt) for pt in parts])
        return m
    else:
        raise KeyError(family)
    set_params(m, p)
    return m


BINARY = ("1PL", "2PL", "3PL")
MASKED = ("2PL", "3PL", "GPC", "GRM", "NRM", "SUR", "POLY", "NN")
# (family, options)
VARIANTS = [
    ("1PL", {}), ("2PL", {}), ("3PL", {}), ("GPC", {}), ("GRM", {}), ("NRM", {}),
    ("BSP", {"separate": "items"}), ("BSP", {"separate": "categories"}), ("SUR", {}),
    ("POLY", {"separate": "items"}), ("POLY", {"separate": "categories"}),
    ("POLY", {"separate": "categories", "negative_latent_variable_item_relationships": False, "degree": 5}),
    ("POLY", {"separate": "items", "negative_latent_variable_item_relationships": False, "degree": 1}),
    ("NN", {"separate": "items"}), ("NN", {"separate": "categories"}),
    ("NN", {"separate": "categories", "negative_latent_variable_item_relationships": False, "hidden_dim": [3, 6]}),
    ("NN", {"separate": "items", "negative_latent_variable_item_relationships": False, "use_bounded_activation": False,
            "hidden_dim": [2, 4]}),
    ("NEST", {"inner": "2PL", "incorrect_response_model": "nominal"}),
    ("NEST", {"inner": "3PL", "incorrect_response_model": "bspline"}),
    ("NEST", {"inner": "GPC", "incorrect_response_model": "nominal"}),
]


def catsets(family, thorough):
    if family in BINARY:
        return [[2], [2, 2]] + ([[2, 2, 2]] if thorough else [])
    if family == "NEST":
        return [[3], [3, 2], [2, 4]] + ([[4, 3], [3, 3, 2]] if thorough else [])
    return [[2], [3, 2], [2, 4]] + ([[3], [4, 2], [2, 3, 4]] if thorough else [])


def configs(thorough=False, psets=(0,), all_masks=False, lvs=(1, 2), mc=True):
    """Yield descriptors; build with build(**d)."""
    for family, o in VARIANTS:
        for lv in lvs:
            if family == "1PL" and lv > 1:
                continue
            for cats in catsets(family, thorough):
                mlist = [None]
                maskable = family in MASKED or (family == "NEST" and o.get("inner") != "1PL")
                if lv > 1 and maskable:
                    mlist = [None] + masks(len(cats), lv) if all_masks else \
                        [None, [[i % lv == d for d in range(lv)] for i in range(len(cats))]]
                variants = [dict(o)]
                if mc and family == "NRM":
                    variants.append(dict(o, mc_correct=[(i + 1) % c for i, c in enumerate(cats)]))
                if mc and family == "NN" and o.get("negative_latent_variable_item_relationships", True) is False:
                    variants.append(dict(o, mc_correct=[(i + 1) % c for i, c in enumerate(cats)]))
                if family == "NEST":
                    variants = [dict(o, mc_correct=[c - 1 for c in cats]), dict(o, mc_correct=[i % c for i, c in enumerate(cats)])]
                for mask in mlist:
                    for v in variants:
                        for p in psets:
                            yield dict(family=family, lv=lv, cats=cats, mask=mask, p=p, **v)


MIXES = [
    [("2PL", 1, [2, 2]), ("GPC", 1, [3, 2])],
    [("GPC", 1, [4]), ("2PL", 1, [2])],
    [("1PL", 1, [2]), ("GRM", 1, [3, 3]), ("NRM", 1, [2, 4])],
    [("GRM", 2, [3, 2]), ("2PL", 2, [2])],
    [("3PL", 1, [2, 2]), ("GPC", 1, [3])],
    [("SUR", 1, [3, 2]), ("2PL", 1, [2])],
    [("BSP", 1, [3]), ("3PL", 1, [2, 2])],
]


def mix_configs(idx=None):
    for i, parts in enumerate(MIXES):
        if idx is None or i in idx:
            yield dict(family="MIX", lv=parts[0][1], cats=[c for pt in parts for c in pt[2]], parts=parts)


def thetas(values, lv):
    return torch.tensor(list(itertools.product(values, repeat=lv)), dtype=torch.float32)


def responses(cats, missing=()):
    """All response patterns; `missing` adds missing codes per item."""
    return torch.tensor(list(itertools.product(*[list(range(c)) + list(missing) for c in cats])), dtype=torch.float32)
