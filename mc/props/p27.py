"""P27: grouped fit statistics against a direct grouping, for every order of respondents and every number of groups."""
import itertools
import math
import torch
from mc.core import close, require
from mc import models as B, scales as S

META = dict(
    title="Group fit statistics describe the requested groups of ordered respondents",
    statement="The group statistics sort respondents by the chosen latent variable (on the rescaled scale when asked), split them into the requested number of groups "
              "as equal in size as possible, and give for each group the observed and model response proportions, their (standardized) differences and the mean "
              "log-likelihood of exactly its respondents. Results do not depend on the order of the rows, and missing responses count as neither response.",
    over=["inputs", "configurations"],
    quant="all (respondents, groups) pairs up to a size; all row orders of five respondents; all missing patterns of a small matrix; model families x latent variables x scales",
    why="Tests use divisible group sizes with already sorted respondents and replaced model functions.",
    files=["irtorch/evaluator.py"],
    mech=[("grouping", "latent_group_probabilities"), ("residuals", "group_fit_residuals"), ("likelihood", "group_fit_log_likelihood")],
    technique="exhaustive enumeration of group counts, row orders and missing patterns against a plain Python grouping",
)
PARALLEL = True
BOUNDS = "1-13 (thorough 1-31) respondents x every number of groups; 120 row orders x 5 group counts (thorough 720 x 6); 3^6 missing patterns of 3 x 2 (thorough also 3^8); 1-2 latent variables"
ASSUMPTIONS = ["respondents have distinct values on the latent variable they are grouped by", "standardization is compared where no response is missing and the model proportion is between .001 and .999",
               "the mid point of a group is only required to lie within the group's range"]
NAN = math.nan

SPREAD = [0.31, -1.42, 2.05, 0.77, -0.58, 1.21, -2.2, 0.05, 1.66, -0.96, 0.52, -1.83, 2.41]


def theta_for(n, lv):
    v = [SPREAD[i % 13] + 0.017 * (i // 13) for i in range(n)]
    w = [SPREAD[(5 * i + 3) % 13] * 0.7 - 0.011 * (i // 13) for i in range(n)]
    return torch.tensor([list(t)[:lv] for t in zip(v, w)])


def data_for(n, cats):
    return torch.tensor([[float((i * (j + 1) + i // 2 + j) % c) for j, c in enumerate(cats)] for i in range(n)])


def miss(x):
    return math.isnan(x) or x == -1


def split(order, groups):
    """Indices of each group: as equal as possible, larger groups first."""
    n, out, s = len(order), [], 0
    for g in range(groups):
        k = n // groups + (g < n % groups)
        out.append(order[s:s + k])
        s += k
    return out


def check(ctx, m, data, th, groups, lat=1, rescale=True, std=True):
    e = m.evaluate
    n = len(data)
    cats, C = m.item_categories, max(m.item_categories)
    rows = data.tolist()
    scaled = rescale and bool(m.scale)
    values = (m.transform_theta(th) if scaled else th)[:, lat - 1].tolist()
    gs = split(sorted(range(n), key=lambda i: values[i]), groups)
    P = m.item_probabilities(th).double()
    obs, mod, ns = [], [], []
    for g in gs:
        o = []
        for j in range(len(cats)):
            seen = [int(rows[i][j]) for i in g if not miss(rows[i][j])]
            o.append([seen.count(c) / len(seen) if seen else NAN for c in range(C)])
        obs.append(o)
        mod.append(P[g].mean(0))
        ns.append(len(g))
    obs, mod = torch.tensor(obs, dtype=torch.float64), torch.stack(mod)
    got = e.latent_group_probabilities(data.clone(), th.clone(), latent_variable=lat, groups=groups, rescale=rescale)
    require(len(got[0]) == groups, f"{len(got[0])} groups instead of {groups}")
    close(got[0], obs, "observed proportions")
    close(got[1], mod, "model proportions")
    for g, mid in zip(gs, got[2].tolist()):
        v = [values[i] for i in g]
        require(min(v) - 1e-5 <= mid <= max(v) + 1e-5, f"mid point {mid} of a group between {min(v)} and {max(v)}")
    raw, mids = e.group_fit_residuals(data.clone(), th.clone(), latent_variable=lat, groups=groups, rescale=rescale, standardize=False)
    want = obs - mod
    for j, c in enumerate(cats):
        want[:, j, c:] = NAN
    close(raw, want, "residuals of the groups")
    close(mids, got[2], "mid points of the residuals")
    if std:
        z, mids = e.group_fit_residuals(data.clone(), th.clone(), latent_variable=lat, groups=groups, rescale=rescale)
        w = want / (mod * (1 - mod) / torch.tensor(ns).view(-1, 1, 1)).sqrt()
        clear = torch.minimum(mod, 1 - mod) > 1e-3           # close to 0 and 1 single precision decides
        close(torch.where(clear, z.double(), 0.0), torch.where(clear, w, 0.0), "standardized residuals", atol=1e-3, rtol=1e-3)
        close(mids, got[2], "mid points of the standardized residuals")
    if not scaled:
        L = []
        for i, r in enumerate(rows):
            L.append(sum(math.log(max(float(P[i, j, int(x)]), 1e-40)) for j, x in enumerate(r) if not miss(x)))
        close(e.group_fit_log_likelihood(data.clone(), th.clone(), groups=groups, latent_variable=lat),
              [sum(L[i] for i in g) / len(g) for g in gs], "log-likelihoods of the groups", atol=1e-3, rtol=1e-3)
    ctx.step(4)
    return got


def run(ctx):
    def gpc(lv=1, cats=(3, 2)):
        return B.build("GPC", lv, list(cats))

    sizes = [(n, g) for n in range(1, ctx.pick(14, 32)) for g in range(1, n + 1)]
    for n, g in ctx.each(sizes):
        with ctx.case("sizes", respondents=n, groups=g):
            m = gpc()
            check(ctx, m, data_for(n, [3, 2]), theta_for(n, 1), g)
            ctx.state("size", n, g)
    k = ctx.pick(5, 6)
    for perm in ctx.each(list(itertools.permutations(range(k)))):
        with ctx.case("row order", order=perm):
            m = gpc(2)
            data, th = data_for(k, [3, 2]), theta_for(k, 2)
            p = list(perm)
            for g in range(1, k + 1):
                a = check(ctx, m, data[p], th[p], g, lat=2)
                b = m.evaluate.latent_group_probabilities(data, th, latent_variable=2, groups=g)
                for x, y in zip(a, b):
                    close(x, y, f"rows in order {p}, {g} groups")
            ctx.state("order", perm)
    shapes = [(3, [2, 2])] + ([(4, [2, 2])] if ctx.thorough else [])
    for n, cats in shapes:
        base = data_for(n, cats)
        for pat in ctx.each(list(itertools.product((0, NAN, -1.0), repeat=n * 2))):
            with ctx.case("missing", respondents=n, pattern=["x" if v == 0 else v for v in pat]):
                d = torch.tensor([[x if q == 0 else q for x, q in zip(r, pat[2 * i:2 * i + 2])] for i, r in enumerate(base.tolist())])
                m = gpc(1, cats)
                for g in (1, 2, n):
                    check(ctx, m, d, theta_for(n, 1), g, std=not any(pat))
                ctx.state("missing", n, pat)
    confs = list(B.configs(ctx.thorough, psets=(0, 1), all_masks=False)) + list(B.mix_configs())
    for c in ctx.each(confs):
        with ctx.case("model", **c):
            m = B.build(**c)
            lv, n = m.latent_variables, 7
            for lat in range(1, lv + 1):
                for g in (1, 3, 5):
                    check(ctx, m, data_for(n, m.item_categories), theta_for(n, lv), g, lat=lat)
            ctx.state("model", c)
    stacks = [(lv, s) for lv in (1, 2) for s in ("", "A", "S", "H", "R", "O", "AR", "RA", "SA") if S.stack(s, gpc(lv)) is not None]
    for lv, s in ctx.each(stacks):
        with ctx.case("scales", lv=lv, stack=s):
            m = gpc(lv, (3, 2, 4))
            for sc in S.stack(s, m):
                m.add_scale_transformation(sc)
            for lat in range(1, lv + 1):
                for rescale in (True, False):
                    for g in (1, 2, 4, 9):
                        check(ctx, m, data_for(9, m.item_categories), theta_for(9, lv), g, lat=lat, rescale=rescale)
            ctx.state("scales", lv, s)
    # the model's own training data, scored when no thetas are given
    from mc import kinds as K
    for kn in ctx.each(sorted(K.KINDS)):
        with ctx.case("training data", kind=kn):
            m = K.KINDS[kn]()
            e = m.evaluate
            method = "NN" if kn.endswith("AE") else "ML"
            th = m.latent_scores(m.algorithm.train_data, theta_estimation=method, rescale=False)
            if len(set(th[:, 0].tolist())) == len(th):
                a = e.latent_group_probabilities(groups=4, theta_estimation=method)
                b = e.latent_group_probabilities(m.algorithm.train_data, th, groups=4)
                for x, y in zip(a, b):
                    close(x, y, "training data", atol=1e-4)
            close(e.group_fit_log_likelihood(groups=1, theta_estimation=method),
                  e.group_fit_log_likelihood(m.algorithm.train_data, th, groups=1), "training data log-likelihood", atol=1e-3)
            a = e.group_fit_residuals(groups=1, theta_estimation=method)
            b = e.group_fit_residuals(m.algorithm.train_data, th, groups=1)
            close(a[0], b[0], "training data residuals", atol=1e-3, rtol=1e-3)
            ctx.state("train", kn)
