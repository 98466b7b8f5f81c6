"""P25: every point drawn by a plot against the model's own numbers at that point."""
import itertools
import math
import torch
import numpy as np
from mc.core import close, require, raises
from mc import models as B, scales as S, scorers

META = dict(
    title="Every point a plot draws is the model's value at that point",
    statement="Item probability, derivative, entropy, information, expected score and log-likelihood plots draw, at every point of the requested range, the value the model "
              "gives for the requested items at that point, with the other latent variables at their fixed values or training medians, on the rescaled axes when scales are "
              "attached. Group-fit markers, score distributions, training histories, relationship maps and scale curves show exactly the evaluated numbers; impossible requests are refused.",
    over=["configurations", "inputs"],
    quant="every plot x model family x item or item subset x ordered choice of latent variables x scale stack x with and without training scores x response pattern",
    why="Tests check that a figure object comes back from a mocked model.",
    files=["irtorch/plotter.py"],
    mech=[("curves", "item_probabilities, item_entropy, information, expected_sum_score, log_likelihood"), ("grid", "_get_theta_grid_for_plotting"),
          ("distributions", "latent_score_distribution"), ("others", "training_history, item_latent_variable_relationships, scale_transformations")],
    technique="exhaustive enumeration of plot requests; the drawn coordinates are mapped back to latent vectors and compared with direct evaluation",
)
PARALLEL = True
BOUNDS = "all families of the common model list x 1-2 latent variables (3 for one family) x 5 plots x every item, subset of items and ordered choice of latent variables x 8 scale stacks; all response patterns with missing codes of 3 models"
ASSUMPTIONS = ["one-dimensional curves may leave out one end point of the range", "latent variables that are not drawn are fixed on the drawn axes: at the given values, by default at the medians of the training scores on those axes"]
NAN = math.nan
LN2 = math.log(2)


def arr(v):
    return torch.tensor(np.asarray(v, dtype=float))


def values(m, th, kind, item=None, items=None, rescale=True, degrees=None, data=None):
    """What a plot should draw at th."""
    P = m.item_probabilities(th).detach().double()
    if kind == "probability":
        return P[:, item - 1, :m.item_categories[item - 1]]
    if kind == "entropy":
        p = P[:, item - 1]
        return -(p * torch.where(p > 0, p, torch.ones_like(p)).log()).sum(1) / LN2
    if kind == "score":
        idx = [i - 1 for i in items] if items is not None else range(m.items)
        if m.mc_correct is not None:
            return sum(P[:, j, m.mc_correct[j]] for j in idx)
        return sum((P[:, j] * torch.arange(P.shape[2])).sum(1) for j in idx)
    if kind == "information":
        I = m.information(th, item=True, degrees=degrees, rescale=rescale).detach().double().reshape(len(th), m.items)
        return I[:, [i - 1 for i in items]].sum(1) if items is not None else I.sum(1)
    if kind == "likelihood":
        idx = [i - 1 for i in items] if items is not None else range(m.items)
        out = torch.zeros(len(th), dtype=torch.float64)
        for j in idx:
            x = float(data[j])
            if not (math.isnan(x) or x == -1):
                out += P[:, j, int(x)].clamp_min(1e-40).log()
        return out
    raise KeyError(kind)


def train(m, n=5):
    from irtorch.estimation_algorithms import JML
    a = JML()
    lv = m.latent_variables
    T = [[-1.4, 0.6, 0.2], [-0.7, -1.2, 1.1], [-0.2, 0.9, -0.8], [0.8, 1.3, 0.4], [1.7, -0.4, -1.5]]
    a.training_theta_scores = torch.tensor(T)[:n, :lv].clone()
    a.train_data = torch.tensor([[float((i + j) % c) for j, c in enumerate(m.item_categories)] for i in range(n)])
    a.training_history = {"train_loss": [3., 2., 1.5]}
    m.algorithm = a
    return a


def untrained(m):
    from irtorch.estimation_algorithms import MML
    m.algorithm = MML()
    m.algorithm.train_data = torch.tensor([[float((i + j) % c) for j, c in enumerate(m.item_categories)] for i in range(5)])


class OnAxes(list):
    """Fixed values given on the drawn (rescaled) axes."""


def grid_of(m, xs, lat, fixed, rescale):
    """Latent vectors of the drawn coordinates xs (list of 1-D tensors, one per plotted latent variable)."""
    lv = m.latent_variables
    use = rescale and bool(m.scale)
    n = len(xs[0])
    out = torch.zeros(n, lv)
    for d in range(lv):
        out[:, d] = fixed[d]
    if use and not isinstance(fixed, OnAxes):
        out = m.transform_theta(out)
    for x, l in zip(xs, lat):
        out[:, l - 1] = x.float()
    if use:
        for s in reversed(m.scale):
            out = s.inverse(out)
    return out


def default_range(m, lat, rescale):
    t = getattr(m.algorithm, "training_theta_scores", None)
    if t is None:
        t = torch.tensor([[-3.0], [3.0]]).repeat(1, m.latent_variables)
    if rescale and m.scale:
        t = m.transform_theta(t)
    return [(float(t[:, l - 1].min()), float(t[:, l - 1].max())) for l in lat]


def medians(m):
    t = getattr(m.algorithm, "training_theta_scores", None)
    if t is None:
        return [0.0] * m.latent_variables
    return t.median(0).values.tolist()


def check_x(x, rng, steps):
    lo, hi = sorted(rng)
    tol = 2e-3 * max(1.0, hi - lo)
    require(steps - 1 <= len(x) <= steps, f"{len(x)} points for {steps} steps")
    require(float(x.min()) >= lo - tol and float(x.max()) <= hi + tol, f"points from {float(x.min())} to {float(x.max())} for the range {lo} to {hi}")
    step = (hi - lo) / (steps - 1)
    require(float(x.min()) <= lo + step + tol and float(x.max()) >= hi - step - tol, f"points from {float(x.min())} to {float(x.max())} do not cover {lo} to {hi}")
    d = x.diff().abs()
    close(d, torch.full_like(d, step), "spacing of the points", atol=tol)


def plots(m, lat, kw, rng, steps, fixed, rescale, items_list, patterns, tol=3e-4):
    """Draw everything and compare.  Returns the number of figures."""
    lv, n = m.latent_variables, 0
    one = len(lat) == 1
    deg = [30 + 20 * d for d in range(lv)] if lv > 1 else None
    common = dict(latent_variables=lat, steps=steps, rescale=rescale, **kw)

    def line(fig, kind, **o):
        if one:
            tr = fig.data[0]
            x, y = arr(tr.x), arr(tr.y)
            check_x(x, rng[0], steps)
            th = grid_of(m, [x], lat, fixed, rescale)
        else:
            tr = fig.data[0]
            x, z, y = arr(tr.x), arr(tr.y), arr(tr.z)
            require(tuple(y.shape) == (steps, steps) == tuple(x.shape) == tuple(z.shape), f"surface of shape {tuple(y.shape)}")
            for v, r in ((x, rng[0]), (z, rng[1])):
                lo, hi = sorted(r)
                close(v.min(), lo, "lower end of the axis", atol=2e-3)
                close(v.max(), hi, "upper end of the axis", atol=2e-3)
                require(len({round(float(q), 2) for q in v.flatten()}) >= steps, "points of the axis coincide")
            th = grid_of(m, [x.flatten(), z.flatten()], lat, fixed, rescale)
            y = y.flatten()
        want = values(m, th, kind, rescale=rescale, **o)
        if kind == "likelihood":                     # further down single precision decides
            deep = want < -60
            require(bool((y[deep] < -55).all()), f"log-likelihood {y[deep].tolist()} instead of {want[deep].tolist()}")
            y, want = y[~deep], want[~deep]
        close(y, want, f"{kind} {o}", atol=tol, rtol=2e-3)

    p = m.plot
    for item in range(1, m.items + 1):
        fig = p.item_probabilities(item, **common)
        if one:
            require(len(fig.data) == m.item_categories[item - 1], f"{len(fig.data)} curves for item {item}")
            for c, tr in enumerate(fig.data):
                x = arr(tr.x)
                check_x(x, rng[0], steps)
                th = grid_of(m, [x], lat, fixed, rescale)
                close(arr(tr.y), values(m, th, "probability", item)[:, c], f"probability of item {item}, category {c}", atol=tol)
                want = f"Option {c + 1}" if m.mc_correct is not None else str(c)
                require(tr.name == want, f"curve named {tr.name} instead of {want}")
            try:
                fig = p.item_probabilities(item, plot_derivative=True, **common)
            except Exception:
                raise
            for c, tr in enumerate(fig.data):
                th = grid_of(m, [arr(tr.x)], lat, fixed, rescale)
                close(arr(tr.y), m.probability_gradients(th, rescale).detach()[:, item - 1, c, lat[0] - 1], f"derivative of item {item}, category {c}", atol=5e-3, rtol=1e-2)
        else:
            surf = [t for t in fig.data if t.type == "surface"]
            require(len(surf) == m.item_categories[item - 1], f"{len(surf)} surfaces for item {item}")
            for c, tr in enumerate(surf):
                th = grid_of(m, [arr(tr.x).flatten(), arr(tr.y).flatten()], lat, fixed, rescale)
                close(arr(tr.z).flatten(), values(m, th, "probability", item)[:, c], f"probability of item {item}, category {c}", atol=tol)
        line(p.item_entropy(item, **common), "entropy", item=item)
        n += 3
    for items in items_list:
        line(p.expected_sum_score(items=items, **common), "score", items=items)
        line(p.information(items=items, degrees=deg, **common), "information", items=items, degrees=deg)
        for row in patterns[:2]:
            line(p.log_likelihood(torch.tensor([row]), items=items, **common), "likelihood", items=items, data=row)
        n += 4
    for row in patterns[2:]:
        line(p.log_likelihood(torch.tensor([row]), **common), "likelihood", data=row)
        n += 1
    return n


def rows_for(m):
    c = m.item_categories
    full = [float((j + 1) % k) for j, k in enumerate(c)]
    gap = list(full)
    gap[0] = NAN
    return [full, gap]


def subsets(k):
    out = [None]
    for r in range(1, k + 1):
        out += [list(c) for c in itertools.permutations(range(1, k + 1), r) if r < 3 or list(c) == sorted(c)]
    return out


class Tall(S.Scale):
    """increasing, not invertible: theta + theta^3 / 20."""

    def __init__(self):
        super().__init__(invertible=False)

    def transform(self, theta):
        return theta + theta ** 3 / 20

    def inverse(self, t):
        x = t.clone().double()
        for _ in range(60):
            x = x - (x + x ** 3 / 20 - t) / (1 + 3 * x ** 2 / 20)
        return x.float()

    def jacobian(self, theta):
        return torch.diag_embed(1 + 3 * theta ** 2 / 20)


def stack(name, m):
    lv = m.latent_variables
    table = {"D": lambda: S.Affine([[1.5 if i == j else 0. for j in range(lv)] for i in range(lv)], [0.5, -1., 0.25][:lv]),
             "N": lambda: S.Affine([[-0.8 if i == j else 0. for j in range(lv)] for i in range(lv)], [0.3] * lv),
             "S": lambda: S.Sinh(), "T": Tall, "R": lambda: S.Reverse([True, False, True][:lv]), "F": lambda: S.flow(lv)}
    return [table[c]() for c in name]


def run(ctx):
    confs = [c for c in B.configs(ctx.thorough, psets=(0,), mc=True)]
    confs += [dict(c) for c in B.mix_configs()]
    confs += [dict(family="GPC", lv=3, cats=[3, 2], mask=None, p=0)]
    for c in ctx.each(confs):
        m = B.build(**c)
        lv = m.latent_variables
        lats = [(i,) for i in range(1, lv + 1)] + list(itertools.permutations(range(1, lv + 1), 2))
        for fit in (False, True):
            for lat in lats:
                with ctx.case("family", trained=fit, latent=lat, **c):
                    (train if fit else untrained)(m)
                    st = 7 if len(lat) == 1 else 4
                    n = 0
                    if fit or ctx.thorough:
                        items = (subsets(m.items) if ctx.thorough or c["family"] in ("GPC", "MIX") else [None, [m.items]]) if len(lat) == 1 else [None]
                        rng = default_range(m, lat, True)
                        n += plots(m, lat, {}, rng, st, medians(m), True, items, rows_for(m))
                        if not ctx.thorough:
                            ctx.step(n)
                            ctx.state(c, fit, lat)
                            continue
                    kw = dict(theta_range=(-1.1, 1.7))
                    r2 = [(-1.1, 1.7)]
                    if len(lat) == 2:
                        kw["second_theta_range"] = (-0.6, 0.9)
                        r2.append((-0.6, 0.9))
                    fixed = [0.0] * lv
                    rest = [d for d in range(lv) if d + 1 not in lat]
                    for k, d in enumerate(rest):
                        fixed[d] = [0.7, -0.45][k]
                    kw["fixed_thetas"] = torch.tensor([fixed[d] for d in rest])
                    n += plots(m, lat, kw, r2, st, fixed, True, [None], rows_for(m)[:1])
                    ctx.step(n)
                    ctx.state(c, fit, lat)
    # scales
    fams = [("2PL", 1, [2, 2]), ("GPC", 1, [3, 2]), ("GRM", 2, [3, 2])] + ([("NRM", 2, [3, 4]), ("NN", 1, [3, 2])] if ctx.thorough else [])
    for (f, lv, cats), s in ctx.each([(f, s) for f in fams for s in ("D", "N", "S", "R", "F", "DR", "SD", "T", "NT")]):
        m = B.build(f, lv, cats)
        lats = [(i,) for i in range(1, lv + 1)] + list(itertools.permutations(range(1, lv + 1), 2))
        for fit, lat, rescale in itertools.product((False, True), lats, (True, False)):
            if not ctx.thorough and not rescale and (not fit or s not in ("D", "DR")):
                continue
            with ctx.case("scales", family=f, lv=lv, cats=cats, stack=s, trained=fit, latent=lat, rescale=rescale):
                m.scale.clear()
                for sc in stack(s, m):
                    m.add_scale_transformation(sc)
                (train if fit else untrained)(m)
                st = 7 if len(lat) == 1 else 4
                inv = all(sc.invertible for sc in m.scale)
                rng = default_range(m, lat, rescale)
                tol = 2e-3 if "F" in s else 3e-4
                if inv or not rescale:
                    n = plots(m, lat, {}, rng, st, medians(m), rescale, [None, [2]], rows_for(m), tol)
                    want = [(a + 0.1 * (b - a), b - 0.2 * (b - a)) for a, b in rng]
                    kw = dict(theta_range=want[0])
                    if len(lat) == 2:
                        kw["second_theta_range"] = want[1]
                    n += plots(m, lat, kw, want, st, medians(m), rescale, [None], rows_for(m)[:1], tol)
                else:
                    # the range is that of the original theta; only the values at the drawn points are compared
                    n = 0
                    for fig, kind, o in ((m.plot.item_entropy(1, latent_variables=lat, steps=st), "entropy", dict(item=1)),
                                         (m.plot.expected_sum_score(latent_variables=lat, steps=st), "score", {}),
                                         (m.plot.log_likelihood(torch.tensor([rows_for(m)[0]]), latent_variables=lat, steps=st), "likelihood", dict(data=rows_for(m)[0]))):
                        tr = fig.data[0]
                        xs = [arr(tr.x).flatten()] + ([arr(tr.y).flatten()] if len(lat) == 2 else [])
                        y = arr(tr.y if len(lat) == 1 else tr.z).flatten()
                        require(len(y) >= st - 1, f"only {len(y)} points")
                        th = grid_of(m, xs, lat, medians(m), True)
                        close(y, values(m, th, kind, **o), f"{kind} on the scale", atol=2e-3, rtol=2e-3)
                        n += 1
                # the curve of the scale itself
                for l in range(1, lv + 1):
                    fig = m.plot.scale_transformations(l, steps=6)
                    require(len(fig.data) == lv, "one curve per transformed latent variable")
                    x = arr(fig.data[0].x)
                    th = torch.tensor([medians(m)]).repeat(6, 1)
                    th[:, l - 1] = x.float()
                    r = default_range(m, [l], False)[0]
                    close(x, torch.linspace(r[0], r[1], 6), "range of the scale curve", atol=1e-4)
                    t = m.transform_theta(th)
                    for d, tr in enumerate(fig.data):
                        close(arr(tr.y), t[:, d], f"scale curve {d + 1}", atol=1e-3)
                    n += 1
                ctx.step(n)
                ctx.state(f, s, fit, lat, rescale)
    # scales that mix the latent variables: what is not drawn is fixed on the drawn axes
    for (f, lv, cats), lat, fit in ctx.each([(c, lat, fit) for c in (("2PL", 2, [2, 2]), ("GPC", 3, [3, 2])) for lat in
                                             [(i,) for i in range(1, c[1] + 1)] + ([(1, 2), (3, 1)] if c[1] == 3 else [(2, 1)]) for fit in (True, False)]):
        with ctx.case("mixing scales", family=f, lv=lv, cats=cats, latent=lat, trained=fit):
            m = B.build(f, lv, cats)
            m.scale.clear()
            mat = [[0.8, -0.6, 0.1], [0.6, 0.8, -0.3], [0.2, 0.1, 1.1]]
            m.add_scale_transformation(S.Affine([r[:lv] for r in mat[:lv]], [0.5, -1., 0.25][:lv]))
            (train if fit else untrained)(m)
            st = 6 if len(lat) == 1 else 4
            t = m.algorithm.training_theta_scores if fit else torch.tensor([[-3.0], [0.0], [3.0]]).repeat(1, lv)
            t = m.transform_theta(t)
            n = plots(m, lat, {}, [(float(t[:, l - 1].min()), float(t[:, l - 1].max())) for l in lat], st, OnAxes(t.median(0).values.tolist()), True, [None], rows_for(m)[:1])
            fixed, rest = OnAxes([0.0] * lv), [d for d in range(lv) if d + 1 not in lat]
            for k, d in enumerate(rest):
                fixed[d] = [0.7, -0.45][k]
            kw, r2 = dict(theta_range=(-1.1, 1.7)), [(-1.1, 1.7)]
            if len(lat) == 2:
                kw["second_theta_range"] = (-0.6, 0.9)
                r2.append((-0.6, 0.9))
            kw["fixed_thetas"] = torch.tensor([fixed[d] for d in rest])
            n += plots(m, lat, kw, r2, st, fixed, True, [None], rows_for(m)[:1])
            ctx.step(n)
            ctx.state(f, lat, fit, "mix")
    # log-likelihood of every response pattern; expected sum scores on the axis
    for name, mk in (("GPC", lambda: B.build("GPC", 1, [3, 2])), ("NRM-mc", lambda: B.build("NRM", 1, [3, 2], mc_correct=[1, 0])),
                     ("MIX", lambda: B.build("MIX", 1, [], parts=[("2PL", 1, [2]), ("GPC", 1, [3])]))):
        m0 = mk()
        for row in ctx.each([list(map(float, r)) for r in itertools.product(*[list(range(c)) + [NAN, -1] for c in m0.item_categories])]):
            with ctx.case("pattern", model=name, row=row):
                m = mk()
                train(m)
                for items in subsets(m.items):
                    fig = m.plot.log_likelihood(torch.tensor([row]), items=items, steps=9)
                    x = arr(fig.data[0].x)
                    close(arr(fig.data[0].y), values(m, x.float().view(-1, 1), "likelihood", items=items, data=row), f"log-likelihood of items {items}", atol=3e-4)
                fig = m.plot.log_likelihood(torch.tensor([row]), expected_sum_score=True, steps=9)
                th = torch.linspace(-1.4, 1.7, 9).view(-1, 1)
                sc, ll = values(m, th, "score"), values(m, th, "likelihood", data=row)
                x, y = arr(fig.data[0].x), arr(fig.data[0].y)
                require(8 <= len(x) <= 9, f"{len(x)} points")
                for a, b in zip(x.tolist(), y.tolist()):
                    d = (sc - a).abs() + (ll - b).abs()
                    require(float(d.min()) < 1e-3, f"the point ({a}, {b}) is not on the curve")
                obs = sum(float(v) == m.mc_correct[j] if m.mc_correct is not None else (0.0 if math.isnan(v) or v == -1 else v) for j, v in enumerate(row))
                close(fig.layout.shapes[0].x0, float(obs), "marked sum score")
                close(fig.layout.annotations[0].x, float(obs), "annotated sum score")
                ctx.state("pattern", name, row)
                ctx.step(len(subsets(m.items)) + 1)
    # group fit markers
    for s, g, rescale in ctx.each(list(itertools.product(("", "D", "R"), (1, 2, 3, 5), (True, False)))):
        with ctx.case("group fit", stack=s, groups=g, rescale=rescale):
            m = B.build("GPC", 1, [3, 2])
            a = train(m)
            for sc in stack(s, m):
                m.add_scale_transformation(sc)
            for item in (1, 2):
                fig = m.plot.item_probabilities(item, plot_group_fit=True, group_fit_groups=g, group_fit_data=a.train_data,
                                                group_fit_population_theta=a.training_theta_scores, rescale=rescale, steps=5)
                d, mod, mid = m.evaluate.latent_group_probabilities(a.train_data, a.training_theta_scores, groups=g, rescale=rescale)
                k = m.item_categories[item - 1]
                require(len(fig.data) == 3 * k, f"{len(fig.data)} traces")
                dt = [t for t in fig.data if t.name == "Data"]
                md = [t for t in fig.data if t.name == "Model"]
                for c in range(k):
                    close(arr(dt[c].y), d[:, item - 1, c], "observed proportions")
                    close(arr(md[c].y), mod[:, item - 1, c], "model proportions")
                    close(arr(dt[c].x), mid, "mid points")
                    close(arr(md[c].x), mid, "mid points of the model")
            ctx.state("group", s, g, rescale)
    # score distributions
    for lv, lat, s in ctx.each([(lv, lat, s) for lv in (1, 2) for lat in [(i,) for i in range(1, lv + 1)] + list(itertools.permutations(range(1, lv + 1), 2)) for s in ("", "D", "R")]):
        with ctx.case("distribution", lv=lv, latent=lat, stack=s):
            m = B.build("GPC", lv, [3, 2])
            a = train(m)
            for sc in stack(s, m):
                m.add_scale_transformation(sc)
            data = torch.tensor([[0., 0.], [1., 0.], [1., 1.], [2., 1.], [0., 1.], [NAN, 1.]])
            kw = dict(theta_estimation="EAP", eap_theta_integration_points=7)
            runs = [(dict(scores_to_plot=torch.tensor([[0.1, 1.], [0.7, -2.], [0.2, 0.3], [-1.5, 0.6], [0.9, 0.2]])[:, :lv]), None),
                    (dict(population_data=data, **kw), (data, True)), (dict(population_data=data, rescale=False, **kw), (data, False)), (dict(**kw), (a.train_data, True))]
            if len(lat) == 1:                                  # also of a single respondent
                runs += [(dict(scores_to_plot=torch.tensor([[0.1, 1.]])[:, :lv]), None), (dict(population_data=data[1:2], **kw), (data[1:2], True))]
            for o, how in runs:
                want = o["scores_to_plot"] if how is None else m.latent_scores(how[0], rescale=how[1], **kw)
                want = want[:, [l - 1 for l in lat]]
                if len(lat) == 1:
                    fig = m.plot.latent_score_distribution(latent_variables=lat, **o)
                    for tr in fig.data:
                        close(torch.sort(arr(tr.x)).values, torch.sort(want[:, 0]).values, f"scores in the {tr.type}", atol=1e-4)
                else:
                    for bins in (2, 3):
                        fig = m.plot.latent_score_distribution(latent_variables=lat, contour_plot_bins=bins, **o)
                        tr = fig.data[0]
                        z, x, y = arr(tr.z), arr(tr.x), arr(tr.y)
                        require(len(x) == bins == len(y), "number of bins")
                        wx, wy = [(want[:, i].max() - want[:, i].min()).item() / bins for i in (0, 1)]
                        close(z.sum() * wx * wy, 1.0, "total density", atol=1e-3)
                        cnt = torch.zeros(bins, bins)
                        edge = False
                        for u, v in want.tolist():
                            fu, fv = [(q - want[:, i].min().item()) / w for i, q, w in ((0, u, wx), (1, v, wy))]
                            edge |= any(1e-4 < f < bins - 1e-4 and abs(f - round(f)) < 1e-3 for f in (fu, fv))
                            cnt[min(int(fv + 1e-6), bins - 1), min(int(fu + 1e-6), bins - 1)] += 1
                        if not edge:
                            close(z, cnt / (len(want) * wx * wy), "density of each bin", atol=1e-3, rtol=1e-3)
            ctx.state("distribution", lv, lat, s)
    # training histories
    for losses in ctx.each([list(v) for r in range(1, 4) for v in itertools.product((2.5, 1.0, 0.25), repeat=r)]):
        with ctx.case("history", losses=losses):
            m = B.build("2PL", 1, [2, 2])
            a = train(m)
            for hist in ({"train_loss": losses}, {"train_loss": losses, "validation_loss": losses[::-1]}, {"train_loss": losses, "validation_loss": []}):
                a.training_history = hist
                fig = m.plot.training_history()
                curves = {t.name: t for t in fig.data}
                close(arr(curves["Training"].y), losses, "training losses")
                close(arr(curves["Training"].x), list(range(1, len(losses) + 1)), "iterations")
                require(("Validation" in curves) == bool(hist.get("validation_loss")), "validation curve")
                if "Validation" in curves:
                    close(arr(curves["Validation"].y), losses[::-1], "validation losses")
            a.training_history = {"train_loss": []}
            raises(lambda: m.plot.training_history(), "history of an untrained model", AttributeError)
            ctx.state("history", losses)
    # relationship map
    for c in ctx.each([c for c in B.configs(psets=(0,)) if c["family"] in ("2PL", "GPC", "GRM", "NN", "NRM")]):
        with ctx.case("relationships", **c):
            m = B.build(**c)
            a = train(m)
            want = m.expected_item_score_gradients(a.training_theta_scores).detach().mean(0)
            close(arr(m.plot.item_latent_variable_relationships().data[0].z), want, "relationships at the training scores", atol=1e-4)
            th = torch.tensor([[0.3, -0.2], [1.0, 0.5]])[:, :m.latent_variables]
            close(arr(m.plot.item_latent_variable_relationships(theta=th).data[0].z), m.expected_item_score_gradients(th).detach().mean(0), "relationships at given scores", atol=1e-4)
            R = torch.arange(m.items * m.latent_variables).float().view(m.items, -1)
            tr = m.plot.item_latent_variable_relationships(relationships=R).data[0]
            close(arr(tr.z), R, "given relationships")
            require(list(tr.y) == [f"Item {i + 1}" for i in range(m.items)], "item labels")
            ctx.state("relationships", c)
    # refusals
    for lv in ctx.each([1, 2]):
        with ctx.case("refused", lv=lv):
            m = B.build("GPC", lv, [3, 2])
            train(m)
            row = torch.tensor([[1., 0.]])
            deg = [30, 60][:lv] if lv > 1 else None
            calls = {"probabilities": lambda **o: m.plot.item_probabilities(1, **o), "entropy": lambda **o: m.plot.item_entropy(1, **o),
                     "information": lambda **o: m.plot.information(degrees=deg, **o), "score": lambda **o: m.plot.expected_sum_score(**o),
                     "likelihood": lambda **o: m.plot.log_likelihood(row, **o)}
            bad = [dict(latent_variables=(1, 2, 3)), dict(latent_variables=(lv + 1,)), dict(theta_range=(-1, 0, 1))]
            if lv == 1:
                bad.append(dict(latent_variables=(1, 2)))
            for n, f in calls.items():
                for o in bad:
                    raises(lambda: f(**o), f"{n} plot with {o}", TypeError)
            if lv > 1:
                raises(lambda: m.plot.information(), "information without angles", ValueError)
                raises(lambda: m.plot.item_probabilities(1, plot_group_fit=True), "group fit of a multidimensional model", TypeError)
                raises(lambda: m.plot.item_probabilities(1, fixed_thetas=torch.zeros(2)), "too many fixed values", TypeError)
            raises(lambda: m.plot.scale_transformations(), "scale curve without scales", ValueError)
            raises(lambda: m.plot.latent_score_distribution(latent_variables=(1, 2, 3)), "distribution of three latent variables", ValueError)
            ctx.state("refused", lv)
    # a plot with more categories than colours leaves the colours alone
    import plotly.express as px
    for lv in ctx.each([1, 2]):
        with ctx.case("many categories", lv=lv):
            before = list(px.colors.qualitative.Plotly)
            m = B.build("GPC", lv, [12, 2])
            train(m)
            for gray in (False, True):
                fig = m.plot.item_probabilities(1, latent_variables=tuple(range(1, lv + 1)), steps=4, grayscale=gray)
                require(sum(t.type != "scatter3d" for t in fig.data) == 12, "one curve per category")
            require(before == list(px.colors.qualitative.Plotly), "plotly's colours changed")
            ctx.state("many", lv)
