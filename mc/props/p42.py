"""P42: fitted scale transformations are fitted to what their documentation says."""
import itertools
import math
import numpy as np
import torch
from mc.core import close, require, quiet
from mc import models as B

META = dict(
    title="Fitted scales are fitted to exactly the criterion their documentation names",
    statement="Every step of fitting a flow follows the gradient of the mean log-density of the standardised scores under the transformation and the chosen distribution, and every step of fitting a link "
              "that of the Kullback-Leibler divergence between the common items' response probabilities in the two models, over exactly the given respondents, each once per epoch whatever the shuffle "
              "and batch size. Rotations are those of the named method for the mean gradients (or the given loadings) of all items. The transformation in use afterwards is the one last fitted.",
    over=["inputs", "configurations", "histories"],
    quant="flows: 1-3 latent variables x distributions x spline options x batch sizes x all shuffles; links: both methods x directions x ordered common item lists x pairs of families with equal and different numbers of categories; all rotation methods x sources of loadings",
    why="Tests run a fit for some epochs and look at the shape of the result; a criterion over the wrong items, columns or rows still gives a plausible increasing curve.",
    files=["irtorch/rescale/flow.py", "irtorch/rescale/link_common_items.py", "irtorch/rescale/rotate.py", "irtorch/torch_modules/neural_spline_flow.py", "irtorch/torch_modules/rational_quadratic_spline.py"],
    mech=[("flow criterion", "Flow.fit, NeuralSplineFlow.log_prob"), ("link criterion", "LinkCommonItems._loss_function"), ("rotation", "Rotate.__init__")],
    technique="exhaustive enumeration of scale configurations, batches and shuffles on the real fits, with each optimizer step's gradient compared to that of an independent criterion",
)
PARALLEL = True
BOUNDS = ("4 respondents (all 24 shuffles x batch sizes 1-4, and none), 3 steps to 2 epochs; 1-3 latent variables x 6 distributions x 4 spline options; links of 6 pairs of models x all ordered pairs of 1-3 common items of equal categories "
          "x 2 methods x 2 directions; 9 rotation methods x 2-3 latent variables x 4 sources of loadings")
ASSUMPTIONS = ["gradients may differ from those of the criterion by a positive factor (sums instead of means)", "the batch of a step is recognised by its gradient among all subsets of the respondents, so that any way of shuffling will do",
               "the rotation oracle is the factor_analyzer package the documentation names, and for varimax and quartimax also the criterion over a grid of angles"]


class Steps:
    """Parameters and gradients of every optimizer step, before it is taken."""

    def __enter__(self):
        from torch.optim.optimizer import register_optimizer_step_pre_hook
        self.steps = []

        def pre(opt, *a):
            ps = [p for g in opt.param_groups for p in g["params"]]
            self.steps.append((ps, [p.detach().clone() for p in ps], [None if p.grad is None else p.grad.detach().clone() for p in ps]))
        self.h = register_optimizer_step_pre_hook(pre)
        return self

    def __exit__(self, *a):
        self.h.remove()


class Shuffle:
    def __init__(self, orders):
        self.orders = orders

    def __enter__(self):
        self.old, n = torch.randperm, [0]

        def f(size, *a, **k):
            o = self.orders[n[0] % len(self.orders)]
            n[0] += 1
            return torch.tensor(o) if len(o) == size else torch.arange(size)
        torch.randperm = f

    def __exit__(self, *a):
        torch.randperm = self.old


def gradient(loss, params):
    g = torch.autograd.grad(loss, params, allow_unused=True)
    return [torch.zeros_like(p) if x is None else x for x, p in zip(g, params)]


def parallel(a, b, tol):
    """Is a = c * b for some c > 0, up to tol?"""
    a, b = torch.cat([x.flatten() for x in a]).double(), torch.cat([x.flatten() for x in b]).double()
    if b.norm() < 1e-7:
        return bool(a.norm() < 1e-4)
    return bool(a.norm() > 0) and float((a / a.norm() - b / b.norm()).norm()) < tol


def follow(what, steps, criterion, rows, batch, every=(), tol=5e-3):
    """Each step's gradient is that of the criterion over some batch of the rows; every epoch's batches partition the rows."""
    require(len(steps) > 0, f"{what}: no step was made")
    per_epoch = math.ceil(rows / batch)
    params = steps[-1][0]
    after = [p.detach().clone() for p in params]
    used = []
    try:
        for k, (ps, values, grads) in enumerate(steps):
            require(all(a is b for a, b in zip(ps, params)) and len(ps) == len(params), f"{what}: the optimised parameters changed during the fit")
            for p, v in zip(params, values):
                p.data.copy_(v)
            grads = [torch.zeros_like(p) if g is None else g for p, g in zip(params, grads)]
            found = []
            sizes = [rows] if batch >= rows else [batch, rows - batch * (per_epoch - 1)]
            for size in dict.fromkeys(sizes):
                for sub in itertools.combinations(range(rows), size):
                    if parallel(grads, gradient(criterion(list(sub)), params), tol):
                        found.append(sub)
            require(found, f"{what}: the gradient of step {k} is not that of the criterion over any {sizes} of the {rows} respondents")
            used.append(found)
            if k == 0 and every:
                extra = gradient(criterion(list(range(rows))), list(every))
                for p, g in zip(every, extra):
                    require(any(p is q for q in params) or float(g.abs().max()) < 1e-6, f"{what}: a parameter of the transformation is not fitted")
    finally:
        for p, v in zip(params, after):
            p.data.copy_(v)
    for e in range(0, len(used) - per_epoch + 1, per_epoch):
        ok = any(sorted(i for s in c for i in s) == list(range(rows)) for c in itertools.product(*used[e:e + per_epoch]))
        require(ok, f"{what}: the batches of epoch {e // per_epoch} do not contain every respondent once: {used[e:e + per_epoch]}")


def thetas(n, lv, k=0):
    return torch.tensor([[math.sin(2.1 * i + 1.7 * d + k) * (1.5 + d) + 0.8 * d for d in range(lv)] for i in range(n)])


def distribution(name, lv):
    from torch.distributions import Laplace, Normal, StudentT, LogisticNormal
    i = torch.arange(lv).float()
    return {"default": None, "shifted": Normal(torch.tensor([0.7]), torch.tensor([1.6])), "scalar": Normal(torch.tensor(-0.4), torch.tensor(0.7)),
            "laplace": Laplace(torch.tensor([0.2]), torch.tensor([1.3])), "each": Normal(0.3 * i - 0.2, 1 + 0.5 * i), "heavy": StudentT(torch.tensor([3.0]), torch.tensor([0.1]), torch.tensor([1.2]))}[name]


SPLINES = [{}, dict(num_bins=3), dict(num_bins=4, lower_input_bound=-1.0, upper_input_bound=0.8, lower_output_bound=-0.7, upper_output_bound=1.5), dict(num_bins=2, free_endpoints=True, lower_input_bound=-3.0, upper_input_bound=3.0)]


def flow_criterion(f, th, dist):
    from torch.distributions import Normal
    dist = dist or Normal(torch.zeros(1), torch.ones(1))

    def c(rows):
        x = th[rows].clone().requires_grad_(True)
        y = f.transform(x)
        slope, = torch.autograd.grad(y.sum(), x, create_graph=True)
        return -(dist.log_prob(y) + slope.abs().log()).mean()
    return c


def flow(ctx, lv, dist, sp, batch, orders, own=False, refit=False):
    from irtorch.rescale import Flow
    from irtorch.torch_modules import RationalQuadraticSpline
    n = 4
    th = thetas(n, lv)
    f = Flow(lv)
    kw = dict(SPLINES[sp])
    if refit:
        f.fit(thetas(5, lv, 1) * 2 - 1, num_bins=3, max_epochs=2, device="cpu")
    own_t = RationalQuadraticSpline(lv, **{**dict(num_bins=3, lower_input_bound=-2., upper_input_bound=2., lower_output_bound=-1., upper_output_bound=2.), **kw}) if own else None
    with Shuffle(orders), Steps() as s:
        f.fit(th, transformation=own_t, distribution=distribution(dist, lv), batch_size=batch, max_epochs=2, learning_rate=0.05, device="cpu", **({} if own else kw))
    require(len(s.steps) == 2 * math.ceil(n / (batch or n)), f"{len(s.steps)} steps in 2 epochs of {n} respondents in batches of {batch}")
    mean, sd = th.mean(0), th.std(0)
    close(f.transform(mean[None] + 1e-6).detach(), f.flow(torch.zeros(1, lv) + 1e-6).detach(), "the flow at the mean score", atol=1e-3)
    x = torch.tensor([[-1.2], [0.3], [1.1]]).expand(3, lv)
    close(f.transform(mean + sd * x).detach(), f.flow(x).detach(), "the flow at standardised scores", atol=1e-4)
    follow("flow", s.steps, flow_criterion(f, th, distribution(dist, lv)), n, batch or n, list(f.flow.parameters()))
    ctx.step(len(s.steps))
    ctx.outcome(f.transform(th).detach().numpy().round(4).tolist())


PAIRS = [(("2PL", [2, 2, 2], {}), ("2PL", [2, 2, 2], {})), (("GPC", [3, 2, 3], {}), ("GPC", [2, 3, 3], {})), (("GPC", [3, 2, 4], {}), ("GRM", [3, 3, 2], {})), (("2PL", [2, 2], {}), ("GPC", [3, 2, 2], {})),
         (("NRM", [3, 4, 2], {"mc_correct": [1, 0, 1]}), ("NEST", [4, 3, 2], {"inner": "3PL", "incorrect_response_model": "nominal"})), (("3PL", [2, 2, 2], {}), ("1PL", [2, 2], {})),
         (("NN", [2, 3], {}), ("SUR", [3, 2, 2], {}))]


def common(catsa, catsb, most):
    """All ordered lists of pairs of items with equal numbers of categories."""
    for n in range(1, most + 1):
        for ia in itertools.permutations(range(len(catsa)), n):
            for ib in itertools.permutations(range(len(catsb)), n):
                if all(catsa[i] == catsb[j] for i, j in zip(ia, ib)):
                    yield list(ia), list(ib)


def link_criterion(s, a, b, ia, ib, th):
    def c(rows):
        x = th[rows]
        p, q = a.item_probabilities(x).detach(), b.item_probabilities(s.transform(x))
        total = 0.
        for i, j in zip(ia, ib):
            for k in range(a.item_categories[i]):
                total = total + (p[:, i, k] * (p[:, i, k].log() - q[:, j, k].log())).sum()
        return total / len(rows)
    return c


def link(ctx, pair, ia, ib, method, inverted, batch, orders, refit=False):
    from irtorch.rescale import LinkCommonItems
    (fa, ca, oa), (fb, cb, ob) = PAIRS[pair]
    a, b = B.build(fa, 1, ca, None, 0, **oa), B.build(fb, 1, cb, None, 1, **ob)
    n = 4
    th = thetas(n, 1)
    torch.manual_seed(3)
    s = LinkCommonItems(a, b, list(ia), list(ib), method=method, inverted=inverted, **({"neurons": 6} if method == "neuralnet" else {"num_bins": 3}))
    if refit:
        s.fit(thetas(5, 1, 1), max_epochs=2, device="cpu")
    with Shuffle(orders), Steps() as r:
        s.fit(th, batch_size=batch, max_epochs=2, learning_rate=0.05, device="cpu")
    require(len(r.steps) == 2 * math.ceil(n / (batch or n)), f"{len(r.steps)} steps in 2 epochs of {n} respondents in batches of {batch}")
    follow("link", r.steps, link_criterion(s, a, b, ia, ib, th), n, batch or n, tol=2e-2)
    ctx.step(len(r.steps))
    ctx.outcome(s.transform(th).detach().numpy().round(4).tolist())


ROTATIONS = ["varimax", "promax", "oblimin", "oblimax", "quartimin", "quartimax", "equamax", "geomin_obl", "geomin_ort"]


def criterion(method, L):
    if method == "varimax":                                 # of the rows scaled to unit length (Kaiser)
        h = L / np.sqrt((L ** 2).sum(1, keepdims=True))
        return (h ** 4).mean(0).sum() - ((h ** 2).mean(0) ** 2).sum()
    return (L ** 4).sum()


def rotate(ctx, method, lv, fam, k):
    from factor_analyzer import Rotator
    from irtorch.rescale import Rotate
    m = B.build(fam, lv, [2, 3, 2, 4, 2, 3] if fam in ("GPC", "GRM") else [2] * 6, None, k)
    with torch.no_grad():
        for p in m.parameters():
            if p.shape == (6 * lv,):
                w = torch.tensor([[1.4 if (i % lv) == d else 0.3 + 0.15 * math.sin(i + 2 * d + k) for d in range(lv)] for i in range(6)])
                p.copy_(w.reshape(p.shape))
    th = thetas(7, lv, k)
    load = m.expected_item_score_gradients(th).mean(0).detach()
    want = Rotator(method=method).fit_transform(load.numpy().astype(np.float64))
    data = torch.tensor([[float((i // (j + 1)) % c) for j, c in enumerate(m.item_categories)] for i in range(9)])
    for source in ("theta", "loadings", "both", "data"):
        kw = dict(theta=th) if source == "theta" else dict(loadings=load.clone()) if source == "loadings" else dict(loadings=load.clone(), theta=th * 2 + 1, data=data) if source == "both" else \
            dict(data=data, theta_estimation="EAP", eap_theta_integration_points=5)
        target = want
        if source == "data":
            own = m.expected_item_score_gradients(m.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=5)).mean(0).detach().numpy().astype(np.float64)
            target = Rotator(method=method).fit_transform(own)
        r = Rotate(m, rotation_method=method, **kw)
        m.add_scale_transformation(r)
        pts = th if source != "data" else m.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=5, rescale=False)
        after = m.expected_item_score_gradients(pts).mean(0).detach().numpy().astype(np.float64)
        m.detach_scale_transformations()
        close(after, target, f"loadings of the latent variables rotated by {method} from {source}", atol=3e-3, rtol=3e-3)
        if lv == 2 and method in ("varimax", "quartimax"):
            base = load.numpy().astype(np.float64) if source != "data" else own
            best = max(criterion(method, base @ np.array([[math.cos(x), -math.sin(x)], [math.sin(x), math.cos(x)]])) for x in np.arange(0, math.pi / 2, math.pi / 360))
            require(criterion(method, after) > best - 1e-3 * abs(best), f"{method}: criterion {criterion(method, after)} of the rotated loadings, {best} is possible")
        ctx.step()
    if method == "promax":
        close(Rotate(m, theta=th).transform(th), Rotate(m, theta=th, rotation_method="promax").transform(th), "the default rotation", atol=1e-6)
    ctx.outcome(np.round(want, 3).tolist())


def run(ctx):
    quiet()
    orders = list(itertools.permutations(range(4)))
    jobs = []
    for lv in (1, 2, 3):
        for dist in ("default", "shifted", "scalar", "laplace", "each", "heavy"):
            for sp in range(4):
                jobs.append(("flow", dict(lv=lv, dist=dist, sp=sp, batch=None, orders=[[2, 0, 3, 1]])))
        for own in (False, True):
            for refit in (False, True):
                jobs.append(("flow", dict(lv=lv, dist="shifted", sp=1, batch=3, orders=[[2, 0, 3, 1], [0, 1, 2, 3]], own=own, refit=refit)))
    for o in orders if ctx.thorough else orders[::5]:
        for batch in (1, 2, 3, 4):
            jobs.append(("flow", dict(lv=2, dist="default", sp=1, batch=batch, orders=[list(o), list(o[::-1])])))
            for method in ("spline", "neuralnet"):
                jobs.append(("link", dict(pair=1, ia=[0, 1], ib=[2, 0], method=method, inverted=False, batch=batch, orders=[list(o), list(o[::-1])])))
    for p, (x, y) in enumerate(PAIRS):
        pairs = list(common(x[1], y[1], 3))
        step = 1 if ctx.thorough else max(1, len(pairs) // 12)
        for i, (ia, ib) in enumerate(pairs[::step]):
            for method in ("spline", "neuralnet"):
                for inv in (False, True):
                    jobs.append(("link", dict(pair=p, ia=ia, ib=ib, method=method, inverted=inv, batch=None, orders=[[0, 1, 2, 3]], refit=i % 2 == 1)))
    for method in ROTATIONS:
        for lv in (2, 3):
            for fam in ("2PL", "GPC", "GRM"):
                for k in range(ctx.pick(1, 3)):
                    jobs.append(("rotate", dict(method=method, lv=lv, fam=fam, k=k)))
    for kind, d in ctx.each(jobs):
        with ctx.case(kind, **d):
            {"flow": flow, "link": link, "rotate": rotate}[kind](ctx, **d)
            ctx.state(kind, d)
