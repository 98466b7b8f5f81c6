"""P21: densities of the latent variables and the numeric helpers below them."""
import itertools
import math
import numpy as np
import torch
from mc.core import close, equal, require, raises
from mc import models as B, kinds as K

META = dict(
    title="Latent density approximations, quadrature and outlier rules are exact",
    statement="A fitted Gaussian mixture is the result of expectation maximisation on the given points and its density and log-likelihood are those of its "
              "weights, means and covariances; the number of components is the one that predicts held-out points best. The quantile normal density, "
              "quantile transform, interpolation, Gauss-Hermite points and outlier flags equal their definitions for every data set, with ties too.",
    over=["inputs", "fault_sequences"],
    quant="all small data sets, orders and ties over a grid of values; all rankings of the candidate mixtures; all quadrature sizes and dimensions to the stated bounds",
    why="Tests check single well-behaved data sets without ties or degenerate components.",
    files=["irtorch/torch_modules/gaussian_mixture_model.py", "irtorch/quantile_mv_normal.py", "irtorch/latent_variable_functions.py",
           "irtorch/outlier_detector.py", "irtorch/utils.py", "irtorch/evaluator.py"],
    mech=[("mixture", "GaussianMixtureModel"), ("quantile normal", "QuantileMVNormal, quantile_transform, interp"), ("quadrature", "gauss_hermite"),
          ("outliers", "OutlierDetector"), ("choice of components", "approximate_latent_density")],
    technique="exhaustive enumeration of small data sets and scripted held-out likelihoods against independent reference implementations in double precision",
)
PARALLEL = True
BOUNDS = "all multisets of 3-4 (thorough 5) points from a 5-value grid, 1-2 features, 1-3 components, 3 starts; all orders of 5 values with all ties; quadrature of 1-7 points in 1-3 dimensions"
ASSUMPTIONS = ["covariances of mixtures are regularised by 1e-6"]


# -- mixture ------------------------------------------------------------------------------------
def logN(x, mu, S):
    d = x - mu
    return -0.5 * np.einsum("ni,ij,nj->n", d, np.linalg.inv(S), d) - 0.5 * np.log(np.linalg.det(S)) - len(mu) / 2 * math.log(2 * math.pi)


def em(x, w, mu, S):
    with np.errstate(divide="ignore"):
        lp = np.stack([logN(x, m, s) for m, s in zip(mu, S)]) + np.log(w)[:, None]
    r = np.exp(lp - lp.max(0))
    r = r / r.sum(0)
    n = r.sum(1)
    mu = (r @ x) / n[:, None]
    S = np.stack([((r[i][:, None] * (x - mu[i])).T @ (x - mu[i])) / n[i] + 1e-6 * np.eye(x.shape[1]) for i in range(len(w))])
    return n / len(x), mu, S


def params(g):
    return [p.detach().double().numpy() for p in (g.weights, g.means, g.covariances)]


def mix_case(ctx, pts, comps, seed):
    from irtorch.torch_modules.gaussian_mixture_model import GaussianMixtureModel
    x = torch.tensor(pts)
    torch.manual_seed(seed)
    g = GaussianMixtureModel(comps, x.shape[1])
    ref = params(g)
    xd = x.double().numpy()
    probe = torch.cat([x, x[:1] + 0.37])
    last = None
    exact = True
    for it in range(6):
        w, mu, S = params(g)
        if exact:
            with np.errstate(divide="ignore"):
                lp = np.stack([logN(probe.double().numpy(), m, s) for m, s in zip(mu, S)]) + np.log(w)[:, None]
            close(g.pdf(probe), np.exp(lp).sum(0), f"density after {it} iterations", rtol=2e-3)
            want = np.logaddexp.reduce(lp[:, :len(x)], 0).sum()
            close(g(x), want, f"log-likelihood after {it} iterations", atol=1e-3, rtol=1e-3)
            require(last is None or want >= last - 1e-3, f"log-likelihood fell from {last} to {want}")
            last = want
        g.fit(x, iterations=1)
        w, mu, S = params(g)
        require(all(np.isfinite(v).all() for v in (w, mu, S)), f"parameters are not finite after {it + 1} iterations")
        require(abs(w.sum() - 1) < 1e-4 and w.min() >= 0, "weights are not a distribution")
        if exact:
            with np.errstate(all="ignore"):
                ref = em(xd, *ref)
            exact = ref[0].min() > 1e-3 and min(np.linalg.eigvalsh(s).min() for s in ref[2]) > 5e-3
        if exact:
            for a, b, n in zip((w, mu, S), ref, ("weights", "means", "covariances")):
                close(a, b, f"{n} after {it + 1} iterations", atol=2e-3, rtol=2e-3)
            ctx.step()
    torch.manual_seed(seed)
    g2 = GaussianMixtureModel(comps, x.shape[1])
    g2.fit(x, iterations=6)
    if exact:
        for a, b, n in zip(params(g2), params(g), ("weights", "means", "covariances")):
            close(a, b, f"{n} of one fit with six iterations", atol=2e-3)
    g2.fit(x)
    require(all(np.isfinite(v).all() for v in params(g2)) and bool(torch.isfinite(g2.pdf(probe)).all()), "not finite after 100 more iterations")


def choice_case(ctx, script, n):
    """Held-out log-likelihoods are scripted per number of components: script[c] is the list over folds."""
    from irtorch.torch_modules.gaussian_mixture_model import GaussianMixtureModel as G
    m = B.build("GPC", 1, [2, 3])
    x = torch.arange(float(n)).reshape(-1, 1) * 1.7
    comps = list(script)
    log = []
    fit0, fwd0 = G.fit, G.forward
    G.fit = lambda self, data, *a, **k: log.append(("fit", self, data.clone()))

    def fwd(self, data):
        seen = sum(1 for e in log if e[0] == "eval" and e[1].n_components == self.n_components)
        log.append(("eval", self, data.clone()))
        return torch.tensor(script[self.n_components][seen])
    G.forward = fwd
    try:
        m.evaluate.approximate_latent_density(x, "gmm", comps)
    finally:
        G.fit, G.forward = fit0, fwd0
    best = max(comps, key=lambda c: sum(script[c]))
    d = m.evaluate.latent_density
    require(isinstance(d, G) and d.n_components == best, f"{d.n_components} components chosen, {best} predict best")
    fits = [e for e in log if e[0] == "fit"]
    require(fits[-1][1] is d and torch.equal(fits[-1][2].sort(0)[0], x), "the final mixture is not fitted to all points")
    for c in comps:
        held = []
        for e in log:
            if e[0] == "eval" and e[1].n_components == c:
                own = [f for f in fits if f[1] is e[1]]
                require(len(own) == 1, "a held-out fold is judged by a mixture that was not freshly fitted")
                tr, va = own[0][2].flatten().tolist(), e[2].flatten().tolist()
                require(not set(tr) & set(va) and sorted(tr + va) == x.flatten().tolist(), "training and held-out points are not a partition")
                held += va
        require(sorted(held) == x.flatten().tolist(), f"the folds of {c} components do not cover the points once")
    ctx.step(len(log))


# -- interpolation --------------------------------------------------------------------------------
def ref_interp(v, pts):
    """pts sorted by x with distinct x and the range (lo, hi) of y there; returns the range of admissible values."""
    if len(pts) == 1:
        return None
    for i, (x, lo, hi) in enumerate(pts):
        if v == x:
            return lo, hi
    if v < pts[0][0]:
        a, b = pts[0], pts[1]
    elif v > pts[-1][0]:
        a, b = pts[-2], pts[-1]
    else:
        a, b = [(p, q) for p, q in zip(pts, pts[1:]) if p[0] < v < q[0]][0]
    t = (v - a[0]) / (b[0] - a[0])
    vals = [p + t * (q - p) for p in a[1:] for q in b[1:]]
    return min(vals), max(vals)


def interp_case(ctx, xs, ys):
    from irtorch.latent_variable_functions import interp
    new = torch.tensor([-2.0, -0.5, 0.0, 0.25, 0.5, 1.0, 1.75, 2.0, 2.5, 3.0, 3.5, 4.0, 5.0])
    got = interp(new, torch.tensor(xs), torch.tensor(ys)).tolist()
    d = {}
    for x, y in zip(xs, ys):
        d.setdefault(x, []).append(y)
    pts = [(x, min(v), max(v)) for x, v in sorted(d.items())]
    for v, g in zip(new.tolist(), got):
        r = ref_interp(v, pts)
        if r is not None:
            require(r[0] - 1e-4 <= g <= r[1] + 1e-4, f"interpolation at {v} is {g}, expected {r}")
    ctx.step()


def icdf(p):
    from scipy.stats import norm
    return norm.ppf(p)


def transform_case(ctx, cols):
    from irtorch.latent_variable_functions import quantile_transform
    from irtorch.quantile_mv_normal import QuantileMVNormal
    x = torch.tensor(cols).T.contiguous()
    n = len(x)
    q = quantile_transform(x)
    for j, col in enumerate(cols):
        want = icdf(np.arange(1, n + 1) / (n + 1))
        got = q[:, j].tolist()
        close(sorted(got), want, "the scores of a column", atol=1e-5)
        for a in range(n):
            for b in range(n):
                require(not col[a] < col[b] or got[a] < got[b], "the transform does not keep the order")
    if all(len(set(c)) == n for c in cols) and n > len(cols):
        d = QuantileMVNormal()
        d.fit(x)
        qd = q.double().numpy()
        mu, S = qd.mean(0), np.cov(qd.T).reshape(len(cols), len(cols))
        if np.linalg.eigvalsh(S).min() > 1e-3:
            probe = torch.cat([x, x + 0.3, x - 5.0, x + 6.0])
            z = np.stack([[ref_interp(v, sorted((a, float(b), float(b)) for a, b in zip(c, q[:, j].tolist())))[0] for v in probe[:, j].tolist()] for j, c in enumerate(cols)], 1)
            close(d.pdf(probe), np.exp(logN(z, mu, S)), "quantile normal density", atol=1e-5, rtol=5e-3)
    ctx.step()


def ties_case(ctx, cols):
    """The density of data with ties, inside and outside their range, exists."""
    from irtorch.quantile_mv_normal import QuantileMVNormal
    x = torch.tensor(cols).T.contiguous()
    d = QuantileMVNormal()
    d.fit(x)
    g = torch.tensor(list(itertools.product((-3., 0., 0.6, 2., 9.), repeat=len(cols))))
    p = d.pdf(g)
    require(bool(torch.isfinite(p).all()) and float(p.min()) >= 0, f"density {p.tolist()}")
    ctx.step()


# -- outliers -------------------------------------------------------------------------------------
def quart(col, q):
    s = sorted(col)
    h = (len(s) - 1) * q
    i = int(h)
    return s[i] if i + 1 >= len(s) else s[i] + (h - i) * (s[i + 1] - s[i])


def outlier_case(ctx, cols, factor):
    from irtorch.outlier_detector import OutlierDetector
    x = torch.tensor(cols).T.contiguous()
    o = OutlierDetector(factor)
    new = torch.tensor([[-30.0], [0.], [3.], [6.], [9.], [60.]]).repeat(1, len(cols))
    b = []
    for c in cols:
        q1, q3 = quart(c, .25), quart(c, .75)
        b.append((q1 - factor * (q3 - q1), q3 + factor * (q3 - q1)))
    for up, lo in ((True, True), (True, False), (False, True)):
        for fn, rows in ((o.identify_outliers(x, upper=up, lower=lo), x), (o.is_outlier(new, x, upper=up, lower=lo), new)):
            want = [[(lo and v < b[j][0]) or (up and v > b[j][1]) for j, v in enumerate(r)] for r in rows.tolist()]
            require(fn.tolist() == want, f"outliers {fn.tolist()} instead of {want} (upper={up}, lower={lo})")
    ok = [[v for v in c if b[j][0] <= v <= b[j][1]] for j, c in enumerate(cols)]
    equal(o.smallest_largest_non_outlier(x, smallest=True), [[min(v) for v in ok]], "smallest ordinary value")
    equal(o.smallest_largest_non_outlier(x, smallest=False), [[max(v) for v in ok]], "largest ordinary value")
    raises(lambda: o.identify_outliers(x, upper=False, lower=False), "no side")
    raises(lambda: o.is_outlier(new, x, upper=False, lower=False), "no side")
    ctx.step(8)


def moment(cov, idx):
    """E[prod x_i] of a centred normal by Isserlis' theorem."""
    if not idx:
        return 1.0
    if len(idx) % 2:
        return 0.0
    return sum(cov[idx[0]][idx[k]] * moment(cov, idx[1:k] + idx[k + 1:]) for k in range(1, len(idx)))


def quad_case(ctx, n, d, c):
    from irtorch.utils import gauss_hermite
    covs = [np.eye(3), np.array([[1.3, -0.4, 0.2], [-0.4, 0.8, 0.1], [0.2, 0.1, 1.6]]), np.diag([0.2, 2.0, 0.5])]
    cov = covs[c][:d, :d]
    mu = np.array([[0., 0, 0], [0.5, -1.2, 0.3]][c % 2])[:d]
    x, w = gauss_hermite(n, torch.tensor(mu, dtype=torch.float32), torch.tensor(cov, dtype=torch.float32))
    require(tuple(x.shape) == (n ** d, d) and tuple(w.shape) == (n ** d,), "shape")
    xc, w = x.double().numpy() - mu, w.double().numpy()
    for p in itertools.product(range(2 * n), repeat=d):
        if sum(p) <= min(2 * n - 1, 7):
            idx = [i for i, k in enumerate(p) for _ in range(k)]
            close((w * np.prod(xc ** np.array(p), 1)).sum(), moment(cov.tolist(), idx), f"moment {p}", atol=1e-4, rtol=1e-3)
    ctx.step()


def run(ctx):
    grid1 = [(-1.5,), (0.,), (0.5,), (2.,), (6.,)]
    grid2 = [(-1.5, 0.), (0., 1.), (0.5, -2.), (2., 2.), (0., 0.)]
    for d, grid in ((1, grid1), (2, grid2)):
        for n in (3, 4) + ((5,) if ctx.thorough else ()):
            for pts in ctx.each(list(itertools.combinations_with_replacement(grid, n))):
                for comps in (1, 2, 3):
                    for seed in ctx.pick((0, 1), range(5)):
                        with ctx.case("mixture", points=pts, components=comps, seed=seed):
                            mix_case(ctx, [list(p) for p in pts], comps, seed)
                            ctx.state("mix", pts, comps, seed)
    for n in ctx.each([5, 7, 12, 23]):
        for perm in itertools.permutations((-3.0, -2.0, -1.0)):
            for bump in (0, 2, 4):
                script = {c: [perm[i] * (1 + 0.5 * (f == bump)) - 0.1 * f for f in range(5)] for i, c in enumerate((1, 2, 4))}
                with ctx.case("components", points=n, ranking=perm, bump=bump):
                    choice_case(ctx, script, n)
                    ctx.state("components", n, perm, bump)
    ys = (0.5, -1.0, 2.0, 0.0, 1.5)
    for xs in ctx.each([x for n in (2, 3, 4) for x in itertools.product((0., 1., 2.5, 4.), repeat=n)]):
        with ctx.case("interpolation", x=xs):
            interp_case(ctx, list(xs), list(ys[:len(xs)]))
            ctx.state("interp", xs)
    vals = (-1.2, 0.3, 0.9, 2.2)
    for cols in ctx.each([(c,) for n in (2, 3, 4) for c in itertools.product(vals, repeat=n)] + [(tuple(vals), c) for c in itertools.product(vals, repeat=4)]
                         + [(tuple(vals) + (7.,), c) for c in itertools.permutations((-1.2, 0.3, 0.9, 2.2, 5.5)) if list(c) not in (sorted(c), sorted(c)[::-1])]):
        with ctx.case("quantile normal", columns=cols):
            transform_case(ctx, [list(c) for c in cols])
            ctx.state("quantile", cols)
    for cols in ctx.each([(c,) for n in (3, 4) for c in itertools.product((0., 0.6, 2.), repeat=n) if len(set(c)) > 1]
                         + [((0., 0., 1., 2.), c) for c in itertools.product((0., 0.6, 2.), repeat=4) if len(set(c)) > 1]):
        import numpy as np_
        r = [np_.argsort(np_.argsort(c, kind="stable"), kind="stable") for c in cols]
        if len(cols) == 2 and abs(np_.corrcoef(r)[0, 1]) > 0.8:
            continue                  # nearly singular scores, whichever way the ties are broken
        with ctx.case("ties", columns=cols):
            try:
                ties_case(ctx, [list(c) for c in cols])
            except ValueError as e:
                if "PositiveDefinite" not in str(e):
                    raise
            ctx.state("ties", cols)
    for cols in ctx.each([(c,) for n in (1, 3, 4, 5) for c in itertools.product((0., 1., 3., 20.), repeat=n)] + [((0., 1., 3., 20., 2.), c) for c in itertools.product((0., 2., -20.), repeat=5)]):
        for factor in (1, 1.5, 3):
            with ctx.case("outliers", columns=cols, factor=factor):
                outlier_case(ctx, [list(c) for c in cols], factor)
                ctx.state("outliers", cols, factor)
    for n, d, c in ctx.each([(n, d, c) for n in range(1, 8) for d in (1, 2, 3) for c in range(3) if n ** d <= 400]):
        with ctx.case("quadrature", points=n, dimensions=d, covariance=c):
            quad_case(ctx, n, d, c)
            ctx.state("quadrature", n, d, c)
