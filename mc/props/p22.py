"""P22: the building blocks of the flexible models."""
import itertools
import math
import numpy as np
import torch
import torch.nn.functional as F
from mc.core import close, equal, require, raises

META = dict(
    title="Spline, polynomial and masked layers compute exactly their functions",
    statement="Rational quadratic splines are increasing bijections through their end points with exact inverses and log-derivatives inside and outside the "
              "bounds; B-spline bases sum to one and are differentiated exactly; monotone polynomials are the integrals of their products of quadratics, and "
              "report those coefficients; masked layers use exactly the allowed connections, with positive weights where promised.",
    over=["inputs", "configurations"],
    quant="all parameter settings over small grids of values, bin counts, degrees and masks, at grids of inputs including all knots and bounds",
    why="Tests check one parameter setting (usually the initial one, where most terms vanish) at a few inputs.",
    files=["irtorch/torch_modules/rational_quadratic_spline.py", "irtorch/torch_modules/neural_spline_flow.py", "irtorch/torch_modules/b_spline.py",
           "irtorch/torch_modules/monotone_polynomial.py", "irtorch/torch_modules/softplus_linear.py", "irtorch/torch_modules/negation_layer.py",
           "irtorch/activation_functions.py"],
    mech=[("spline", "RationalQuadraticSpline, NeuralSplineFlow"), ("basis", "BSplineBasisFunction"), ("polynomial", "MonotonePolynomialModule"),
          ("layers", "SoftplusLinear, NegationLayer, BoundedELU")],
    technique="exhaustive enumeration of parameter settings and masks of the real modules against independent double precision references and differences",
)
PARALLEL = True
BOUNDS = "1-3 bins with all parameters over 3 values, 4 ranges; degrees 0-3; all masks of 2x3 (polynomial) and up to 4x4 (layers)"
ASSUMPTIONS = ["get_polynomial_coefficients of degree 3 and higher is a known finding"]


def softplus(x):
    return np.log1p(np.exp(x))


def rqs_ref(x, uw, uh, ud, lo, hi, olo, ohi, mins=(1e-3, 1e-3, 1e-3)):
    """Durkan et al. (2019), with minimum bin widths, heights and derivatives; one variable, numpy double."""
    slope = (ohi - olo) / (hi - lo)
    out, der = [], []
    soft = lambda u: np.exp(u - u.max()) / np.exp(u - u.max()).sum()
    n = len(uw)
    w = (mins[0] + (1 - mins[0] * n) * soft(uw)) * (hi - lo)
    h = (mins[1] + (1 - mins[1] * n) * soft(uh)) * (ohi - olo)
    X = lo + np.concatenate([[0], np.cumsum(w)])
    Y = olo + np.concatenate([[0], np.cumsum(h)])
    d = np.concatenate([[1.0], mins[2] + softplus(ud), [1.0]])
    for v in x:
        if v < lo:
            out.append(olo + (v - lo) * slope), der.append(slope)
        elif v > hi:
            out.append(ohi + (v - hi) * slope), der.append(slope)
        else:
            k = min(max(int(np.searchsorted(X, v, side="right")) - 1, 0), n - 1)
            s = (Y[k + 1] - Y[k]) / (X[k + 1] - X[k])
            t = (v - X[k]) / (X[k + 1] - X[k])
            den = s + (d[k + 1] + d[k] - 2 * s) * t * (1 - t)
            out.append(Y[k] + (Y[k + 1] - Y[k]) * (s * t * t + d[k] * t * (1 - t)) / den)
            der.append(s * s * (d[k + 1] * t * t + 2 * s * t * (1 - t) + d[k] * (1 - t) ** 2) / den ** 2)
    return np.array(out), np.array(der), X


def spline_case(ctx, bins, uw, uh, ud, rng, free, mins=None):
    from irtorch.torch_modules import RationalQuadraticSpline, NeuralSplineFlow
    lo, hi, olo, ohi = rng
    s = RationalQuadraticSpline(2, num_bins=bins, lower_input_bound=lo, upper_input_bound=hi, lower_output_bound=olo, upper_output_bound=ohi, free_endpoints=free,
                                **(dict(zip(("min_bin_width", "min_bin_height", "min_derivative"), mins)) if mins else {}))
    rng = (*rng, mins) if mins else rng
    with torch.no_grad():
        for p, v in ((s.unnormalized_widths, uw), (s.unnormalized_heights, uh), (s.unnormalized_derivatives, ud)):
            p[0] = torch.tensor(v, dtype=torch.float32)
            p[1] = torch.tensor([-x * 0.6 for x in v][::-1], dtype=torch.float32)
    span = hi - lo
    par = [[np.array(p[i].detach(), dtype=float) for p in (s.unnormalized_widths, s.unnormalized_heights, s.unnormalized_derivatives)] for i in (0, 1)]
    base = np.array([lo - span, lo - 0.01 * span, lo, *np.linspace(lo, hi, 12)[1:-1], hi, hi + 0.02 * span, hi + 2 * span])
    knots = [rqs_ref([], *par[i], *rng)[2][1:-1] for i in (0, 1)]
    cols = [np.concatenate([base, k]) for k in knots]
    x = torch.tensor(np.stack(cols, 1), dtype=torch.float32)
    y, ld = s(x.clone())
    for i in (0, 1):
        want, der, _ = rqs_ref(x[:, i].double().numpy(), *par[i], *rng)
        scale = ohi - olo
        close(y[:, i], want, f"spline {i}", atol=2e-4 * scale, rtol=2e-4)
        k = len(x) - (bins - 1)                  # the derivative may change steeply at knots
        close(ld[:k, i], np.log(der)[:k], f"log-derivative {i}", atol=3e-3, rtol=1e-3)
        close(ld[k:, i], np.log(der)[k:], f"log-derivative {i} at knots", atol=0.05, rtol=1e-2)
        o = torch.argsort(x[:, i])
        require(bool((y[o, i].diff() >= -1e-6).all()), "the spline decreases")
    z, ldi = s(y.detach().clone(), inverse=True)
    close(z, x, "inverse of the spline", atol=1.5e-3 * span, rtol=1e-3)
    inner = (x[:, 0] > lo + 0.02 * span) & (x[:, 0] < hi - 0.02 * span) | (x[:, 0] < lo - 0.005 * span) | (x[:, 0] > hi + 0.005 * span)
    inner = inner & (torch.tensor(cols[0]).float() == x[:, 0])
    far = torch.ones(len(x), dtype=torch.bool)
    far[-max(1, bins - 1):] = False              # away from knots, where float error could pick the neighbouring bin
    close((ld + ldi)[inner & far], torch.zeros(int((inner & far).sum()), 2), "log-derivative of the inverse", atol=2e-2)
    if not free:
        base_d = torch.distributions.Normal(0.0, 1.0)
        f = NeuralSplineFlow(s, base_d)
        close(f(x.clone()), y, "flow")
        close(f.inverse(y.detach().clone()), z, "inverse flow")
        close(f.log_prob(x.clone()), base_d.log_prob(y) + ld, "flow density", rtol=1e-3)
    ctx.step(3)


def basis_case(ctx, degree, inner):
    from irtorch.torch_modules.b_spline import BSplineBasisFunction
    knots = torch.tensor([0.0] * (degree + 1) + list(inner) + [1.0] * (degree + 1))
    x = torch.tensor([0.02, 0.13, 0.29, 0.44, 0.61, 0.83, 0.97])
    b = BSplineBasisFunction.apply(x, knots, degree)
    n = len(knots) - degree - 1
    require(tuple(b.shape) == (7, n), f"shape {tuple(b.shape)}")

    def cox(i, k, v):
        t = knots.tolist()
        if k == 0:
            return 1.0 if t[i] <= v < t[i + 1] else 0.0
        a = (v - t[i]) / (t[i + k] - t[i]) * cox(i, k - 1, v) if t[i + k] > t[i] else 0.0
        c = (t[i + k + 1] - v) / (t[i + k + 1] - t[i + 1]) * cox(i + 1, k - 1, v) if t[i + k + 1] > t[i + 1] else 0.0
        return a + c
    close(b, [[cox(i, degree, v) for i in range(n)] for v in x.tolist()], "basis", atol=1e-5)
    if degree:
        c = torch.tensor([math.sin(2.0 * i + 1) for i in range(n)])
        xr = x.clone().requires_grad_(True)
        (BSplineBasisFunction.apply(xr, knots, degree) @ c).sum().backward()
        h = 1e-5
        want = [sum(float(c[i]) * (cox(i, degree, v + h) - cox(i, degree, v - h)) / (2 * h) for i in range(n)) for v in x.tolist()]
        close(xr.grad, want, "gradient of the basis", atol=5e-4, rtol=2e-3)
        jac = torch.vmap(torch.func.jacrev(lambda v: BSplineBasisFunction.apply(v.view(1), knots, degree).view(-1)))(x)
        close(jac.reshape(7, n) @ c, want, "vmapped Jacobian of the basis", atol=5e-4, rtol=2e-3)
    ctx.step(2)


def poly_ref(om, al, ta, x):
    """integral from 0 to x of softplus(omega) * prod(1 - 2 alpha x + (alpha^2 + softplus(tau)) x^2)"""
    p = np.array([softplus(om)])
    for a, t in zip(al, ta):
        p = np.convolve(p, [1.0, -2 * a, a * a + softplus(t)])
    c = p / np.arange(1, len(p) + 1)
    return sum(v * x ** (i + 1) for i, v in enumerate(c)), c


def poly_module(degree, nin, nout, mask, neg, shared, vals, intercept=True):
    from irtorch.torch_modules import MonotonePolynomialModule
    m = MonotonePolynomialModule(degree, nin, nout, intercept=intercept, relationship_matrix=None if mask is None else torch.tensor(mask).bool(),
                                 negative_relationships=neg, shared_directions=shared)
    with torch.no_grad():
        for k, p in enumerate(m.parameters()):
            p.copy_(torch.tensor([vals[(3 * i + k) % len(vals)] for i in range(p.numel())]).reshape(p.shape))
    return m


def poly_expect(m, nin, nout, mask, neg, shared):
    om, al, ta = (p.detach().double().numpy() for p in (m.omega, m.alpha, m.tau))
    d = np.ones((nin, nout))
    if neg:
        d = m.directions.detach().double().numpy().repeat(shared, 1)
    if mask is not None:
        d = d * np.array(mask, dtype=float)
    return om[0], al, ta, d


def poly_case(ctx, degree, nin, nout, mask, neg, shared, vals):
    m = poly_module(degree, nin, nout, mask, neg, shared, vals)
    om, al, ta, d = poly_expect(m, nin, nout, mask, neg, shared)
    xs = torch.tensor([[-1.5, 0.3], [0.0, 1.0], [0.7, -0.8], [1.9, 1.4]])[:, :nin]
    want = [[sum(d[i, o] * poly_ref(om[i, o], al[:, i, o], ta[:, i, o], float(x[i]))[0] for i in range(nin)) + float(m.intercept[o]) for o in range(nout)] for x in xs]
    close(m(xs), want, "polynomial", atol=1e-3, rtol=1e-3)
    close(m(xs), m(xs), "second evaluation")
    b, c = m.get_polynomial_coefficients()
    require(tuple(b.shape) == (degree, nin, nout), "shape of the coefficients")
    equal(c, m.intercept, "intercept")
    require(bool((b[:, torch.tensor(d == 0)] == 0).all()) and bool((b[0, torch.tensor(d != 0)] != 0).all()), "coefficients of unrelated inputs")
    ctx.step(2)


def coef_case(ctx, desc, degree, nin, nout, mask, neg, shared, vals):
    m = poly_module(degree, nin, nout, mask, neg, shared, vals)
    om, al, ta, d = poly_expect(m, nin, nout, mask, neg, shared)
    b, _ = m.get_polynomial_coefficients()
    want = np.stack([[d[i, o] * poly_ref(om[i, o], al[:, i, o], ta[:, i, o], 1.0)[1] for o in range(nout)] for i in range(nin)]).transpose(2, 0, 1)
    got = b.double().numpy()
    right = bool(np.allclose(got, want, atol=1e-3, rtol=1e-3))
    # the known finding: the coefficients of the derivative, divided by k!
    known = want * np.arange(1, degree + 1)[:, None, None] / math.factorial((degree - 1) // 2)
    if right or np.allclose(got, known, atol=1e-3, rtol=1e-3):
        with ctx.case("coefficients", **desc):
            require(right, "polynomial coefficients: those of the derivative, divided by k!")
    else:
        with ctx.case("other coefficients", **desc):
            close(b, want, "polynomial coefficients", atol=1e-3, rtol=1e-3)


def linear_case(ctx, nin, nout, zi, zo, groups, soft):
    from irtorch.torch_modules import SoftplusLinear
    kind = torch.bool if (sum(zi) + sum(zo) + soft) % 2 else torch.int
    kw = dict(zero_inputs=torch.tensor(zi).to(kind), zero_outputs=torch.tensor(zo).to(kind), softplus=soft)
    allowed = np.ones((nout, nin), bool)
    if groups:
        gi, go = groups
        kw.update(separate_inputs=torch.tensor(gi))
        if go:
            kw.update(separate_outputs=torch.tensor(go))
        else:
            q, r = divmod(nout, len(gi))
            go = [q + 1] * r + [q] * (len(gi) - r)
        allowed[:] = False
        a = b = 0
        for p, q in zip(gi, go):
            allowed[b:b + q, a:a + p] = True
            a, b = a + p, b + q
    allowed[np.array(zo, bool)] = False
    allowed[:, np.array(zi, bool)] = False
    m = SoftplusLinear(nin, nout, **kw)
    with torch.no_grad():
        m.raw_weight_param.copy_(torch.tensor([math.sin(1.7 * i + 1) * 2 for i in range(m.raw_weight_param.numel())]))
        m.bias_param.copy_(torch.tensor([0.3 + 0.5 * i for i in range(m.bias_param.numel())]))
    require(m.raw_weight_param.numel() == allowed.sum(), f"{m.raw_weight_param.numel()} weights for {allowed.sum()} connections")
    raw = m.raw_weight_param.detach().double().numpy()
    W = np.zeros((nout, nin))
    W[allowed] = softplus(raw) if soft else raw
    bias = np.zeros(nout)
    bias[~np.array(zo, bool)] = m.bias_param.detach().numpy()
    x = torch.tensor([[math.cos(2.1 * i * (j + 1)) for i in range(nin)] for j in range(3)])
    close(m(x), x.double().numpy() @ W.T + bias, "layer", atol=1e-4)
    ctx.step()


def negation_case(ctx, rel, per, zero):
    from irtorch.torch_modules import NegationLayer
    m = NegationLayer(torch.tensor(rel), per, torch.tensor(zero).bool())
    n = len(rel) * per
    with torch.no_grad():
        m.weight_param.copy_(torch.tensor([(-1.0) ** i * (0.5 + i) for i in range(sum(rel))]))
    w, k = [], 0
    for r in rel:
        w.append((-1.0) ** k * (0.5 + k) if r else 0.0)
        k += r
    x = torch.tensor([[1.0 + i + 10 * j for i in range(n)] for j in range(2)])
    want = [[0.0 if zero[i] else v * w[i // per] for i, v in enumerate(r)] for r in x.tolist()]
    close(m(x.clone()), want, "negation layer")
    close(m.all_item_weights(), w, "item weights")
    out = m(x.clone())
    (out * torch.tensor([[float(i + 1) for i in range(n)]])).sum().backward()
    g, k = [], 0
    for j, r in enumerate(rel):
        if r:
            g.append(sum(0.0 if zero[i] else float(x[:, i].sum()) * (i + 1) for i in range(j * per, (j + 1) * per)))
    close(m.weight_param.grad, g, "gradient of the weights")
    ctx.step(2)


def elu_case(ctx, alpha):
    from irtorch.activation_functions import BoundedELU
    v = [-200.0, -30.0, -3.0, -1.5, -1.0, -0.5, 0.0, 0.4, 1.0, 1.2, 4.0, 30.0, 200.0]
    f = lambda x: -1 + alpha * (math.exp(x + 1) - 1) if x <= -1 else (1 - alpha * (math.exp(1 - x) - 1) if x >= 1 else x)
    g = lambda x: alpha * math.exp(x + 1) if x <= -1 else (alpha * math.exp(1 - x) if x >= 1 else 1.0)
    x = torch.tensor(v, requires_grad=True)
    y = BoundedELU.apply(x, alpha)
    close(y, [f(a) for a in v], "bounded ELU")
    (y * torch.arange(1.0, len(v) + 1)).sum().backward()
    close(x.grad, [(i + 1) * g(a) for i, a in enumerate(v)], "gradient of the bounded ELU")
    j = torch.vmap(torch.func.jacrev(lambda a: BoundedELU.apply(a, alpha)))(x.detach())
    close(j, [g(a) for a in v], "vmapped gradient of the bounded ELU")
    ctx.step(3)


def run(ctx):
    vals = (-1.5, 0.0, 1.2)
    ranges = [(0.0, 1.0, 0.0, 1.0), (-4.5, 4.5, -3.0, 3.0), (0.0, 2.0, -1.0, 7.0), (-5.0, -1.0, 0.5, 1.0)]
    sets = []
    for bins in (1, 2, 3):
        uws = list(itertools.product(vals, repeat=bins)) if bins < 3 or ctx.thorough else [(a, b, c) for a in vals for b in vals for c in vals if (a + b + c) > -2]
        uhs = [u for i, u in enumerate(uws) if i % (1, 1, 4)[bins - 1] == 0]
        uds = list(itertools.product((-3.0, 0.5, 2.0), repeat=bins - 1))
        uds = uds if bins < 3 or ctx.thorough else uds[::2]
        sets += [(bins, a, b, c) for a in uws for b in uhs for c in uds]
    for n, (bins, uw, uh, ud) in ctx.each(list(enumerate(sets))):
        rng = ranges[n % 4]
        with ctx.case("spline", bins=bins, widths=uw, heights=uh, derivatives=ud, range=rng):
            spline_case(ctx, bins, uw, uh, ud, rng, n % 3 == 0)
            ctx.state("spline", bins, uw, uh, ud)
    for n, (bins, uw, uh, ud) in ctx.each(list(enumerate(sets))[::4]):
        mins = ((0.2, 0.02, 1e-3), (1e-3, 0.25, 0.05), (0.05, 0.1, 0.3))[n // 4 % 3]
        with ctx.case("spline with minimum sizes", bins=bins, widths=uw, heights=uh, derivatives=ud, minimum=mins):
            spline_case(ctx, bins, uw, uh, ud, ranges[n // 12 % 4], n % 8 == 0, mins)
            ctx.state("minimum", bins, uw, uh, ud)
    for degree, inner in ctx.each([(d, k) for d in range(4) for k in ((), (0.5,), (0.2, 0.7), (0.25, 0.4, 0.9))]):
        with ctx.case("basis", degree=degree, knots=inner):
            basis_case(ctx, degree, inner)
            ctx.state("basis", degree, inner)
    pv = [(0.3, -0.7, 1.1, -2.0), (0.0, 0.0, -5.0, 1.0), (2.0, -1.3, 0.4, -0.2, 0.9)]
    masks = [None] + [[list(r[:3]), list(r[3:])] for r in itertools.product((1, 0), repeat=6)]
    for degree in (1, 3, 5, 7):
        for mask in ctx.each(masks if degree < 5 or ctx.thorough else masks[:12]):
            for vi, v in enumerate(pv):
                for neg, shared in ((False, 1), (True, 1), (True, 3)):
                    if neg and mask is not None and shared == 3 and any(len(set(r)) > 1 for r in mask):
                        continue
                    d = dict(degree=degree, mask=mask, values=vi, negative=neg, shared=shared)
                    with ctx.case("polynomial", **d):
                        poly_case(ctx, degree, 2, 3, mask, neg, shared, v)
                        ctx.state(d)
                    with ctx.case("coefficients raised", **d):
                        coef_case(ctx, d, degree, 2, 3, mask, neg, shared, v)
    for even in ctx.each((0, 2, 4)):
        with ctx.case("polynomial", degree=even):
            from irtorch.torch_modules import MonotonePolynomialModule
            raises(lambda: MonotonePolynomialModule(even), "even degree", ValueError)
    lin = []
    for nin, nout in ((1, 1), (2, 3), (3, 2), (4, 4)):
        zis = list(itertools.product((0, 1), repeat=nin))
        zos = list(itertools.product((0, 1), repeat=nout))
        gs = [None]
        if nin > 1:
            gs += [([1, nin - 1], None), ([1, nin - 1], [nout - 1, 1])]
        if nin == 4:
            gs += [([2, 1, 1], None), ([2, 2], [1, 3]), ([1, 1, 1, 1], [1, 1, 1, 1])]
        lin += [(nin, nout, zi, zo, g, s) for zi in zis for zo in zos for g in gs for s in (True, False)]
    for c in ctx.each(lin if ctx.thorough else lin[::3]):
        with ctx.case("masked layer", config=c):
            linear_case(ctx, *c)
            ctx.state("linear", c)
    for rel, per in ctx.each([(list(r), p) for n in (1, 2, 3) for r in itertools.product((0, 1), repeat=n) if sum(r) for p in (1, 2)]):
        for zero in itertools.product((0, 1), repeat=len(rel) * per):
            with ctx.case("negation", related=rel, per=per, zero=zero):
                negation_case(ctx, rel, per, list(zero))
                ctx.state("negation", rel, per, zero)
    for alpha in ctx.each((0.5, 1.0, 2.0)):
        with ctx.case("bounded ELU", alpha=alpha):
            elu_case(ctx, alpha)
            ctx.state("elu", alpha)
