"""P41: the origin, unit and direction of a latent variable, and the codes of the responses, carry no meaning."""
import itertools
import math
import torch
from mc.core import close, require, quiet
from mc import models as B
from mc.props import p34 as O

META = dict(
    title="The origin, unit and direction of scales and codings carry no meaning",
    statement="Shifting, stretching or reversing a latent variable (parameters, latent vectors and training scores alike) gives the same probabilities, likelihoods, fit statistics, bit scores and "
              "curves, and moves scores, gradients and information accordingly. Renaming the options of multiple-choice items, or reversing the scores of a partial credit, graded or logistic item, "
              "gives the same answers under the new names. Fits from corresponding starts end in corresponding estimates.",
    over=["inputs", "configurations"],
    quant="7 shifts, units and reversals of each of 1-2 latent variables x 10 families; every renaming of the options of each of 3 items x families with options; reversed codes of every subset of items x all queries and fits",
    why="Tests use positively directed latent variables around zero and the correct option in one place; a sign, an absolute value or an index that only works there goes unnoticed.",
    files=["irtorch/models/base_irt_model.py", "irtorch/evaluator.py", "irtorch/rescale/bit.py", "irtorch/rescale/rank_cdf.py", "irtorch/models/nested_logit.py", "irtorch/models/nominal_response.py",
           "irtorch/plotter.py", "irtorch/estimation_algorithms/mml.py", "irtorch/estimation_algorithms/jml.py"],
    mech=[("direction of a latent variable", "Bit._get_inverted_scale_multiplier, _theta_grid, group statistics"), ("options", "mc_correct, nested and nominal logits"), ("curves", "Plotter theta ranges")],
    technique="exhaustive enumeration of affine changes of scale and of codes x families x queries on the real code; the answer in the old terms, translated, is the oracle",
)
PARALLEL = True
BOUNDS = "3 items, 1-2 latent variables, 5 respondents with missing responses; 7 changes of scale (quick: 2 latent variables get 4 pairs of them); all option permutations of one item at a time and 7 of all, among them those that give all items the first or last option as the correct one; all 7 subsets of reversed items; fits of 3 epochs"
ASSUMPTIONS = ["prior means are zero, so EAP and MAP scores follow changes of direction and unit but not of origin, and without training scores only of direction", "group statistics of a reversed latent variable are in the reversed order",
               "bit scores are compared where the summed expected scores have the same direction before and after"]
FAMS = [("1PL", {}), ("2PL", {}), ("3PL", {}), ("GPC", {}), ("GRM", {}), ("NRM", {}), ("NRM", {"mc_correct": [1, 0, 2]}), ("POLY", {"separate": "items"}), ("POLY", {"separate": "categories"}),
        ("NEST", {"inner": "2PL", "incorrect_response_model": "nominal"}), ("NEST", {"inner": "3PL", "incorrect_response_model": "nominal"})]
CHANGES = [(1., 3.), (1., -2.5), (2., 0.), (0.4, 0.), (-1., 0.), (-1.6, 0.7), (0.5, -1.1)]
GRADIENTS = ("probability_gradients", "score_gradients", "information", "information test", "discrimination")
SCORES = ("EAP", "ML", "MAP", "transform")
TOL = {"ML": 5e-3, "MAP": 5e-3, "q3": 2e-3, "mutual information": 2e-3}


def rescale_parameters(m, a, c):
    """Gives m, in place, the parameters that have at a * theta + c the probabilities it had at theta."""
    a, c = torch.tensor(a), torch.tensor(c)
    with torch.no_grad():
        for x in m.modules():
            kind = type(x).__name__
            if kind == "OneParameterLogistic":
                require(float(a[0]) == 1, "harness")
                x.bias_param -= c[0]
            elif kind == "MonotonePolynomialModule":
                require(bool((a.abs() == 1).all() and (c == 0).all()), "harness")
                for d in range(len(a)):
                    x.alpha[:, d] *= a[d]
                    x.directions[d] *= a[d]
            elif hasattr(x, "free_weights") and hasattr(x, "weight_param"):
                W = torch.zeros(x.free_weights.shape)
                W[x.free_weights] = x.weight_param
                W = W / a
                delta = -(W @ c)
                x.weight_param.copy_(W[x.free_weights])
                if kind in ("TwoParameterLogistic", "ThreeParameterLogistic"):
                    x.bias_param += delta
                else:
                    K = x.max_item_responses
                    steps = {"GeneralizedPartialCredit": torch.arange(K).float(), "GradedResponse": torch.ones(K)}
                    full = delta if kind == "NominalResponse" else (delta[:, None] * steps[kind]).flatten()
                    x.bias_param += full[x.free_bias]
    return m


def twins(fam, o, lv, p=0, cats=None):
    cats = cats or O.cats_of(fam)
    with quiet():
        return [O.build(fam, lv, cats, o, p) for _ in range(2)]


def same_likelihood(m, d, want, got):
    """Scores of several latent variables stop anywhere along a flat direction of the likelihood: compare the likelihood they reach."""
    want, got = (m.evaluate.log_likelihood(d, torch.as_tensor(x, dtype=torch.float32), reduction="none", level="respondent") for x in (want, got))
    close(got, want, "likelihood of the ML scores", atol=3e-3)


def translated(name, axes, x, a, c):
    """What a query must answer after the change of scale, given the answer x before."""
    x = O.move(x, axes, {})
    a, c = torch.tensor(a, dtype=torch.double), torch.tensor(c, dtype=torch.double)
    if name == "ML":
        return [a * x[0] + c, a.abs() * x[1]]
    if name in SCORES:
        return a * x + c
    if name == "directions":
        return x * a.sign()
    if name in GRADIENTS:
        for k, axis in enumerate(axes):
            if axis == "l":
                x = x / a.view([-1 if j == k else 1 for j in range(x.dim())])
        return x
    if "@" in name and a[int(name.split("@")[1])] < 0:
        back = lambda u, ax: u.flip(0) if ax.startswith(".") and len(ax) > 1 else u
        l = int(name.split("@")[1])
        if name.startswith("group log"):
            return x.flip(0)
        u = [back(v, ax) for v, ax in zip(x, axes)]
        return u[:-1] + [(a[l] * x[-1] + c[l]).flip(0)]
    if "@" in name and not name.startswith("group log"):
        l = int(name.split("@")[1])
        return x[:-1] + [a[l] * x[-1] + c[l]]
    return x


def scale_change(ctx, fam, o, lv, a, c):
    from irtorch.rescale import Bit, RankCDF
    m, s = twins(fam, o, lv)
    rescale_parameters(s, a, c)
    A, C = torch.tensor(a), torch.tensor(c)
    t, d = O.sample(O.cats_of(fam), lv, 6)
    v = A * t + C
    O.with_training(m, t, d), O.with_training(s, v, d)
    desc = dict(family=fam, options=o, lv=lv, unit=list(a), origin=list(c))
    for name, (f, axes) in O.table(lv).items():
        if name in ("information directed",) or (name in ("EAP", "MAP") and any(c)):
            continue
        if name in ("residuals of training data", ) and any(c):                # uses EAP scores
            continue
        if name in ("ML", "MAP") and (fam not in O.SMOOTH or o or not (ctx.thorough or lv == 1 and fam in ("2PL", "GPC"))):
            continue
        with ctx.case("scale", query=name, **desc):
            torch.manual_seed(2)
            try:
                want = translated(name, axes, f(m, t, d), a, c)
            except NotImplementedError:
                continue
            torch.manual_seed(2)
            got = f(s, v, d)
            if name == "ML" and lv > 1:
                back = (torch.as_tensor(got[0]).double() - torch.tensor(c, dtype=torch.double)) / torch.tensor(a, dtype=torch.double)
                same_likelihood(m, d, f(m, t, d)[0], back)
                continue
            if name == "ML":
                keep = (O.move(f(m, t, d)[0], "rl", {}).abs() < 3).all(dim=1)
                want, got = [w[keep] for w in want], [torch.as_tensor(g)[keep] for g in got]
            if name.startswith("group residuals") and a[int(name[-1])] < 0:
                want, got = want[:1], got[:1]           # the median of two respondents is the lower one
            O.compare(got, want, name, TOL.get(name, 3e-4 if "@" in name else 1e-4))
            ctx.step(2)
            ctx.state(name, desc)
    if lv > 1:
        with ctx.case("directed information", **desc):
            deg = torch.tensor([35., 55.])
            I = m.information(t, item=False).double() / A.double()[:, None] / A.double()
            k = deg.deg2rad().cos().double()
            close(s.information(v, item=False, degrees=deg.tolist()).double(), torch.einsum("i,rij,j->r", k, I, k), "information", atol=1e-4, rtol=1e-3)
            ctx.step()
    with ctx.case("bits", **desc):
        start = torch.full((lv,), -1.9) * m_sign(m)
        if torch.equal(m_sign(s), m_sign(m) * A.sign()):
            for its in (None, [0, 2]):
                one, two = (Bit(x, population_theta=pop, start_theta=st, items=its, grid_points=25) for x, pop, st in ((m, t, start), (s, v, A * start + C)))
                close(two.transform(v), one.transform(t), f"bit scores of items {its}", atol=1e-4, rtol=1e-3)
                if lv > 1:
                    close(two.transform_to_1D(v), one.transform_to_1D(t), f"one-dimensional bit scores of items {its}", atol=1e-4, rtol=1e-3)
                else:
                    close(two.jacobian(v)[:, 0, 0], one.jacobian(t)[:, 0, 0] / A[0], "gradients of bit scores", atol=1e-4, rtol=1e-3)
                ctx.step()
            if not (fam == "NEST" or o.get("mc_correct")):
                # without population the grid is the same before and after, so that only reversals correspond
                for pop in (True, False)[:1 + (all(abs(x) == 1 for x in a) and not any(c))]:
                    one, two = (Bit(x, population_theta=y if pop else None, grid_points=25) for x, y in ((m, t), (s, v)))
                    close(two.transform(v), one.transform(t), "bit scores from the default start", atol=1e-4, rtol=1e-3)
                    ctx.step()
    with ctx.case("ranks", **desc):
        one, two = RankCDF(t).transform(t), RankCDF(v).transform(v)
        close(two, one * A.sign(), "rank scores", atol=1e-5)
        ctx.step()
    if fam != "1PL" and not any(c):
        with ctx.case("prior", **desc):
            cov = torch.tensor([[1.2, 0.3], [0.3, 0.9]])[:lv, :lv]
            if all(abs(x) == 1 for x in a):
                O.with_training(m, t, d, "MML", cov), O.with_training(s, v, d, "MML", cov * A[:, None] * A)
                for e, tol in (("EAP", 1e-4),) + ((("MAP", 5e-3),) if fam in ("2PL", "GPC") else ()):
                    kw = dict(eap_theta_integration_points=7) if e == "EAP" else {}
                    close(s.latent_scores(d, theta_estimation=e, **kw), m.latent_scores(d, theta_estimation=e, **kw) * A, f"{e} scores", atol=tol)
                    ctx.step()
    plots(ctx, desc, m, s, lv, a, c, t, v, d)


def m_sign(m):
    lv = m.latent_variables
    out = []
    for l in range(lv):
        pm = torch.eye(lv)[l] * torch.tensor([[-1.0], [1.0]])
        s = m.expected_scores(pm).sum(1)
        out.append(-1.0 if s[0] > s[1] else 1.0)
    return torch.tensor(out)


def plots(ctx, desc, m, s, lv, a, c, t, v, d):
    O.with_training(m, t[:5], d[:5]), O.with_training(s, v[:5], d[:5])
    for l in range(lv):
        lo, hi = sorted((a[l] * -1.7 + c[l], a[l] * 1.3 + c[l]))
        kw = dict(latent_variables=(l + 1,), steps=4)
        fixed = [{}] if lv == 1 else [{}, {"fixed_thetas": 1}]
        for fx in fixed:
            f1, f2 = {}, {}
            if fx:
                w = torch.tensor([0.7, -0.4])
                f1, f2 = {"fixed_thetas": w[[1 - l]]}, {"fixed_thetas": (torch.tensor(a) * w + torch.tensor(c))[[1 - l]]}
            for q in ("item_probabilities", "item_entropy", "expected_sum_score", "log_likelihood"):
                with ctx.case("plot", query=q, latent=l, fixed=bool(fx), **desc):
                    args = {"log_likelihood": (d[:1].nan_to_num(0).clamp(min=0),), "expected_sum_score": ()}.get(q, (2,))
                    x = getattr(m.plot, q)(*args, theta_range=(-1.7, 1.3), **kw, **f1)
                    y = getattr(s.plot, q)(*args, theta_range=(lo, hi), **kw, **f2)
                    require(len(x.data) == len(y.data) > 0, "numbers of curves")
                    for p, r in zip(x.data, y.data):
                        px, py, rx, ry = (torch.tensor([float(k) for k in z]) for z in (p.x, p.y, r.x, r.y))
                        if a[l] < 0:
                            rx, ry = rx.flip(0), ry.flip(0)
                        close(rx, a[l] * px + c[l], "positions", atol=1e-4)
                        close(ry, py, "curve", atol=2e-4, rtol=1e-3)
                    ctx.step()


def renamed_options(m, s, perms):
    """Gives s the parameters with which option perms[i][k] of item i has the probability option k has in m."""
    def logits(x):
        # full category logit weights and biases of a nominal model
        W, b = torch.zeros(x.free_weights.shape), torch.zeros(x.free_bias.shape)
        W[x.free_weights], b[x.free_bias] = x.weight_param, x.bias_param
        W, b = W.view(x.items, -1, x.latent_variables), b.view(x.items, -1)
        W[:, 0], b[:, 0] = -W[:, 1:].sum(1), -b[:, 1:].sum(1)
        return W, b

    def put(x, y, ps):
        W, b = logits(x)
        V, e = W.clone(), b.clone()
        for i, p in enumerate(ps):
            for k, j in enumerate(p):
                V[i, j], e[i, j] = W[i, k], b[i, k]
        y.weight_param.copy_(V.reshape(-1, x.latent_variables)[y.free_weights])
        y.bias_param.copy_(e.flatten()[y.free_bias])

    with torch.no_grad():
        if type(m).__name__ == "NominalResponse":
            put(m, s, perms)
            return s
        s.correct_response_model.load_state_dict(m.correct_response_model.state_dict())
        inner = []
        for i, p in enumerate(perms):
            old = [k for k in range(m.item_categories[i]) if k != m.mc_correct[i]]
            new = [k for k in range(m.item_categories[i]) if k != s.mc_correct[i]]
            inner.append([new.index(p[k]) for k in old])
        if m.incorrect_response_model == "nominal":
            put(m.nominal_response_model, s.nominal_response_model, inner)
        else:
            full = torch.zeros(m.spline_mask.shape)
            full[m.spline_mask] = m.coefficients
            out = full.clone()
            for i, p in enumerate(inner):
                for k, j in enumerate(p):
                    out[:, :, i, j] = full[:, :, i, k]
            s.coefficients.copy_(out[s.spline_mask])
    return s


def recode(d, perms):
    x = d.clone()
    for i, p in enumerate(perms):
        for k, j in enumerate(p):
            x[d[:, i] == k, i] = float(j)
    return x


INVARIANT = ("response_log_likelihoods", "log_likelihood", "EAP", "information", "information test", "accuracy all", "accuracy item", "accuracy respondent", "log_likelihood all", "log_likelihood item",
             "log_likelihood respondent", "log_likelihood none", "infit item", "infit respondent", "mutual information", "q3", "ML", "MAP", "predictions")
SCORED = ("expected_scores", "expected_scores sum", "score_gradients", "directions", "difficulty", "discrimination", "residuals none", "residuals items", "residuals respondents", "residuals everything",
          "residuals of training data", "sum scores of data")


def options(ctx, fam, o, lv, cats, perms):
    from irtorch.rescale import Bit
    key = [(i + 1) % k for i, k in enumerate(cats)]
    with quiet():
        m = B.build(fam, lv, cats, None, 0, **dict(o, mc_correct=key))
        s = B.build(fam, lv, cats, None, 1, **dict(o, mc_correct=[p[k] for p, k in zip(perms, key)]))
    renamed_options(m, s, perms)
    t, d = O.sample(cats, lv, 6)
    e = recode(d, perms)
    O.with_training(m, t, d), O.with_training(s, t, e)
    desc = dict(family=fam, options=o, lv=lv, names=[list(p) for p in perms])
    inv = [[list(p).index(k) for k in range(len(p))] for p in perms]
    for name, (f, axes) in O.table(lv).items():
        if name in ("ML", "MAP") and fam == "NEST":
            continue
        with ctx.case("options", query=name, **desc):
            if name in INVARIANT or name in SCORED:
                want = O.move(f(m, t, d), axes, {})
                got = f(s, t, e)
                if name == "ML":
                    keep = (want[0].abs() < 3).all(dim=1)
                    want, got = [w[keep] for w in want], [torch.as_tensor(g)[keep] for g in got]
                O.compare(got, want, name, TOL.get(name, 1e-4))
            elif name in ("item_probabilities", "probability_gradients"):
                x, y = f(m, t, d), f(s, t, e)
                for i, p in enumerate(inv):
                    close(y[:, i, :len(p)], x[:, i, p], f"{name} of item {i}", atol=1e-4)
            elif name.startswith("group probabilities") or name.startswith("group residuals"):
                for x, y in list(zip(f(m, t, d), f(s, t, e)))[:-1]:
                    for i, p in enumerate(inv):
                        close(y[:, i, :len(p)], x[:, i, p], f"{name} of item {i}", atol=3e-4)
            else:
                continue
            ctx.step(2)
            ctx.state(name, desc)
    with ctx.case("options: bits and plots", **desc):
        start = torch.full((lv,), -1.5) * m_sign(m)
        one, two = (Bit(x, population_theta=t, start_theta=start, grid_points=20) for x in (m, s))
        close(two.transform(t), one.transform(t), "bit scores", atol=1e-4)
        kw = dict(latent_variables=(1,), steps=4, theta_range=(-1.5, 1.5))
        for i, p in enumerate(perms):
            x, y = m.plot.item_probabilities(i + 1, **kw), s.plot.item_probabilities(i + 1, **kw)
            for k, j in enumerate(p):
                close(torch.tensor(list(y.data[j].y)).float(), torch.tensor(list(x.data[k].y)).float(), f"curve of option {k} of item {i}", atol=1e-4)
            close(torch.tensor(list(s.plot.item_entropy(i + 1, **kw).data[0].y)).float(), torch.tensor(list(m.plot.item_entropy(i + 1, **kw).data[0].y)).float(), "entropy", atol=1e-4)
        ctx.step(2)


def reverse_codes(m, flips):
    """Gives m, in place, the parameters with which score k of a flipped item has the probability score (categories - 1 - k) had."""
    with torch.no_grad():
        W = torch.zeros(m.free_weights.shape)
        W[m.free_weights] = m.weight_param
        kind = type(m).__name__
        for i, f in enumerate(flips):
            if f:
                W[i] = -W[i]
        m.weight_param.copy_(W[m.free_weights])
        if kind == "TwoParameterLogistic":
            m.bias_param *= torch.tensor([-1. if f else 1. for f in flips])
        else:
            b = torch.zeros(m.free_bias.shape)
            b[m.free_bias] = m.bias_param
            b = b.view(m.items, -1)
            n = b.clone()
            for i, (f, K) in enumerate(zip(flips, m.item_categories)):
                if f and kind == "GeneralizedPartialCredit":
                    n[i, :K] = b[i, :K].flip(0) - b[i, K - 1]
                elif f:
                    n[i, 1:K] = -b[i, 1:K].flip(0)
            m.bias_param.copy_(n.flatten()[m.free_bias])
    return m


def codes(ctx, fam, lv, flips):
    m, s = twins(fam, {}, lv)
    reverse_codes(s, flips)
    cats = O.cats_of(fam)
    perms = [list(range(k))[::-1] if f else list(range(k)) for k, f in zip(cats, flips)]
    t, d = O.sample(cats, lv, 6)
    e = recode(d, perms)
    O.with_training(m, t, d), O.with_training(s, t, e)
    desc = dict(family=fam, lv=lv, reversed=list(flips))
    sign = torch.tensor([-1. if f else 1. for f in flips], dtype=torch.double)
    top = torch.tensor([float(k - 1) if f else 0. for k, f in zip(cats, flips)], dtype=torch.double)
    for name, (f, axes) in O.table(lv).items():
        if name in ("ML", "MAP") and not (ctx.thorough or all(flips)):
            continue
        with ctx.case("codes", query=name, **desc):
            if name in INVARIANT and name not in ("q3",):
                want, got = O.move(f(m, t, d), axes, {}), f(s, t, e)
                if name == "ML" and lv > 1:
                    same_likelihood(m, d, want[0], got[0])
                    continue
                if name == "ML":
                    keep = (want[0].abs() < 3).all(dim=1)
                    want, got = [w[keep] for w in want], [torch.as_tensor(g)[keep] for g in got]
                O.compare(got, want, name, TOL.get(name, 1e-4))
            elif name == "q3":
                O.compare(f(s, t, e), O.move(f(m, t, d), axes, {}) * sign[:, None] * sign, name, 2e-3)
            elif name == "expected_scores":
                O.compare(f(s, t, e), f(m, t, d).double() * sign + top, name, 1e-4)
            elif name in ("score_gradients", "directions", "residuals none", "residuals respondents", "discrimination"):
                x = O.move(f(m, t, d), axes, {})
                O.compare(f(s, t, e), x * sign.view([-1 if ax == "i" else 1 for ax in axes]), name, 1e-4)
            elif name in ("item_probabilities", "probability_gradients"):
                x, y = f(m, t, d), f(s, t, e)
                for i, p in enumerate(perms):
                    close(y[:, i, :len(p)], x[:, i, p], f"{name} of item {i}", atol=1e-4)
            elif name.startswith("group probabilities") or name.startswith("group residuals"):
                for x, y in list(zip(f(m, t, d), f(s, t, e)))[:-1]:
                    for i, p in enumerate(perms):
                        close(y[:, i, :len(p)], x[:, i, p], f"{name} of item {i}", atol=3e-4)
            else:
                continue
            ctx.step(2)
            ctx.state(name, desc)
    fits(ctx, "codes", fam, lv, lambda: twins(fam, {}, lv)[0], lambda: reverse_codes(twins(fam, {}, lv)[0], flips), d, e, [1.] * lv, perms, fam != "GPC", desc)


def fits(ctx, label, fam, lv, one, two, d, e, a, perms, ok, desc):
    """Fits from corresponding starts."""
    from irtorch.estimation_algorithms import JML, MML
    if not ok:
        return
    A = torch.tensor(a)
    t = O.sample([2, 2], lv, len(d))[0]
    cov = torch.tensor([[1.1, 0.4], [0.4, 0.8]])[:lv, :lv]
    runs = [("quasi_mc", MML, dict(integration_method="quasi_mc", quadrature_points=5)), ("gauss_hermite", MML, dict(integration_method="gauss_hermite", quadrature_points=4)), ("joint", JML, {})]
    for name, make, kw in runs:
        with ctx.case(f"{label}: fit", algorithm=name, **desc):
            out = []
            for build, data, sgn in ((one, d, torch.ones(lv)), (two, e, A)):
                m, g = build(), make()
                extra = dict(start_thetas=t * sgn) if name == "joint" else dict(covariance_matrix=cov * sgn[:, None] * sgn if name == "quasi_mc" or lv == 1 else torch.diag(cov.diag()))
                torch.manual_seed(3)
                with quiet():
                    m.fit(data, algorithm=g, max_epochs=3, learning_rate=0.03, device="cpu", **kw, **extra)
                out.append((m, g))
            (m, g), (s, h) = out
            close(torch.tensor([float(x) for x in h.training_history["train_loss"]]), torch.tensor([float(x) for x in g.training_history["train_loss"]]), "losses", atol=1e-3, rtol=1e-4)
            P, Q = m.item_probabilities(t), s.item_probabilities(t * A)
            for i, p in enumerate(perms):
                q = [list(p).index(k) for k in range(len(p))]
                close(Q[:, i, :len(p)], P[:, i, q], f"fitted item {i}", atol=5e-4)
            if name == "joint":
                close(h.training_theta_scores, g.training_theta_scores * A, "fitted scores", atol=1e-3)
            ctx.step(2)


def run(ctx):
    jobs = []
    for fam, o in FAMS:
        for lv in (1, 2):
            if lv == 2 and fam == "1PL":
                continue
            pairs = [((a,), (c,)) for a, c in CHANGES] if lv == 1 else [((a[0], b[0]), (a[1], b[1])) for a, b in (itertools.product(CHANGES, repeat=2) if ctx.thorough else
                                                                          [(CHANGES[4], (1., 0.)), ((1., 0.), CHANGES[4]), (CHANGES[4], CHANGES[4]), (CHANGES[5], CHANGES[0]), (CHANGES[2], CHANGES[4])])]
            for a, c in pairs:
                if fam == "1PL" and a[0] != 1 or fam == "POLY" and (any(abs(x) != 1 for x in a) or any(c)):
                    continue
                jobs.append(("scale", fam, o, lv, a, c))
    cats = [4, 2, 3]
    orders = [list(itertools.permutations(range(k))) for k in cats]
    names = [tuple(p if j == i else tuple(range(cats[j])) for j in range(3)) for i in range(3) for p in orders[i][1:]]
    names += [((3, 0, 1, 2), (0, 1), (0, 2, 1)), ((0, 3, 1, 2), (1, 0), (2, 0, 1)), ((1, 2, 3, 0), (1, 0), (2, 0, 1)), ((3, 2, 1, 0), (1, 0), (2, 1, 0)), ((2, 0, 3, 1), (0, 1), (1, 2, 0)), ((0, 2, 1, 3), (1, 0), (0, 2, 1)), ((1, 0, 3, 2), (1, 0), (1, 0, 2))]
    for fam, o in (("NRM", {}), ("NEST", {"inner": "2PL", "incorrect_response_model": "nominal"}), ("NEST", {"inner": "3PL", "incorrect_response_model": "bspline"})):
        for lv in (1, 2):
            jobs += [("options", fam, o, lv, p, None) for k, p in enumerate(names) if ctx.thorough or lv == 1 or k >= len(names) - 7]
    for fam in ("2PL", "GPC", "GRM"):
        for lv in (1, 2):
            jobs += [("codes", fam, {}, lv, f, None) for f in itertools.product([False, True], repeat=3) if any(f)]
    for kind, fam, o, lv, x, c in ctx.each(jobs):
        if kind == "scale":
            scale_change(ctx, fam, o, lv, x, c)
            if all(abs(v) == 1 for v in x) and not any(c) and fam in ("2PL", "3PL", "GPC", "GRM", "NRM", "POLY"):
                d = O.sample(O.cats_of(fam), lv, 6)[1]
                fits(ctx, "scale", fam, lv, lambda: twins(fam, o, lv)[0], lambda: rescale_parameters(twins(fam, o, lv)[0], x, c), d, d, x, [range(k) for k in O.cats_of(fam)], True,
                     dict(family=fam, options=o, lv=lv, unit=list(x)))
        elif kind == "options":
            options(ctx, fam, o, lv, cats, x)
        else:
            codes(ctx, fam, lv, x)
