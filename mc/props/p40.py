"""P40: a test whose items each depend on one latent variable is several one-dimensional tests side by side."""
import itertools
import math
import torch
from mc.core import close, require
from mc import kinds as K
from mc import models as B
from mc import scales as S

META = dict(
    title="Separate latent variables give what separate one-dimensional tests give",
    statement="When every item depends on only one of the latent variables, all answers are those of the one-dimensional tests formed by the items of each latent variable: probabilities, gradients, "
              "information, ML, MAP and EAP scores, standard errors, bit scores, fit measures, plots, losses and fitted parameters. A latent variable no item depends on changes nothing else, whatever "
              "the number and order of the latent variables.",
    over=["inputs", "configurations"],
    quant="every assignment of 3 items to 1-3 latent variables (and selected ones of 4 items to 4) x all families with relationship masks and their mixes x all queries and fits",
    why="Tests of models with several latent variables check shapes; three or more, or unused, latent variables are hardly ever run.",
    files=["irtorch/models/base_irt_model.py", "irtorch/models/model_mix.py", "irtorch/estimation_algorithms/mml.py", "irtorch/estimation_algorithms/jml.py", "irtorch/rescale/bit.py",
           "irtorch/evaluator.py", "irtorch/plotter.py"],
    mech=[("dimensions", "forward, _eap_theta_scores, _ml_map_theta_scores, _theta_grid"), ("quadrature grids", "MML._quasi_mc, gauss_hermite"), ("one latent variable at a time", "Bit, plots")],
    technique="exhaustive enumeration of item-to-latent assignments on the real code; the one-dimensional model of the same items, with the other items' responses missing, is the oracle",
)
PARALLEL = True
BOUNDS = "3 items x 1-3 latent variables: all 39 assignments (quick: a third of them for all but two families); 4 items x 4 latent variables: 4 (thorough 24) assignments; 12 families and mixes; 2-3 epochs; 5 points per latent variable"
ASSUMPTIONS = ["models without relationship masks are not included", "prior and training scores with independent latent variables", "ML scores of a latent variable without observed responses are not determined"]
NAN = float("nan")
FAMS = [("2PL", [2, 2, 2], {}), ("GPC", [3, 2, 4], {}), ("GRM", [3, 2, 4], {}), ("NRM", [3, 2, 4], {}), ("NRM", [3, 2, 4], {"mc_correct": [1, 0, 2]}), ("3PL", [2, 2, 2], {}), ("SUR", [3, 2, 4], {}),
        ("POLY", [3, 2, 4], {"separate": "items"}), ("POLY", [3, 2, 4], {"separate": "categories"}), ("NEST", [3, 4, 3], {"inner": "2PL"}), ("NEST", [3, 4, 3], {"inner": "3PL", "incorrect_response_model": "bspline"}),
        ("MIX", [3, 2, 2], {})]
CONCAVE = ("2PL", "GPC", "GRM")


def model(fam, cats, o, lv, mask):
    if fam == "MIX":
        return B.build("MIX", lv, [], parts=[dict(family="GPC", lv=lv, cats=cats[:1], mask=mask and mask[:1]), dict(family="2PL", lv=lv, cats=cats[1:], mask=mask and mask[1:])])
    return B.build(fam, lv, cats, mask, **o)


def transfer(m, u, a, items=None):
    """Gives the one-dimensional model u the parameters of m, in which item i depends on latent variable a[i]."""
    if hasattr(m, "models"):
        k = 0
        for x, y in zip(m.models, u.models):
            transfer(x, y, a[k:k + x.items])
            k += x.items
        return
    done = set()
    mods = dict(u.named_modules())
    with torch.no_grad():
        for name, x in m.named_modules():
            y = mods[name]
            if hasattr(x, "omega"):
                per = x.output_dim // len(a)
                owner = [a[k // per] for k in range(x.output_dim)]
                for p in ("omega", "alpha", "tau"):
                    for k, d in enumerate(owner):
                        getattr(y, p)[:, 0, k] = getattr(x, p)[:, d, k]
                    done.add(f"{name}.{p}")
                if x.negative_relationships:
                    for k, d in enumerate(a):
                        y.directions[0, k] = x.directions[d, k]
                    done.add(f"{name}.directions")
            if hasattr(x, "coefficients") and hasattr(x, "spline_mask"):
                full = torch.zeros(x.spline_mask.shape)
                full[x.spline_mask] = x.coefficients
                y.coefficients.copy_(full.sum(0, keepdim=True)[y.spline_mask])
                done.add((name + "." if name else "") + "coefficients")
        q = dict(u.named_parameters())
        for name, p in m.named_parameters():
            if name not in done:
                require(p.shape == q[name].shape, f"harness: parameter {name}")
                q[name].copy_(p)


def side_by_side(fam, cats, o, lv, a):
    mask = [[a[i] == d for d in range(lv)] for i in range(len(a))]
    m = model(fam, cats, o, lv, mask)
    u = model(fam, cats, o, 1, None)
    transfer(m, u, a)
    return m, u


def thetas(lv, n=5):
    return torch.tensor([[1.4 * math.sin(1.3 * i + 2.1 * d + 0.3) + 0.1 * d for d in range(lv)] for i in range(n)])


def data_for(cats, n=6):
    x = torch.tensor([[float((i * (j + 2) + i // 3 + j) % c) for j, c in enumerate(cats)] for i in range(n)])
    x[1, 0] = NAN
    x[2, len(cats) - 1] = -1
    return x


def only(data, a, d):
    x = data.clone()
    for i, b in enumerate(a):
        if b != d:
            x[:, i] = NAN
    return x


def answers(ctx, fam, m, u, a, lv, cats):
    th = thetas(lv)
    P = m.item_probabilities(th)
    own = [u.item_probabilities(th[:, d:d + 1]) for d in range(lv)]
    for i, d in enumerate(a):
        close(P[:, i], own[d][:, i], f"probabilities of item {i}", atol=1e-5)
    E = m.expected_scores(th)
    G, PG = m.expected_item_score_gradients(th), m.probability_gradients(th)
    I = m.information(th, item=True)
    T = m.information(th, item=False)
    for i, d in enumerate(a):
        t = th[:, d:d + 1]
        close(E[:, i], u.expected_scores(t)[:, i], f"expected score of item {i}", atol=1e-5)
        for e in range(lv):
            close(G[:, i, e], u.expected_item_score_gradients(t)[:, i, 0] if e == d else torch.zeros(len(th)), f"gradient of item {i} along latent variable {e}", atol=1e-4)
            close(PG[:, i, :, e], u.probability_gradients(t)[:, i, :, 0] if e == d else torch.zeros(PG.shape[0], PG.shape[2]), f"probability gradients of item {i} along {e}", atol=1e-4)
            for f in range(lv):
                close(I[:, i, e, f], u.information(t, item=True)[:, i, 0, 0] if e == f == d else torch.zeros(len(th)), f"information of item {i} at {e}, {f}", atol=1e-4)
    per = torch.stack([sum((u.information(th[:, d:d + 1], item=True)[:, i, 0, 0] for i in range(len(a)) if a[i] == d), torch.zeros(len(th))) for d in range(lv)], 1)
    close(T, torch.diag_embed(per), "test information", atol=1e-4)
    if lv > 1:
        for deg in ([0] + [90] * (lv - 1), [90] * (lv - 1) + [0], [30 + 15 * k for k in range(lv)]):
            c = torch.tensor(deg).float().deg2rad().cos()
            close(m.information(th, item=False, degrees=deg), (per * c ** 2).sum(1), f"information in direction {deg}", atol=1e-4)
    dif, dis = m.population_difficulty(th), m.population_discrimination(th)
    for i, d in enumerate(a):
        close(dif[i], u.population_difficulty(th[:, d:d + 1])[i], f"difficulty of item {i}", atol=1e-5)
        close(dis[i, d], u.population_discrimination(th[:, d:d + 1])[i, 0], f"discrimination of item {i}", atol=1e-5)
    ctx.step(3)


def scores(ctx, fam, m, u, a, lv, cats, heavy):
    from irtorch.estimation_algorithms import MML
    data = data_for(cats)
    var = [0.7 + 0.3 * d for d in range(lv)]
    m.algorithm, u.algorithm = MML(), MML()
    m.algorithm.covariance_matrix = torch.diag(torch.tensor(var))
    eap = m.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=5)
    for d in range(lv):
        u.algorithm.covariance_matrix = torch.tensor([[var[d]]])
        close(eap[:, d:d + 1], u.latent_scores(only(data, a, d), theta_estimation="EAP", eap_theta_integration_points=5), f"EAP scores of latent variable {d}", atol=1e-4)
    ctx.step()
    if not heavy:
        # the grid and the prior from training scores that are uncorrelated: all combinations of three values of each
        train = torch.cartesian_prod(*[torch.tensor([-1.2, 0.3, 1.5]) * (1 + 0.2 * d) + 0.3 * d for d in range(lv)]).view(-1, lv)
        m.algorithm.training_theta_scores = train
        eap = m.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=4)
        for d in range(lv):
            u.algorithm.training_theta_scores = train[:, d:d + 1]
            close(eap[:, d:d + 1], u.latent_scores(only(data, a, d), theta_estimation="EAP", eap_theta_integration_points=4), f"EAP scores of latent variable {d} with training scores", atol=1e-4)
        ctx.step()
    if heavy:
        got = m.latent_scores(data, theta_estimation="MAP")
        for d in range(lv):
            u.algorithm.covariance_matrix = torch.tensor([[var[d]]])
            close(got[:, d:d + 1], u.latent_scores(only(data, a, d), theta_estimation="MAP"), f"MAP scores of latent variable {d}", atol=5e-3)
        ctx.step()
        # one response pattern with a maximum along each latent variable
        inner = torch.tensor([[float(i % 2) * (c - 1) for i, c in enumerate(cats)], [float((i + 1) % 2) * (c - 1) for i, c in enumerate(cats)]])
        got, se = m.latent_scores(inner, theta_estimation="ML", standard_errors=True)
        for d in range(lv):
            mine = [i for i in range(len(a)) if a[i] == d]
            if not mine:
                require(bool(got[:, d].isfinite().all()), f"ML scores of latent variable {d}, which no item depends on, are not finite")
                continue
            w, s = u.latent_scores(only(inner, a, d), theta_estimation="ML", standard_errors=True)
            if bool((w.abs() < 3).all()) and bool((got[:, d].abs() < 3).all()):
                close(got[:, d:d + 1], w, f"ML scores of latent variable {d}", atol=1e-2)
            info = sum(u.information(got[:, d:d + 1], item=True)[:, i, 0, 0] for i in mine)
            close(se[:, d], 1 / info.sqrt(), f"standard errors of latent variable {d}", atol=1e-3, rtol=1e-3)
        ctx.step()


def measures(ctx, fam, m, u, a, lv, cats):
    th, data = thetas(lv, 7), data_for(cats, 7)
    e, f = m.evaluate, u.evaluate
    R, L = e.residuals(data, th), e.log_likelihood(data, th, reduction="none")
    inf, out = e.infit_outfit(data, th, level="item")
    pr = e.predictions(data, th)
    items = {d: [i for i in range(len(a)) if a[i] == d] for d in range(lv)}
    for d, ix in items.items():
        if not ix:
            continue
        t = th[:, d:d + 1]
        close(R[:, ix], f.residuals(data, t)[:, ix], f"residuals of the items of latent variable {d}", atol=1e-5)
        close(L[:, ix], f.log_likelihood(data, t, reduction="none")[:, ix], f"log-likelihoods of the items of {d}", atol=1e-4)
        i2, o2 = f.infit_outfit(data, t, level="item")
        close(inf[ix], i2[ix], f"infit of the items of {d}", atol=1e-4)
        close(out[ix], o2[ix], f"outfit of the items of {d}", atol=1e-4)
        close(torch.tensor(pr.values[ix]).float(), torch.tensor(f.predictions(data, t).values[ix]).float(), f"predictions of the items of {d}", atol=1e-5)
        for g in (1, 3):
            x, y = e.latent_group_probabilities(data, th, latent_variable=d + 1, groups=g), f.latent_group_probabilities(data, t, groups=g)
            close(x[0], y[0], f"observed proportions of {g} groups by latent variable {d}", atol=1e-5)
            close(x[1][:, ix], y[1][:, ix], f"model proportions of {g} groups by latent variable {d}", atol=1e-5)
            close(x[2], y[2], f"mid points of {g} groups by latent variable {d}", atol=1e-5)
    total = sum(f.log_likelihood(only(data, a, d), th[:, d:d + 1], reduction="sum") for d in range(lv))
    close(e.log_likelihood(data, th, reduction="sum"), total, "log-likelihood", atol=1e-3)
    ctx.step(2)


def bits(ctx, fam, m, u, a, lv, cats):
    from irtorch.rescale import Bit
    if fam in ("NEST",) or getattr(m, "mc_correct", None):
        return
    th, pop = thetas(lv), thetas(lv, 9) * 1.2
    start = torch.full((lv,), -2.5)
    got = Bit(m, population_theta=pop, start_theta=start, grid_points=40).transform(th)
    for d in range(lv):
        ix = [i for i in range(len(a)) if a[i] == d]
        if ix:
            want = Bit(u, population_theta=pop[:, d:d + 1], start_theta=start[:1], items=ix, grid_points=40).transform(th[:, d:d + 1])
            # the direction of a latent variable is that of its own items, but u's is that of all items
            pm = torch.eye(lv)[d] * torch.tensor([[-1.0], [1.0]])
            m_dir, u_dir = m.expected_scores(pm).sum(1).diff(), u.expected_scores(pm[:, d:d + 1]).sum(1).diff()
            if (m_dir > 0) == (u_dir > 0):
                close(got[:, d:d + 1], want, f"bit scores of latent variable {d}", atol=1e-3)
        else:
            close(got[:, d], torch.zeros(len(th)), f"bit scores of latent variable {d}, which no item depends on", atol=1e-3)
    ctx.step()


def plots(ctx, fam, m, u, a, lv, cats):
    for i, d in enumerate(a):
        o = dict(theta_range=(-2, 2), steps=5)
        for q in ("item_probabilities", "item_entropy", "expected_sum_score"):
            if q == "expected_sum_score":
                x, y = m.plot.expected_sum_score(items=[i + 1], latent_variables=(d + 1,), **o), u.plot.expected_sum_score(items=[i + 1], **o)
            elif q == "item_entropy":
                x, y = m.plot.item_entropy(i + 1, latent_variables=(d + 1,), **o), u.plot.item_entropy(i + 1, **o)
            else:
                x, y = m.plot.item_probabilities(i + 1, latent_variables=(d + 1,), **o), u.plot.item_probabilities(i + 1, **o)
            require(len(x.data) == len(y.data), f"{q} of item {i}: {len(x.data)} curves instead of {len(y.data)}")
            for s, t in zip(x.data, y.data):
                close(torch.tensor(list(s.x)).float(), torch.tensor(list(t.x)).float(), f"{q} of item {i}: positions", atol=1e-5)
                close(torch.tensor(list(s.y)).float(), torch.tensor(list(t.y)).float(), f"{q} of item {i} along latent variable {d}", atol=1e-4)
    ctx.step()


def strictly_falling(algorithm):
    x = [float(v) for v in algorithm.training_history["train_loss"]]
    return all(q < p - 1e-6 for p, q in zip(x, x[1:]))


def fits(ctx, fam, cats, o, lv, a):
    from irtorch.estimation_algorithms import JML, MML
    data = data_for(cats, 6)
    runs = [("quasi_mc", lambda: MML(), dict(integration_method="quasi_mc", quadrature_points=5)), ("gauss_hermite", lambda: MML(), dict(integration_method="gauss_hermite", quadrature_points=4)), ("joint", lambda: JML(), {})]
    th = thetas(lv, 6)
    for name, make, kw in runs:
        m, u = side_by_side(fam, cats, o, lv, a)
        g = make()
        extra = dict(start_thetas=th.clone()) if name == "joint" else dict(covariance_matrix=torch.diag(torch.tensor([0.8 + 0.2 * d for d in range(lv)])))
        m.fit(data, algorithm=g, max_epochs=3, learning_rate=0.02, device="cpu", **kw, **extra)
        total, falling = torch.zeros(len(g.training_history["train_loss"])), strictly_falling(g)
        got = model(fam, cats, o, 1, None)
        transfer(m, got, a)
        probe = torch.linspace(-2, 2, 5).unsqueeze(1)
        for d in range(lv):
            _, v = side_by_side(fam, cats, o, lv, a)
            b = make()
            extra = dict(start_thetas=th[:, d:d + 1].clone()) if name == "joint" else dict(covariance_matrix=torch.tensor([[0.8 + 0.2 * d]]))
            v.fit(only(data, a, d), algorithm=b, max_epochs=3, learning_rate=0.02, device="cpu", **kw, **extra)
            total += torch.tensor([float(x) for x in b.training_history["train_loss"]])
            ix = [i for i in range(len(a)) if a[i] == d]
            # each fit keeps its best epoch, which is the last one of all of them when all losses fall
            if ix and falling and strictly_falling(b):
                ctx.step()
                close(got.item_probabilities(probe)[:, ix], v.item_probabilities(probe)[:, ix], f"{name}: fitted items of latent variable {d}", atol=2e-4)
                if name == "joint":
                    close(g.training_theta_scores[:, d:d + 1], b.training_theta_scores, f"{name}: scores of latent variable {d}", atol=1e-3)
        close(torch.tensor([float(x) for x in g.training_history["train_loss"]]), total, f"{name}: losses", atol=1e-3, rtol=1e-4)
        ctx.step()


def run(ctx):
    jobs = []
    for k, (fam, cats, o) in enumerate(FAMS):
        n = 0
        for lv in (1, 2, 3):
            for a in itertools.product(range(lv), repeat=3):
                n += 1
                if ctx.thorough or fam in ("2PL",) or (n + k) % 3 == 0:
                    jobs.append((fam, cats, o, lv, list(a), ctx.thorough or (fam in CONCAVE and (n + k) % 3 == 0)))
        if fam in ("2PL", "GPC"):
            four = [(0, 1, 2, 3), (3, 1, 0, 2), (2, 2, 0, 3), (1, 1, 1, 1)] if not ctx.thorough else list(itertools.permutations(range(4)))
            jobs += [(fam, cats + [2], o, 4, list(a), False) for a in four]
    for fam, cats, o, lv, a, heavy in ctx.each(jobs):
        desc = dict(family=fam, options=o, lv=lv, assignment=a)
        with ctx.case("answers", **desc):
            answers(ctx, fam, *side_by_side(fam, cats, o, lv, a), a, lv, cats)
        with ctx.case("scores", **desc):
            scores(ctx, fam, *side_by_side(fam, cats, o, lv, a), a, lv, cats, heavy and fam in CONCAVE)
        with ctx.case("measures", **desc):
            measures(ctx, fam, *side_by_side(fam, cats, o, lv, a), a, lv, cats)
        with ctx.case("bits", **desc):
            bits(ctx, fam, *side_by_side(fam, cats, o, lv, a), a, lv, cats)
        with ctx.case("plots", **desc):
            plots(ctx, fam, *side_by_side(fam, cats, o, lv, a), a, lv, cats)
        if len(a) == 3 and (lv > 1) and (ctx.thorough or fam == "2PL" or lv == 3):
            with ctx.case("fits", **desc):
                fits(ctx, fam, cats, o, lv, a)
        ctx.state(fam, o, lv, a)
