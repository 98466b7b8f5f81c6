"""P34: respondents, items and latent variables in another order give the same answers in that order."""
import itertools
import math
import torch
from mc.core import close, require, quiet
from mc import kinds as K
from mc import models as B

NAN = float("nan")
META = dict(
    title="The order of respondents, items and latent variables carries no meaning",
    statement="Numbering the respondents, the items or the latent variables in another order (data, latent vectors, parameters and training data alike) gives the same answers in that order: "
              "probabilities, scores, gradients, information, latent scores and fit statistics move with their respondent, item or latent variable, and totals, averages, groups, sum score "
              "distributions and losses stay the same. Full-batch fits from correspondingly ordered starts end in correspondingly ordered estimates.",
    over=["inputs", "configurations"],
    quant="all families and options, every order of 3 items with different numbers of categories, of 2-3 latent variables and of 4 respondents x every score, evaluation and full-batch fit",
    why="Tests use one order of items and mostly equal numbers of categories; an index taken from the wrong item, respondent or latent variable shows only when they are told apart.",
    files=["irtorch/models/base_irt_model.py", "irtorch/evaluator.py", "irtorch/estimation_algorithms/jml.py", "irtorch/estimation_algorithms/mml.py", "irtorch/_internal_utils.py", "irtorch/rescale/bit.py"],
    mech=[("item axis", "forward, expected_scores, information"), ("respondent axis", "Evaluator, latent_scores"), ("latent axis", "probability_gradients, _theta_grid")],
    technique="exhaustive enumeration of all orders x all families x all queries on the real code, each answer compared with the reordered answer for the original order",
)
PARALLEL = True
BOUNDS = "3 items of 4, 2 and 3 categories (all 6 orders), 2 latent variables (thorough: 3, all 6 orders), 4 respondents (all 24 orders) with missing responses; 20 families and options; fits of 3 full-batch epochs"
ASSUMPTIONS = ["which parameters belong to an item or latent variable is found by changing each of them and looking at the probabilities",
               "polynomial and neural families are only reordered over items and respondents"]
WEIGHTS = ("2PL", "3PL", "GPC", "GRM", "NRM")


def cats_of(fam):
    return [2, 2, 2] if fam in B.BINARY else [4, 3, 5] if fam == "NEST" else [4, 2, 3]


def owners(m, probes, axis):
    """For every parameter, for every element: the set of items (axis "i") whose probabilities change with it, or the probes (axis "l") at which any does."""
    out = {}
    with torch.no_grad():
        base = [m.item_probabilities(t) for t in probes]
        for n, p in m.named_parameters():
            own = []
            f = p.view(-1)
            for j in range(f.numel()):
                was = f[j].item()
                hit = set()
                for step in (0.7, -0.7, 3.):
                    f[j] = was + step
                    for k, (t, b) in enumerate(zip(probes, base)):
                        diff = (m.item_probabilities(t) - b).abs().amax(dim=(0, 2)) > 0
                        hit |= {i for i in range(len(diff)) if diff[i]} if axis == "i" else {k} if diff.any() else set()
                    if hit:
                        break
                f[j] = was
                own.append(frozenset(hit))
            out[n] = own
    return out


def reordered_items(m, fresh, perm):
    """fresh with item j carrying the parameters of item perm[j] of m."""
    lv = m.latent_variables
    probes = [torch.tensor([[1.1 * math.sin(1 + 2 * i + d) for d in range(lv)] for i in range(6)] + [[-6.] * lv, [6.] * lv, [3.] * lv])]
    a, b = owners(m, probes, "i"), owners(fresh, probes, "i")
    with torch.no_grad():
        for (n, p), q in zip(fresh.named_parameters(), m.parameters()):
            new, old = p.view(-1), q.view(-1)
            for j in range(len(perm)):
                src = [k for k, o in enumerate(a[n]) if o == {perm[j]}]
                dst = [k for k, o in enumerate(b[n]) if o == {j}]
                require(len(src) == len(dst), f"item {j} depends on {len(dst)} elements of {n}, the same item elsewhere on {len(src)}")
                for s, d in zip(src, dst):
                    new[d] = old[s]
    return fresh


def reordered_latents(m, fresh, perm):
    lv = m.latent_variables
    probes = [torch.zeros(1, lv)] + [torch.tensor([[1.3 * (k == d) for d in range(lv)], [-.9 * (k == d) for d in range(lv)]]) for k in range(lv)]
    own = owners(m, probes, "l")
    items = owners(m, [torch.tensor([[1.1 * math.sin(1 + 2 * i + d) for d in range(lv)] for i in range(6)] + [[-6.] * lv, [6.] * lv, [3.] * lv])], "i")
    with torch.no_grad():
        for (n, p), q in zip(fresh.named_parameters(), m.parameters()):
            new, old = p.view(-1), q.view(-1)
            for i in range(m.items):
                idx = [[k for k, o in enumerate(own[n]) if o == {l + 1} and items[n][k] == {i}] for l in range(lv)]
                rest = [k for k, o in enumerate(own[n]) if 0 in o and items[n][k] == {i}]
                for j in range(lv):
                    require(len(idx[j]) == len(idx[perm[j]]), f"numbers of weights of item {i} in {n}")
                    for s, d in zip(idx[perm[j]], idx[j]):
                        new[d] = old[s]
                for k in rest:
                    new[k] = old[k]
    return fresh


def df(x):
    return torch.tensor(x.to_numpy(dtype=float))


def table(lv):
    """name -> (function of model, latent vectors and data; axes of each result: r respondents, i items, l latent variables, . others)"""
    e = {"theta_estimation": "EAP", "eap_theta_integration_points": 9 if lv == 1 else 6}
    q = {
        "item_probabilities": (lambda m, t, d: m.item_probabilities(t), "ri."),
        "expected_scores": (lambda m, t, d: m.expected_scores(t), "ri"),
        "expected_scores sum": (lambda m, t, d: m.expected_scores(t, return_item_scores=False), "r"),
        "probability_gradients": (lambda m, t, d: m.probability_gradients(t), "ri.l"),
        "score_gradients": (lambda m, t, d: m.expected_item_score_gradients(t), "ril"),
        "information": (lambda m, t, d: m.information(t), "rill"),
        "information test": (lambda m, t, d: m.information(t, item=False), "rll"),
        "directions": (lambda m, t, d: m.item_theta_relationship_directions(t), "il"),
        "difficulty": (lambda m, t, d: m.population_difficulty(t), "i"),
        "discrimination": (lambda m, t, d: m.population_discrimination(t), "il"),
        "response_log_likelihoods": (lambda m, t, d: m.response_log_likelihoods(d, m(t), d.isnan() | (d == -1)), "ri"),
        "log_likelihood": (lambda m, t, d: m.log_likelihood(d, m(t), d.isnan() | (d == -1)), ""),
        "EAP": (lambda m, t, d: m.latent_scores(d, theta_estimation="EAP", eap_theta_integration_points=9 if lv == 1 else 6), "rl"),
        "transform": (lambda m, t, d: m.transform_theta(t), "rl"),
        "jacobian": (lambda m, t, d: m.theta_transform_jacobian(t), "rll"),
    }
    if lv > 1:
        q["information directed"] = (lambda m, t, d: m.information(t, degrees=[45] * lv if lv == 2 else [54.7356] * lv), "ri")
    for avg, ax in (("none", "ri"), ("items", "r"), ("respondents", "i"), ("everything", "")):
        q[f"residuals {avg}"] = (lambda m, t, d, avg=avg: m.evaluate.residuals(d, t, average_over=avg), ax)
    q["residuals of training data"] = (lambda m, t, d: m.evaluate.residuals(**e), "Ri")
    for lev, ax in (("all", ""), ("item", "i"), ("respondent", "r")):
        q[f"accuracy {lev}"] = (lambda m, t, d, lev=lev: m.evaluate.accuracy(d, t, level=lev), ax)
        q[f"log_likelihood {lev}"] = (lambda m, t, d, lev=lev: m.evaluate.log_likelihood(d, t, level=lev), ax)
    q["log_likelihood none"] = (lambda m, t, d: m.evaluate.log_likelihood(d, t, reduction="none"), "ri")
    q["predictions"] = (lambda m, t, d: df(m.evaluate.predictions(d, t)), "i.")
    q["infit item"] = (lambda m, t, d: m.evaluate.infit_outfit(d, t), ("i", "i"))
    q["infit respondent"] = (lambda m, t, d: m.evaluate.infit_outfit(d, t, level="respondent"), ("r", "r"))
    q["mutual information"] = (lambda m, t, d: tuple(df(x) for x in m.evaluate.mutual_information_difference(d, t)[:2]), ("ii", "ii"))
    q["q3"] = (lambda m, t, d: df(m.evaluate.q3(d, t)[0]), "ii")
    q["sum scores of data"] = (lambda m, t, d: m.evaluate.sum_score_probabilities("data"), ".")
    for l in range(lv):
        # the latent variable is named by its number: "@" marks queries about one
        q[f"group log-likelihoods@{l}"] = (lambda m, t, d, l=l: m.evaluate.group_fit_log_likelihood(d, t, groups=2, latent_variable=l + 1), ".")
        q[f"group residuals@{l}"] = (lambda m, t, d, l=l: m.evaluate.group_fit_residuals(d, t, groups=3, latent_variable=l + 1), (".i.", "."))
        q[f"group probabilities@{l}"] = (lambda m, t, d, l=l: m.evaluate.latent_group_probabilities(d, t, groups=2, latent_variable=l + 1), (".i.", ".i.", "."))
    q["ML"] = (lambda m, t, d: m.latent_scores(d, theta_estimation="ML", standard_errors=True), ("rl", "rl"))
    q["MAP"] = (lambda m, t, d: m.latent_scores(d, theta_estimation="MAP"), "rl")
    return q


def move(x, axes, perms):
    """The tensor with entry j along axis a being entry perms[a][j] of x."""
    if isinstance(axes, tuple):
        require(isinstance(x, (tuple, list)) and len(x) == len(axes), f"{len(axes)} results")
        return [move(u, a, perms) for u, a in zip(x, axes)]
    x = torch.as_tensor(x).detach().double()
    require(x.dim() == len(axes), f"a result of shape {tuple(x.shape)}, not {len(axes)} dimensions")
    for k, a in enumerate(axes):
        if a in perms:
            x = x.index_select(k, torch.tensor(perms[a]))
    return x


def compare(got, want, what, atol):
    if isinstance(want, list):
        for i, (g, w) in enumerate(zip(got, want)):
            compare(g, w, f"{what}[{i}]", atol)
        return
    close(torch.as_tensor(got).detach().double(), want, what, atol=atol, rtol=1e-3)


N = 4


def sample(cats, lv, n=N):
    d = torch.tensor([[float((i * (j + 2) + (i // 2) + j + 1) % c) for j, c in enumerate(cats)] for i in range(n)])
    d[1, 0] = NAN
    d[n - 1, len(cats) - 1] = -1
    t = torch.tensor([[1.2 * math.sin((1.3 + 0.6 * k) * i + 2.1 * k + 0.3) for k in range(lv)] for i in range(n)])
    return t, d


def with_training(m, t, d, alg="JML", cov=None):
    from irtorch.estimation_algorithms import JML, MML
    a = {"JML": JML, "MML": MML}[alg]()
    a.train_data = d.clone()
    if alg == "JML":
        a.training_theta_scores = t.clone()
    else:
        a.covariance_matrix = cov.clone()
    a.training_history = {"train_loss": [2., 1.]}
    m.algorithm = a
    return m


SMOOTH = ("1PL", "2PL", "GPC", "GRM", "NRM")


def families(ctx):
    for fam, o in B.VARIANTS + [("NRM", {"mc_correct": [1, 0, 2]})]:
        yield fam, dict(o)


def build(fam, lv, cats, o, p=0, perm=(0, 1, 2)):
    o = dict(o)
    if fam == "NEST" and "mc_correct" not in o:
        o["mc_correct"] = [1, 0, 4]
    if "mc_correct" in o:
        o["mc_correct"] = [o["mc_correct"][i] for i in perm]
    return B.build(fam, lv, [cats[i] for i in perm], None, p, **o)


def check(ctx, label, dims, first, second, args1, args2, perms, fam, lmap=None, **desc):
    for name, (f, axes) in table(dims).items():
        if name in ("ML", "MAP") and (fam not in SMOOTH or not (ctx.thorough or desc.get("full"))):
            continue
        other = name
        if lmap is not None and "@" in name:
            base, l = name.split("@")
            other = f"{base}@{lmap.index(int(l))}"
        with ctx.case(label, query=name, **{k: v for k, v in desc.items() if k != "full"}):
            torch.manual_seed(2)
            try:
                want = move(f(first, *args1), axes, perms)
            except NotImplementedError:
                continue
            torch.manual_seed(2)
            got = table(dims)[other][0](second, *args2)
            if name == "ML":                          # patterns without a finite maximum are left out
                keep = (want[0].abs() < 4).all(dim=1)
                want, got = [w[keep] for w in want], [torch.as_tensor(g)[keep] for g in got]
            compare(got, want, name, 3e-3 if name in ("ML", "MAP") else 2e-3 if name in ("q3", "mutual information") else 2e-4 if "@" in name else 5e-5)
            ctx.state(label, name, desc)
            ctx.step(2)


def run(ctx):
    orders3 = [p for p in itertools.permutations(range(3)) if p != (0, 1, 2)]
    fams = list(families(ctx))
    items(ctx, fams, orders3)
    respondents(ctx, fams)
    latents(ctx)
    fits(ctx, orders3)


def items(ctx, fams, orders):
    from irtorch.rescale import Bit
    jobs = [(fam, o, lv, perm) for fam, o in fams for lv in (1, 2) if not (fam == "1PL" and lv == 2) for perm in orders]
    for fam, o, lv, perm in ctx.each(jobs):
        cats = cats_of(fam)
        if not ctx.thorough and lv == 2 and perm not in ((1, 2, 0), (2, 1, 0)):
            continue
        t, d = sample(cats, lv)
        pair = []
        with ctx.case("items", family=fam, options=o, lv=lv, order=list(perm), query="build"):
            with quiet():
                m = build(fam, lv, cats, o)
                s = reordered_items(m, build(fam, lv, cats, o, 1, perm), perm)
            pair = [with_training(m, t, d), with_training(s, t, d[:, perm])]
        if not pair:
            continue
        check(ctx, "items", lv, *pair, (t, d), (t, d[:, perm]), {"i": perm}, fam, family=fam, options=o, lv=lv, order=list(perm), full=perm == (1, 2, 0) and lv == 1)
        if lv == 1 and perm == (1, 2, 0) and fam in SMOOTH + ("3PL", "NEST"):
            with ctx.case("items bit scale", family=fam, options=o, order=list(perm)):
                out = []
                for mm, its in ((pair[0], None), (pair[1], None), (pair[0], [0, 2]), (pair[1], [perm.index(0), perm.index(2)])):
                    kw = dict(population_theta=t, grid_points=30)
                    if its is not None:
                        kw["items"] = [i for i in sorted(its)]
                    if o.get("mc_correct") or fam == "NEST":
                        kw["start_theta"] = torch.tensor([[-1.5]])
                    out.append(Bit(mm, **kw).transform(t))
                close(out[1], out[0], "bit scores", atol=1e-4)
                close(out[3], out[2], "bit scores of two of the items", atol=1e-4)
                ctx.step(4)


def respondents(ctx, fams):
    jobs = []
    for fam, o in fams:
        for perm in itertools.permutations(range(N)):
            if perm == tuple(range(N)):
                continue
            if not ctx.thorough and fam in ("POLY", "NN", "NEST", "SUR", "BSP") and perm not in ((1, 2, 3, 0), (1, 0, 2, 3), (3, 1, 0, 2)):
                continue
            jobs.append((fam, o, 2 if fam in ("GRM", "NRM") else 1, perm))
    for fam, o, lv, perm in ctx.each(jobs):
        cats = cats_of(fam)
        t, d = sample(cats, lv)
        p = list(perm)
        with quiet():
            m = with_training(build(fam, lv, cats, o), t, d)
            s = with_training(build(fam, lv, cats, o), t[p], d[p])
        check(ctx, "respondents", lv, m, s, (t, d), (t[p], d[p]), {"r": p, "R": p}, fam, family=fam, options=o, lv=lv, order=p, full=perm == (1, 2, 3, 0))
        # the queried respondents stay, the training respondents are in another order
        if perm in ((1, 2, 3, 0), (1, 0, 2, 3), (2, 0, 3, 1)):
            check(ctx, "training respondents", lv, m, s, (t, d), (t, d), {"R": p}, fam, family=fam, options=o, lv=lv, order=p, full=perm == (1, 2, 3, 0))


def latents(ctx):
    from irtorch.rescale import Reverse, RankCDF
    jobs = [(fam, o, lv, perm, sc) for fam, o in [(f, {}) for f in WEIGHTS] + [("NRM", {"mc_correct": [1, 0, 2]}), ("NEST", {"inner": "2PL", "incorrect_response_model": "nominal"})]
            for lv in (2, 3) for perm in itertools.permutations(range(lv)) if perm != tuple(range(lv)) for sc in ("", "reverse", "flip one", "rank") if lv == 2 or ctx.thorough or perm == (1, 2, 0)]
    for fam, o, lv, perm, sc in ctx.each(jobs):
        cats = cats_of(fam)
        t, d = sample(cats, lv, 5)
        p = list(perm)
        pair = []
        with ctx.case("latent variables", family=fam, options=o, lv=lv, order=p, scale=sc, query="build"):
            with quiet():
                m = build(fam, lv, cats, o)
                s = reordered_latents(m, build(fam, lv, cats, o, 1), perm)
            flags = {"reverse": [True] * lv, "flip one": [True] + [False] * (lv - 1)}.get(sc)
            if flags:
                m.add_scale_transformation(Reverse(flags))
                s.add_scale_transformation(Reverse([flags[i] for i in p]))
            elif sc == "rank":
                m.add_scale_transformation(RankCDF(t))
                s.add_scale_transformation(RankCDF(t[:, p]))
            pair = [with_training(m, t, d), with_training(s, t[:, p], d)]
        if not pair:
            continue
        check(ctx, "latent variables", lv, *pair, (t, d), (t[:, p], d), {"l": p}, fam, lmap=p, family=fam, options=o, lv=lv, order=p, scale=sc, full=lv == 2 and not sc)
        if not sc:
            cov = torch.tensor([[1.2, 0.3, -0.2], [0.3, 0.9, 0.1], [-0.2, 0.1, 1.5]])[:lv, :lv]
            pair = [with_training(pair[0], t, d, "MML", cov), with_training(pair[1], t, d, "MML", cov[p][:, p])]
            with ctx.case("latent variables after MML", family=fam, options=o, lv=lv, order=p):
                want = pair[0].latent_scores(d, theta_estimation="EAP", eap_theta_integration_points=6)[:, p]
                close(pair[1].latent_scores(d, theta_estimation="EAP", eap_theta_integration_points=6), want, "EAP scores", atol=1e-4)
                ctx.step(2)


def fits(ctx, orders):
    from irtorch.estimation_algorithms import JML, MML, AE
    th = lambda lv, n: torch.tensor([[1.2 * math.sin((1.3 + 0.6 * k) * i + 2.1 * k + 0.3) for k in range(lv)] for i in range(n)])

    def fit(m, alg, d, start):
        torch.manual_seed(4)
        kw = {"start_thetas": start.clone()} if alg is JML and start is not None else {}
        m.fit(d.clone(), algorithm=alg(), max_epochs=3, device="cpu", **kw)
        a = m.algorithm
        return torch.tensor([float(x) for x in a.training_history["train_loss"]]), a.training_theta_scores

    fams = [(f, {}) for f in ("1PL", "2PL", "3PL", "GPC", "GRM", "NRM", "SUR", "BSP")] + [("NRM", {"mc_correct": [1, 0, 2]}), ("NEST", {"inner": "2PL", "incorrect_response_model": "nominal"})]
    n = 6
    probe = torch.tensor([[-1.2], [0.1], [0.9]])
    for (fam, o), alg, given in ctx.each([(f, a, g) for f in fams for a in (JML, MML) for g in ((True, False) if a is JML else (False,))]):
        cats = cats_of(fam)
        _, d = sample(cats, 1, n)
        start = th(1, n) if given else None
        with quiet():
            m = build(fam, 1, cats, o)
            with ctx.case("fit", family=fam, options=o, algorithm=alg.__name__, start=given, order="original"):
                loss, scores = fit(m, alg, d, start)
        for perm in orders:
            with ctx.case("fit items", family=fam, options=o, algorithm=alg.__name__, start=given, order=list(perm)):
                s = reordered_items(build(fam, 1, cats, o), build(fam, 1, cats, o, 1, perm), perm)
                l2, sc2 = fit(s, alg, d[:, perm], start)
                close(l2, loss, "losses", atol=1e-3)
                close(s.item_probabilities(probe), m.item_probabilities(probe)[:, list(perm)], "probabilities after the fit", atol=2e-3)
                if scores is not None:
                    close(sc2, scores, "training scores", atol=2e-3)
                ctx.state("fit items", fam, o, alg.__name__, given, perm)
                ctx.step(2)
        for perm in [(1, 2, 3, 4, 5, 0), (1, 0, 2, 3, 4, 5), (5, 3, 1, 0, 2, 4)]:
            with ctx.case("fit respondents", family=fam, options=o, algorithm=alg.__name__, start=given, order=list(perm)):
                p = list(perm)
                s = build(fam, 1, cats, o)
                l2, sc2 = fit(s, alg, d[p], None if start is None else start[p])
                close(l2, loss, "losses", atol=1e-3)
                close(s.item_probabilities(probe), m.item_probabilities(probe), "probabilities after the fit", atol=2e-3)
                if scores is not None:
                    close(sc2, scores[p], "training scores", atol=2e-3)
                ctx.state("fit respondents", fam, o, alg.__name__, given, perm)
                ctx.step(2)
    # latent variables
    for fam in ctx.each(WEIGHTS):
        cats = cats_of(fam)
        for lv in (2, 3):
            _, d = sample(cats, lv, n)
            start = th(lv, n)
            m = build(fam, lv, cats, {})
            with quiet():
                fresh = build(fam, lv, cats, {})
                loss, scores = fit(m, JML, d, start)
            for perm in itertools.permutations(range(lv)):
                p = list(perm)
                with ctx.case("fit latent variables", family=fam, lv=lv, order=p):
                    s = reordered_latents(fresh, build(fam, lv, cats, {}, 1), perm)
                    l2, sc2 = fit(s, JML, d, start[:, p])
                    close(l2, loss, "losses", atol=1e-3)
                    close(sc2, scores[:, p], "training scores", atol=2e-3)
                    tt = th(lv, 3)
                    close(s.item_probabilities(tt[:, p]), m.item_probabilities(tt), "probabilities after the fit", atol=2e-3)
                    ctx.state("fit latents", fam, lv, p)
                    ctx.step(2)
