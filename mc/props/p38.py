"""P38: a left-out argument means the documented default, in every way of calling."""
import itertools
import math
import torch
from mc.core import close, require, quiet
from mc import kinds as K, models as B, scales as S
from mc.kinds import digest, same

META = dict(
    title="A left-out argument means its documented default, in every way of calling",
    statement="Leaving an optional argument out gives the result of stating the value its documentation promises: left-out data are the training data, left-out scores the scores of those data, "
              "left-out fixed values the training medians, left-out masks full relations, left-out lists all items, left-out numbers the documented numbers. This holds for every combination of "
              "stated and left-out arguments, and giving arguments by position in the published order equals giving them by name.",
    over=["inputs", "configurations"],
    quant="every public call with documented defaults x model kinds x all subsets of stated arguments (all subsets of few arguments, single ones, pairs and complements beyond) x every positional prefix",
    why="Tests state nearly every argument; results that come from defaults, on which users rely most, are never compared with the documentation.",
    files=["irtorch/models/base_irt_model.py", "irtorch/evaluator.py", "irtorch/plotter.py", "irtorch/utils.py", "irtorch/rescale/bit.py", "irtorch/rescale/flow.py",
           "irtorch/estimation_algorithms/jml.py", "irtorch/estimation_algorithms/mml.py", "irtorch/estimation_algorithms/ae.py", "irtorch/estimation_algorithms/vae.py"],
    mech=[("signatures", "the optional arguments of every public call"), ("training data", "_evaluate_data_theta_input"), ("plot grids", "_get_theta_grid_for_plotting")],
    technique="exhaustive enumeration of the subsets of stated arguments and of the positional prefixes of every call on the real code; the call with nothing stated is the oracle of all others",
)
PARALLEL = True
BOUNDS = "about 90 calls x up to 7 model kinds; all 2^k subsets for k <= 4 (5 in the thorough tier) optional arguments, else singles, complements and all (and pairs in the thorough tier); fits of 30 to 1500 steps on 14 respondents, of 2 steps on up to 5000 (20000)"
ASSUMPTIONS = ["no claim where documentation and signature name different values (learning rates of MML and linking, patience of JML, epochs of AE, batch normalisation and interval of VAE, guessing iterations)",
               "random calls are seeded alike before each way of calling"]
KNOTS = [-1.7, -0.7, 0.0, 0.7, 1.7]
FULL = ("JML", "Bit", "information", "group_fit_log")     # all subsets / pairs in the quick tier too
STOP = object()                      # an argument about which no claim is made; positional prefixes end here


def subsets(names, full):
    n = len(names)
    if n <= (5 if full else 4):
        return [c for k in range(1, n + 1) for c in itertools.combinations(names, k)]
    out = [(a,) for a in names] + (list(itertools.combinations(names, 2)) if full else [])
    out += [tuple(x for x in names if x != a) for a in names] + [tuple(names)]
    return out


def run(ctx):
    for name, kinds, make in calls(ctx):
        for kind in ctx.each(kinds):
            with ctx.case(name, kind=str(kind), way="nothing stated"):
                torch.manual_seed(31)
                f, params = make(kind)
                params = [(n, v() if callable(v) and getattr(v, "__name__", "") == "<lambda>" else v) for n, v in params]
                torch.manual_seed(77)
                base = digest(f())
                ctx.state(name, str(kind))
                ctx.step()
            stated = [n for n, v in params if v is not STOP]
            val = dict(params)
            for sub in subsets(stated, ctx.thorough or name.startswith(FULL)):
                with ctx.case(name, kind=str(kind), way="stated", arguments=list(sub)):
                    torch.manual_seed(77)
                    got = digest(f(**{n: val[n] for n in sub}))
                    same(got, base, f"stating {', '.join(sub)} instead of leaving it out")
                    ctx.state(name, str(kind), sub)
                    ctx.step()
            pos = list(itertools.takewhile(lambda p: p[1] is not STOP, params))
            for i in range(1, len(pos) + 1):
                with ctx.case(name, kind=str(kind), way="by position", arguments=i):
                    torch.manual_seed(77)
                    got = digest(f(*[v for _, v in pos[:i]]))
                    same(got, base, f"giving the first {i} optional arguments by position")
                    ctx.state(name, str(kind), i)
                    ctx.step()


# ------------------------------------------------------------------------------------------------ the calls
def calls(ctx):
    yield from models(ctx)
    yield from fits(ctx)
    yield from queries(ctx)
    yield from evaluator(ctx)
    yield from plots(ctx)
    yield from scales(ctx)
    yield from utils(ctx)


ALL = list(K.KINDS)
NOMIX = [k for k in ALL if not k.startswith("MIX")]


def model(kind):
    m = K.KINDS[kind]()
    return m, K.thetas_for(m.latent_variables, 9, 2), K.data_for(m.item_categories, 9, k=1)


def behaviour(m):
    t = torch.tensor([[0.4 * i - 1.5 + 0.2 * d for d in range(m.latent_variables)] for i in range(8)])
    g = torch.Generator().manual_seed(3)
    out = [sorted(m.state_dict()), m.latent_variables, list(m.item_categories), str(m.mc_correct)]
    out.append([m.state_dict()[k].double() for k in sorted(m.state_dict())])
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(0.3 + 0.5 * torch.rand(p.shape, generator=g))
    return out + [m.item_probabilities(t)]


def models(ctx):
    from irtorch import models as M
    cats = [3, 2, 4]
    table = torch.tensor([[0., 0., 0.], [2., 1., 3.], [1., math.nan, -1.], [math.nan, 0., 2.]])
    two = torch.tensor([[0., 1., 0.], [1., 0., 1.], [math.nan, 1., -1.]])
    full = lambda lv: torch.ones(3, lv, dtype=torch.bool)
    lvs = [1, 2]

    def ctor(cls, base, rest, binary=False):
        """base: how the items are described; rest(lv): the other optional arguments in order."""
        def make(kind):
            lv, how = kind
            fixed = dict(base(how))
            if lv != 1:
                fixed["latent_variables"] = lv
            ps = [(n, v) for n, v in rest(lv)]
            return (lambda **kw: behaviour(cls(**fixed, **kw))), ps
        return make

    desc = {"categories": dict(item_categories=cats), "data": dict(data=table)}
    desc2 = {"items": dict(items=3), "data": dict(data=two)}

    def lvarg(lv):
        return [("latent_variables", 1)] if lv == 1 else []

    def named(name, cls, d, rest, lvs=lvs):
        def make(kind):
            lv, how = kind
            fixed = dict(d[how])
            if lv != 1:
                fixed["latent_variables"] = lv
            ps = rest(lv)
            # keyword-only table: constructors are called by name
            def f(**kw):
                return behaviour(cls(**fixed, **kw))
            return f, [("", STOP)] + lvarg(lv) * (cls is not M.OneParameterLogistic) + ps
        return name, [(lv, h) for lv in lvs for h in d], make

    mask = lambda lv: [("item_theta_relationships", full(lv))]
    yield named("OneParameterLogistic", M.OneParameterLogistic, desc2, lambda lv: [], [1])
    yield named("TwoParameterLogistic", M.TwoParameterLogistic, desc2, mask)
    yield named("ThreeParameterLogistic", M.ThreeParameterLogistic, desc2, mask)
    yield named("GeneralizedPartialCredit", M.GeneralizedPartialCredit, desc, mask)
    yield named("GradedResponse", M.GradedResponse, desc, mask)
    yield named("NominalResponse", M.NominalResponse, desc, lambda lv: mask(lv) + [("mc_correct", None)])
    yield named("MonotoneNN", M.MonotoneNN, desc, lambda lv: mask(lv) + [("mc_correct", None), ("separate", "categories"), ("negative_latent_variable_item_relationships", True),
                                                                          ("use_bounded_activation", True)])
    yield named("MonotonePolynomial", M.MonotonePolynomial, desc, lambda lv: mask(lv) + [("degree", 3), ("separate", "categories"), ("negative_latent_variable_item_relationships", True)])
    yield named("MonotoneBSpline", M.MonotoneBSpline, desc, lambda lv: [("knots", KNOTS), ("degree", 3), ("separate", "items")])
    yield named("SurprisalSpline", M.SurprisalSpline, desc, lambda lv: mask(lv) + [("knots", KNOTS), ("degree", 3)])

    def nested(kind):
        lv, inc = kind
        def f(**kw):
            inner = B.build("2PL", lv, [2, 2, 2])
            return behaviour(M.NestedLogit([0, 1, 2], inner, data=table, latent_variables=lv, **({"incorrect_response_model": inc} if inc else {}), **kw))
        ps = mask(lv) + [("degree", 3), ("knots", KNOTS)]
        return f, [("", STOP)] + ps + ([] if inc else [("incorrect_response_model", "nominal")])
    yield "NestedLogit", [(1, None), (2, None), (1, "bspline"), (2, "bspline")], nested

    # the ways of describing the items, and the leading positional arguments
    def same_items(kind):
        cls = getattr(M, kind)
        binary = kind in ("OneParameterLogistic", "TwoParameterLogistic", "ThreeParameterLogistic")
        def f(how="categories"):
            if binary:
                return behaviour({"categories": lambda: cls(items=3), "data": lambda: cls(data=two), "position": lambda: cls(two),
                                  "positions": lambda: cls(two, 3) if kind.startswith("One") else cls(None, 1, 3)}[how]())
            return behaviour({"categories": lambda: cls(item_categories=cats), "data": lambda: cls(data=table), "position": lambda: cls(table),
                              "positions": lambda: cls(None, 1, cats)}[how]())
        ways = lambda **kw: f(**kw)
        return ways, [("how", "categories")]
    for how in ("data", "position", "positions"):
        def make(kind, how=how):
            f, _ = same_items(kind)
            return (lambda **kw: f(**kw)), [("", STOP), ("how", how)]
        yield f"items by {how}", ["OneParameterLogistic", "TwoParameterLogistic", "ThreeParameterLogistic", "GeneralizedPartialCredit", "GradedResponse", "NominalResponse", "MonotoneNN",
                                  "MonotonePolynomial", "MonotoneBSpline", "SurprisalSpline"], make


def outcome(m, a):
    return [[m.state_dict()[k].double() for k in sorted(m.state_dict())], [float(x) for x in a.training_history["train_loss"]],
            a.training_theta_scores if isinstance(a.training_theta_scores, torch.Tensor) else "none"]


def fits(ctx):
    from irtorch.estimation_algorithms import JML, MML, AE, VAE
    fams = ctx.pick([("GPC", 1, [3, 2, 3]), ("2PL", 2, [2, 2, 2, 2])], [("GPC", 1, [3, 2, 3]), ("2PL", 2, [2, 2, 2, 2]), ("NRM", 1, [3, 4, 2]), ("NN", 1, [3, 2]), ("3PL", 1, [2, 2, 2])])

    def fit(alg, fixed, ps, miss=True, through=False):
        def make(kind):
            fam, lv, cats = kind
            data = K.data_for(cats, missing=miss)
            def f(**kw):
                m = B.build(fam, lv, cats)
                a = alg()
                if through:
                    m.fit(data.clone(), algorithm=a, **fixed, **kw)
                else:
                    a.fit(m, data.clone(), **fixed, **kw)
                return outcome(m, a)
            return f, [("", STOP)] + [(n, STOP if n == "start_thetas" and lv > 1 else (v(lv, cats) if callable(v) and not isinstance(v, torch.nn.Module) else v)) for n, v in ps]
        return make
    start = lambda lv, cats: _start(lv, cats)
    yield "JML.fit", fams, fit(JML, dict(max_epochs=25), [("learning_rate", 0.1), ("batch_size", 14), ("start_thetas", start), ("device", "cpu")], miss=False)
    yield "JML.fit to its end", fams, fit(JML, dict(max_epochs=400, learning_rate_update_patience=2), [("learning_rate_updates_before_stopping", 3), ("learning_rate", 0.1)], through=True)
    yield "MML.fit", fams, fit(MML, dict(max_epochs=12), [("integration_method", "quasi_mc"), ("covariance_matrix", lambda lv, cats: torch.eye(lv)), ("quadrature_points", None), ("device", "cpu")])
    yield "MML.fit to its end", fams, fit(MML, dict(), [("learning_rate_update_patience", 7), ("learning_rate_updates_before_stopping", 2), ("max_epochs", 1000)], through=True)
    hid = lambda lv, cats: [2 * sum(cats)]
    yield "AE.fit", fams, fit(AE, dict(max_epochs=6, evaluation_interval_size=2), [
        ("one_hot_encoded", True), ("imputation_method", None), ("learning_rate", 0.02), ("batch_size", 14), ("nonlinear_encoder", torch.nn.ELU()), ("hidden_layers_encoder", hid), ("device", "cpu")])
    yield "AE.fit to its end", fams, fit(AE, dict(max_epochs=500, learning_rate=0.6, evaluation_interval_size=2), [("learning_rate_updates_before_stopping", 3)])
    yield "AE.fit intervals", fams, fit(AE, dict(max_epochs=165), [("evaluation_interval_size", 80), ("learning_rate", 0.02)], through=True)
    yield "VAE.fit", fams, fit(VAE, dict(max_epochs=6, evaluation_interval_size=2), [
        ("imputation_method", None), ("learning_rate", 0.002), ("batch_size", 14), ("nonlinear_encoder", torch.nn.ELU()), ("hidden_layers_encoder", hid), ("device", "cpu"), ("anneal", True),
        ("annealing_iterations", 5), ("iw_samples", 5)])
    yield "VAE.fit to its end", fams, fit(VAE, dict(max_epochs=500, learning_rate=0.6, evaluation_interval_size=2), [("learning_rate_updates_before_stopping", 2)])

    # no batch size means one batch, however many respondents there are
    def whole(alg, n, fixed):
        def make(kind):
            data = K.data_for([3, 2], n)
            def f(**kw):
                m = B.build("GPC", 1, [3, 2])
                a = alg()
                a.fit(m, data.clone(), max_epochs=2, **fixed, **kw)
                return outcome(m, a)
            return f, [("", STOP), ("batch_size", n)]
        return make
    for n in ctx.pick((65, 600, 5000), (33, 65, 129, 257, 600, 1025, 5000, 20000)):
        yield f"JML.fit of {n}", ["GPC"], whole(JML, n, {})
        yield f"AE.fit of {n}", ["GPC"], whole(AE, n, dict(evaluation_interval_size=1))
        yield f"VAE.fit of {n}", ["GPC"], whole(VAE, n, dict(evaluation_interval_size=1))

    # a left-out algorithm option of model.fit goes to the algorithm's own default
    def limits(alg, fixed, steps):
        def make(kind):
            def f(n=steps):
                m = B.build("1PL", 1, [2, 2])
                a = alg()
                a.fit(m, torch.tensor([[0., 1.], [1., 0.], [1., 1.]]), **fixed)
                return [len(a.training_history["train_loss"])] if n == steps else n
            return (lambda n=None: f() if n is None else [n]), [("n", steps)]
        return make
    if ctx.thorough:
        yield "JML.fit epochs", ["1PL"], limits(JML, dict(learning_rate_update_patience=10 ** 7), 10000)
    yield "MML.fit epochs", ["1PL"], limits(MML, dict(learning_rate_update_patience=10 ** 7), 1000)


def _start(lv, cats):
    d = K.data_for(cats)
    s = d.sum(1, keepdim=True)
    return ((s - s.mean()) / s.std()).repeat(1, lv)


def queries(ctx):
    def q(kinds, fn, fix=None):
        def make(kind):
            m, t, d = model(kind)
            f, ps = fn(m, t, d)
            return f, ps
        return kinds, make
    yield ("latent_scores", *q(ALL, lambda m, t, d: (lambda *a, **k: m.latent_scores(d, *a, **k),
           [("standard_errors", False), ("theta_estimation", "ML"), ("lbfgs_learning_rate", 0.2), ("eap_theta_integration_points", None), ("device", "cpu"), ("rescale", True)])))
    yield ("latent_scores MAP", *q(ALL, lambda m, t, d: (lambda **k: m.latent_scores(d, theta_estimation="MAP", **k), [("", STOP), ("lbfgs_learning_rate", 0.2), ("rescale", True)])))
    yield ("latent_scores EAP", *q(ALL, lambda m, t, d: (lambda **k: m.latent_scores(d, theta_estimation="EAP", **k), [("", STOP), ("standard_errors", False), ("rescale", True)])))
    yield ("log_likelihood", *q(ALL, lambda m, t, d: (lambda *a, **k: m.log_likelihood(d, m(t), *a, **k), [("missing_mask", torch.zeros(d.shape, dtype=torch.bool)), ("loss_reduction", "sum")])))
    yield ("response_log_likelihoods", *q(ALL, lambda m, t, d: (lambda *a, **k: m.response_log_likelihoods(d, m(t), *a, **k), [("missing_mask", torch.zeros(d.shape, dtype=torch.bool))])))
    yield ("expected_scores", *q(ALL, lambda m, t, d: (lambda *a, **k: m.expected_scores(t, *a, **k), [("return_item_scores", True)])))
    yield ("expected_item_score_gradients", *q(NOMIX, lambda m, t, d: (lambda *a, **k: m.expected_item_score_gradients(t, *a, **k), [("rescale_by_item_score", True), ("rescale", True)])))
    yield ("information", *q(ALL, lambda m, t, d: (lambda *a, **k: m.information(t, *a, **k), [("item", True), ("degrees", None), ("rescale", True)])))
    yield ("probability_gradients", *q(ALL, lambda m, t, d: (lambda *a, **k: m.probability_gradients(t, *a, **k), [("rescale", True)])))
    yield ("population_discrimination", *q(NOMIX, lambda m, t, d: (lambda *a, **k: m.population_discrimination(t, *a, **k), [("rescale", True)])))

    def params(m, t, d):
        return (lambda *a, **k: [list(map(str, m.item_parameters(*a, **k).columns)), m.item_parameters(*a, **k)]), [("irt_format", False)]
    yield ("item_parameters", *q(["GPC1-JML", "2PL2-MML", "GRM2-AE"], params))

    def vae(kind):
        m, t, d = model("NN1-VAE")
        return (lambda *a, **k: m.algorithm.sample_latent_variables(m, 12, *a, **k)), [("input_data", m.algorithm.train_data)]
    yield "VAE.sample_latent_variables", ["NN1-VAE"], vae


def evaluator(ctx):
    def e(fn, kinds=ALL):
        def make(kind):
            m, t, d = model(kind)
            return fn(m, m.evaluate)
        return kinds, make

    def td(m):
        d = m.algorithm.train_data
        return [("data", d.clone()), ("theta", m.latent_scores(d, rescale=False))]
    yield ("residuals", *e(lambda m, v: (v.residuals, td(m) + [("average_over", "none")])))
    yield ("accuracy", *e(lambda m, v: (v.accuracy, td(m) + [("level", "all")])))
    yield ("predictions", *e(lambda m, v: (v.predictions, td(m))))
    yield ("infit_outfit", *e(lambda m, v: (v.infit_outfit, td(m) + [("level", "item")])))
    yield ("Evaluator.log_likelihood", *e(lambda m, v: (v.log_likelihood, td(m) + [("reduction", "sum"), ("level", "all")])))
    # one respondent per group at most: 14 respondents in 10 groups
    yield ("group_fit_residuals", *e(lambda m, v: (v.group_fit_residuals, td(m) + [("latent_variable", 1), ("standardize", True), ("groups", 10), ("theta_estimation", "ML"), ("rescale", True)])))
    yield ("group_fit_log_likelihood", *e(lambda m, v: (v.group_fit_log_likelihood, td(m) + [("groups", 10), ("latent_variable", 1)])))
    yield ("latent_group_probabilities", *e(lambda m, v: (v.latent_group_probabilities, td(m) + [("latent_variable", 1), ("groups", 10), ("theta_estimation", "ML"), ("rescale", True)])))
    yield ("mutual_information_difference", *e(lambda m, v: (lambda *a, **k: list(v.mutual_information_difference(*a, **k)[:2]), td(m) + [("sample_hypothesis_test", False), ("samples", 1000),
                                                                                                                                         ("log_base", 2.0)])))
    yield ("q3", *e(lambda m, v: (lambda *a, **k: v.q3(*a, **k)[0], td(m) + [("sample_hypothesis_test", False), ("samples", 1000)])))
    yield ("q3 tested", *e(lambda m, v: (lambda **k: v.q3(sample_hypothesis_test=True, **k)[1], [("", STOP), ("samples", 1000)]), ["2PL2-MML"]))
    yield ("mutual_information_difference tested", *e(lambda m, v: (lambda **k: v.mutual_information_difference(sample_hypothesis_test=True, **k)[2], [("", STOP), ("samples", 1000), ("log_base", 2.0)]),
                                                      ["2PL2-MML"]))
    yield ("sum_score_probabilities", *e(lambda m, v: (v.sum_score_probabilities, [("latent_density_method", "data"), ("population_data", None), ("trapezoidal_segments", 1000),
                                                                                   ("sample_size", 100000)]), [k for k in NOMIX if "2" not in k]))
    yield ("sum_score_probabilities qmvn", *e(lambda m, v: (lambda **k: v.sum_score_probabilities("qmvn", **k), [("", STOP), ("trapezoidal_segments", 1000)]), ["GPC1-JML", "BSP1-JML"]))
    if ctx.thorough:
        yield ("sum_score_probabilities encoder", *e(lambda m, v: (lambda **k: v.sum_score_probabilities("encoder sampling", **k), [("", STOP), ("sample_size", 100000)]), ["NN1-VAE"]))

    def dens(m, v):
        th = K.thetas_for(m.latent_variables, 60)
        def f(*a, **k):
            v.approximate_latent_density(th, *a, **k)
            x = th[:7] + 0.1
            return v.latent_density.pdf(x)
        return f, [("approximation", "qmvn"), ("cv_n_components", None)]
    yield ("approximate_latent_density", *e(dens, ["GPC1-JML", "2PL2-MML"]))

    def gmm(m, v):
        th = K.thetas_for(m.latent_variables, 60)
        def f(**k):
            v.approximate_latent_density(th, "gmm", **k)
            return v.latent_density.pdf(th[:7] + 0.1)
        return f, [("", STOP), ("cv_n_components", [2, 3, 4, 5, 10])]
    yield ("approximate_latent_density gmm", *e(gmm, ["GPC1-JML"]))


def labels(fig):
    """What the figure shows and says."""
    s = fig.layout.scene if fig.layout.scene and fig.layout.scene.xaxis.title.text else fig.layout
    def text(ax):
        t = getattr(ax, "title", None)
        return str(getattr(t, "text", None))
    out = [digest(fig), str(fig.layout.title.text), text(s.xaxis), text(s.yaxis)]
    out.append([str(t.colorscale) if "colorscale" in t else "" for t in fig.data])
    out.append([str(getattr(getattr(t, "line", None), "color", None)) if t.type == "scatter" else "" for t in fig.data])
    return out


def plots(ctx):
    def p(method, own, steps=(100, 18), args=(), kinds=ALL, order=None):
        """own(m): further optional arguments in the published order, up to theta_range."""
        def make(kind):
            kd, lat = kind
            m, t, d = model(kd)
            lv = m.latent_variables
            a0 = [d[:1]] if args == "data" else list(args)
            fn = getattr(m.plot, method)
            two = len(lat) == 2
            src = getattr(m.algorithm, "training_theta_scores", None)
            if not isinstance(src, torch.Tensor):
                src = torch.tensor([[-3.0], [0.0], [3.0]]).repeat(1, lv)
            if m.scale and all(s.invertible for s in m.scale):
                src = m.transform_theta(src)
            rng = lambda l: (src[:, l - 1].min().item(), src[:, l - 1].max().item())
            rest = [i for i in range(lv) if i + 1 not in lat]
            ps = own(m, lat)
            tail = [("theta_range", rng(lat[0])), ("second_theta_range", rng(lat[1]) if two else None), ("steps", steps[1] if two else steps[0]),
                    ("fixed_thetas", src[:, rest].median(dim=0).values if rest else None)]
            names = [n for n, _ in ps]
            i = names.index("theta_range")
            ps = [x for x in ps[:i]] + tail + ps[i + 1:]
            kw = {} if lat == (1,) else {"latent_variables": lat}
            if kw:
                ps = [("", STOP)] + [(n, v) for n, v in ps if n != "latent_variables"]
            if lv > 1 and method == "information":
                kw["degrees"] = [30, 60]
                ps = [("", STOP)] + [(n, v) for n, v in ps if n != "degrees"]
            return (lambda *a, **k: labels(fn(*a0, *a, **kw, **k))), ps
        kk = [(k, lat) for k in kinds for lat in ([(1,)] if "1-" in k else [(1,), (2,), (1, 2)])]
        return kk, make

    ax = lambda lat: ("Latent variable 1" if len(lat) == 2 else "Latent variable")
    col = [("title", None), ("x_label", None), ("y_label", None), ("color", None), ("colorscale", "Greens")]
    R = [("theta_range", None)]
    yield ("plot.item_probabilities", *p("item_probabilities", lambda m, lat: [("latent_variables", (1,)), ("title", "IRF - Item 1"), ("x_label", ax(lat)), ("y_label", STOP if len(lat) == 2 else "Probability")] + R + [
        ("plot_group_fit", False), ("group_fit_groups", 10), ("group_fit_data", None), ("group_fit_population_theta", None), ("theta_estimation", "ML"), ("grayscale", False), ("plot_derivative", False),
        ("rescale", True)], (200, 25), (1,)))
    yield ("plot.item_entropy", *p("item_entropy", lambda m, lat: [("latent_variables", (1,)), ("title", None), ("x_label", ax(lat)), ("y_label", "Latent variable 2" if len(lat) == 2 else "Entropy"),
                                                                   ("color", None), ("colorscale", "Greens")] + R + [("rescale", True)], args=(2,)))
    yield ("plot.log_likelihood", *p("log_likelihood", lambda m, lat: [("latent_variables", (1,)), ("items", None), ("expected_sum_score", False)] + col + R, args="data"))
    yield ("plot.information", *p("information", lambda m, lat: [("items", None), ("latent_variables", (1,)), ("degrees", None), ("title", None), ("x_label", ax(lat)),
                                                                 ("y_label", "Latent variable 2" if len(lat) == 2 else "Information"), ("color", None), ("colorscale", "Greens")] + R + [("rescale", True)]))
    yield ("plot.expected_sum_score", *p("expected_sum_score", lambda m, lat: [("items", None), ("latent_variables", (1,)), ("title", None), ("x_label", ax(lat)),
                                                                               ("y_label", "Latent variable 2" if len(lat) == 2 else "Expected sum score"), ("color", None), ("colorscale", "Greens")] + R
                                         + [("rescale", True)]))

    def group(kind):
        m, t, d = model(kind)
        tr = m.algorithm.train_data
        return (lambda **k: labels(m.plot.item_probabilities(1, plot_group_fit=True, steps=5, **k))), [("", STOP), ("group_fit_groups", 10), ("group_fit_data", tr.clone()),
                                                                                                       ("group_fit_population_theta", m.latent_scores(tr, rescale=False)), ("theta_estimation", "ML"), ("rescale", True)]
    yield "plot.item_probabilities with groups", ["GPC1-JML", "BSP1-JML", "NN1-VAE"], group

    def rel(kind):
        m, t, d = model(kind)
        th = m.algorithm.training_theta_scores
        return (lambda *a, **k: labels(m.plot.item_latent_variable_relationships(*a, **k))), [("relationships", None), ("theta", th), ("title", "Relationships: Items vs. latent variables"),
                                                                                              ("x_label", "Latent variable"), ("y_label", "Items"), ("colorscale", "Greens")]
    yield "plot.item_latent_variable_relationships", ["GPC1-JML", "GRM2-AE", "BSP1-JML"], rel

    def dist(kind):
        m, t, d = model(kind)
        tr = m.algorithm.train_data
        return (lambda *a, **k: labels(m.plot.latent_score_distribution(*a, **k))), [
            ("scores_to_plot", m.latent_scores(tr)), ("population_data", tr.clone()), ("latent_variables", (1,)), ("title", None), ("x_label", "Latent variable"), ("y_label", "Density"), ("color", None),
            ("contour_colorscale", "Greens"), ("contour_plot_bins", None), ("rescale", True)]
    yield "plot.latent_score_distribution", ALL, dist

    def scale(kind):
        m, t, d = model(kind)
        th = m.algorithm.training_theta_scores
        if not isinstance(th, torch.Tensor):
            th = torch.tensor([[-3.], [0.], [3.]]).repeat(1, m.latent_variables)
        rest = th[:, 1:].median(0).values if m.latent_variables > 1 else None
        return (lambda **k: labels(m.plot.scale_transformations(**k))), [
            ("", STOP), ("input_latent_variable", 1), ("title", "Scale Transformation(s)"), ("x_label", "Original scale"), ("y_label", "Transformed scale"),
            ("input_theta_range", (th[:, 0].min().item(), th[:, 0].max().item())), ("steps", 100), ("fixed_thetas", rest)]
    yield "plot.scale_transformations", ["GPC1-JML", "2PL2-MML", "NN1-VAE", "BSP1-JML"], scale


def scales(ctx):
    from irtorch import rescale as R

    def bit(kind):
        fam, lv, cats = kind
        m = B.build(fam, lv, cats)
        K.jml(m)
        t = K.thetas_for(lv, 5, 1)
        return (lambda *a, **k: R.Bit(m, *a, **k).transform(t)), [("population_theta", None), ("start_theta", None), ("items", list(range(len(cats)))), ("grid_points", 4000), ("mc_start_theta_approx", False)]
    yield "Bit", [("GPC", 1, [3, 2, 3]), ("2PL", 1, [2, 2]), ("GRM", 2, [3, 2])], bit

    def guess(kind):
        m = B.build("NRM", 1, [3, 4, 2], mc_correct=[1, 0, 1])
        K.jml(m)
        s = R.Bit(m)
        return (lambda **k: s.bit_score_starting_theta_mc(guessing_iterations=25, **k)), [("", STOP), ("theta_estimation", "ML"), ("items", [0, 1, 2]), ("guessing_probabilities", [1 / 3, 1 / 4, 1 / 2])]
    yield "Bit.bit_score_starting_theta_mc", ["NRM"], guess

    def flow(kind):
        lv, fixed, ps = kind
        th = K.thetas_for(lv, 40)
        def f(**k):
            s = R.Flow(lv)
            s.fit(th.clone(), **dict(fixed), **k)
            return s.transform(th[:6])
        return f, [("", STOP)] + [(n, dict(batch_size=40, learning_rate=0.01, learning_rate_updates_before_stopping=2, evaluation_interval_size=50, max_epochs=1500, device="cpu")[n]) for n in ps]
    short = (("max_epochs", 60),)
    yield "Flow.fit", [(1, short, ("batch_size", "learning_rate", "evaluation_interval_size", "device")), (2, short, ("batch_size", "learning_rate", "evaluation_interval_size")),
                       (1, (("learning_rate", 0.5), ("evaluation_interval_size", 3)), ("learning_rate_updates_before_stopping", "max_epochs"))], flow

    def big(kind):
        th = K.thetas_for(1, kind)
        def f(**k):
            s = R.Flow(1)
            s.fit(th.clone(), max_epochs=3, **k)
            torch.manual_seed(5)
            l = R.LinkCommonItems(B.build("2PL", 1, [2, 2, 2], None, 0), B.build("2PL", 1, [2, 2, 2], None, 1), [0, 1], [1, 2])
            l.fit(th.clone(), max_epochs=3, **k)
            return [s.transform(th[:6]), l.transform(th[:6])]
        return f, [("", STOP), ("batch_size", kind)]
    yield "Flow and LinkCommonItems of many", ctx.pick([300, 5000], [65, 129, 300, 1025, 5000, 20000]), big

    def link(kind):
        fixed, ps = kind
        th = K.thetas_for(1, 40)
        def f(*a, **k):
            torch.manual_seed(5)
            s = R.LinkCommonItems(B.build("2PL", 1, [2, 2, 2], None, 0), B.build("2PL", 1, [2, 2, 2], None, 1), [0, 1], [1, 2], *a, **{n: v for n, v in k.items() if n in ("method", "inverted")})
            s.fit(th.clone(), **dict(fixed), **{n: v for n, v in k.items() if n not in ("method", "inverted")})
            return s.transform(th[:6])
        val = dict(method="spline", inverted=False, batch_size=40, learning_rate_updates_before_stopping=1, evaluation_interval_size=50, max_epochs=1000, device="cpu")
        return f, [(n, val[n]) if n else ("", STOP) for n in ps]
    yield "LinkCommonItems", [((("max_epochs", 60),), ("method", "inverted", "", "batch_size", "evaluation_interval_size", "device")),
                              ((("learning_rate", 0.5), ("evaluation_interval_size", 3)), ("", "learning_rate_updates_before_stopping", "max_epochs"))], link

    def rank(kind):
        th = K.thetas_for(kind, 30)
        return (lambda *a, **k: R.RankCDF(th, *a, **k).transform(th[:8] * 0.9)), [("distributions", [torch.distributions.Normal(0.0, 1.0)] * kind)]
    yield "RankCDF", [1, 2], rank

    def rotate(kind):
        m = B.build(kind, 2, [2, 2, 2, 2])
        th = K.thetas_for(2, 20)
        x = K.thetas_for(2, 6, 3)
        return (lambda **k: R.Rotate(m, theta=th, **k).transform(x)), [("", STOP), ("loadings", None), ("rotation_method", "promax"), ("rotation_matrix", None)]
    yield "Rotate", ["2PL", "3PL"], rotate

    from irtorch.torch_modules import RationalQuadraticSpline

    def rqs(kind):
        vals = [("num_bins", 30), ("lower_input_bound", 0.0), ("upper_input_bound", 1.0), ("lower_output_bound", 0.0), ("upper_output_bound", 1.0), ("min_bin_width", 1e-3), ("min_bin_height", 1e-3),
                ("min_derivative", 1e-3), ("free_endpoints", False)]
        x = torch.linspace(0.02, 0.98, 9).unsqueeze(1).repeat(1, kind)
        def f(*a, **k):
            s = RationalQuadraticSpline(kind, *a, **k)
            with torch.no_grad():
                for j, (n, p) in enumerate(sorted(s.named_parameters())):
                    if "bound" not in n:
                        p.copy_(torch.tensor([3.0 * math.sin(1.3 * i + j) for i in range(p.numel())]).reshape(p.shape))
            out = s(x)
            return list(out) + list(s(out[0], inverse=True)) + list(s(x, inverse=False))
        return f, vals
    yield "RationalQuadraticSpline", [1, 2], rqs


def utils(ctx):
    import irtorch
    from irtorch import utils as U, _internal_utils as I
    from irtorch.outlier_detector import OutlierDetector
    n, g = math.nan, 14

    def split(kind):
        d = torch.arange(float(kind * 2)).view(kind, 2)
        return (lambda *a, **k: U.split_data(d, *a, **k)), [("train_ratio", 0.8), ("shuffle", True)]
    yield "split_data", [5, 10, 14, 37], split

    def impute(kind):
        d = torch.tensor([[0., 1., n], [2., -1., 1.], [n, 0., 1.], [1., 1., 0.]])
        return (lambda *a, **k: U.impute_missing(d.clone(), *a, **k)), [("method", "zero"), ("model", None), ("mc_correct", None), ("item_categories", None)]
    yield "impute_missing", ["table"], impute

    def imv(kind):
        m1, m2 = B.build("1PL", 1, [2, 2, 2]), B.build("2PL", 1, [2, 2, 2], None, 1)
        d = K.data_for([2, 2, 2], missing=True)
        def th(m):
            return m.latent_scores(d, theta_estimation=kind)
        return (lambda *a, **k: U.imv(m1, m2, d, *a, theta_estimation=kind, **k)), [("model1_theta", th(m1)), ("model2_theta", th(m2)), ("max_iterations", 100)]
    yield "imv", ["ML", "EAP"], imv

    def cv(kind):
        from irtorch.estimation_algorithms import JML
        d = K.data_for([3, 2], 12)
        def f(**k):
            m = B.build("GPC", 1, [3, 2])
            return U.cross_validation(m, d, 2, {"learning_rate": [0.1]}, algorithm=JML(), max_epochs=3, cores_to_use=1, multiprocessing=False, **k)
        return f, [("", STOP), ("theta_estimation", "ML"), ("device", "cpu")]
    yield "cross_validation", ["GPC"], cv

    def outl(kind):
        x = torch.tensor([[-9., 0., 1., 2., 3., 4., 14., 6.5, 7.0, -3.6]]).T if kind == "column" else torch.tensor([[0.3 * i, (i - 4.0) ** 3] for i in range(10)])
        def f(how="", **k):
            o = OutlierDetector(**{a: b for a, b in k.items() if a == "factor"})
            kw = {a: b for a, b in k.items() if a in ("upper", "lower")}
            sm = {a: b for a, b in k.items() if a == "smallest"}
            return [o.is_outlier(x[3:6], x, **kw), o.identify_outliers(x, **kw), o.smallest_largest_non_outlier(x, **sm)]
        return f, [("", STOP), ("factor", 1.5), ("upper", True), ("lower", True), ("smallest", True)]
    yield "OutlierDetector", ["column", "table"], outl
