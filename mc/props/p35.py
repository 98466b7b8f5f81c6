"""P35: arguments the documentation rules out are refused, all others accepted, up to the exact bound."""
import inspect
import itertools
import logging
import torch
from mc.core import require, quiet
from mc import kinds as K
from mc import models as B
from mc.props import p32, p33

NAN = float("nan")
META = dict(
    title="Invalid arguments are refused, valid ones accepted, up to the exact bound",
    statement="An argument that its documentation or error message rules out (a relationship matrix of another shape or with an item without latent variables, a correct response that is no category, "
              "a hidden layer that cannot be split, an even degree, scores or standard errors that an estimation method cannot give, a selection or range a plot cannot show, a link without common items) "
              "is refused with an error, and every other value is accepted: exactly at the stated bound, for every family and option. "
              "A refused query leaves the model, its algorithm and scales, and the arguments as they were; a refused fit leaves the parameters as they were.",
    over=["inputs", "configurations"],
    quant="every public entry point that states a restriction x every value in a small grid on both sides of it",
    why="A test tries one bad value; a bound off by one or a check of the wrong axis shows only next to the bound.",
    files=["irtorch/models/base_irt_model.py", "irtorch/models/nested_logit.py", "irtorch/models/monotone_nn.py", "irtorch/plotter.py", "irtorch/evaluator.py", "irtorch/rescale/bit.py",
           "irtorch/rescale/link_common_items.py", "irtorch/estimation_algorithms/jml.py", "irtorch/estimation_algorithms/mml.py", "irtorch/utils.py", "irtorch/outlier_detector.py"],
    mech=[("relationship matrices", "constructors of the models"), ("plot selections", "Plotter"), ("score estimation", "BaseIRTModel.latent_scores")],
    technique="exhaustive enumeration of small argument grids on both sides of every stated restriction, on the real code, against the restriction as a predicate; state compared before and after a refusal",
)
PARALLEL = True
BOUNDS = "up to 3 items and 3 latent variables: every shape up to 3x4 and every boolean relationship matrix; integers from -1 to 13; every subset of small option sets"
ASSUMPTIONS = ["an error is any of ValueError, TypeError, NotImplementedError, AssertionError", "values the documentation does not speak of (options that fall back to the default, second_theta_range) are not used",
               "a refused fit may leave a new algorithm object on the model"]
ERRORS = (ValueError, TypeError, NotImplementedError, AssertionError)


def judge(call, ok, what):
    """Whether call() is refused exactly when not ok; what it returned."""
    logging.disable(logging.CRITICAL)
    try:
        with quiet():
            out = call()
    except ERRORS as e:
        require(not ok, f"{what} was refused: {type(e).__name__}: {e}")
        return None
    finally:
        logging.disable(logging.NOTSET)
    require(ok, f"{what} was accepted")
    return out


CLS = {"2PL": "TwoParameterLogistic", "3PL": "ThreeParameterLogistic", "GPC": "GeneralizedPartialCredit", "GRM": "GradedResponse", "NRM": "NominalResponse", "SUR": "SurprisalSpline",
       "POLY": "MonotonePolynomial", "NN": "MonotoneNN", "NEST": "NestedLogit", "BSP": "MonotoneBSpline", "1PL": "OneParameterLogistic"}


def cls(fam):
    from irtorch import models as M
    return getattr(M, CLS[fam])


def new(fam, lv, n, **kw):
    if fam in B.BINARY:
        return cls(fam)(**({} if fam == "1PL" else dict(latent_variables=lv)), items=n, **kw)
    cats = ([3, 4, 3, 3] if fam == "NEST" else [2, 3, 2, 2])[:n]
    if fam == "NEST":
        correct = B.build("2PL", lv, [2] * n, mask=None)
        return cls(fam)(correct_response_model=correct, mc_correct=[0] * n, incorrect_response_model="nominal", latent_variables=lv, item_categories=cats, **kw)
    return cls(fam)(latent_variables=lv, item_categories=cats, **kw)


WITH_MASK = ("2PL", "3PL", "GPC", "GRM", "NRM", "SUR", "POLY", "NN", "NEST")


# ------------------------------------------------------------------------------------------------ constructors
def constructions():
    """(group, desc, ok, call)"""
    from irtorch import models as M
    for fam in WITH_MASK:
        for lv, n in ((1, 2), (2, 2), (3, 2), (2, 3), (2, 1)):
            for a, b in itertools.product(range(1, 4), range(1, 5)):
                yield fam, dict(lv=lv, items=n, shape=[a, b]), (a, b) == (n, lv), lambda fam=fam, lv=lv, n=n, a=a, b=b: new(fam, lv, n, item_theta_relationships=torch.ones(a, b, dtype=torch.bool))
            if (lv, n) == (3, 2) or (lv, n) == (2, 3):
                for bits in itertools.product((False, True), repeat=lv * n):
                    m = torch.tensor(bits).view(n, lv)
                    yield fam, dict(lv=lv, items=n, mask=[int(b) for b in bits]), all(any(r) for r in m.tolist()), lambda fam=fam, lv=lv, n=n, m=m: new(fam, lv, n, item_theta_relationships=m)
        if fam != "NEST":                       # which converts
            for dt in (torch.float32, torch.int64, torch.int32):
                yield fam, dict(dtype=str(dt)), False, lambda fam=fam, dt=dt: new(fam, 2, 2, item_theta_relationships=torch.ones(2, 2, dtype=dt))
    d = torch.tensor([[0., 1.], [1., 0.], [1., 1.]])
    for fam in CLS:
        if fam == "NEST":
            continue
        key = "items" if fam in B.BINARY else "item_categories"
        for with_data, with_size in itertools.product((False, True), repeat=2):
            kw = dict(**({"data": d} if with_data else {}), **({key: 2 if key == "items" else [2, 2]} if with_size else {}))
            yield fam, dict(given=sorted(kw)), bool(kw), lambda fam=fam, kw=kw: cls(fam)(**kw)
    # correct responses of nested logit models
    for cats in ([3, 4], [4, 3]):
        for c in itertools.product(range(-1, 6), repeat=2):
            yield "NEST", dict(cats=cats, mc_correct=list(c)), all(0 <= x < k for x, k in zip(c, cats)), lambda cats=cats, c=c: M.NestedLogit(
                correct_response_model=B.build("2PL", 1, [2, 2]), mc_correct=list(c), incorrect_response_model="nominal", latent_variables=1, item_categories=cats)
    for name in ("nominal", "bspline", "Nominal", "spline", "", "gpc"):
        yield "NEST", dict(incorrect=name), name in ("nominal", "bspline"), lambda name=name: M.NestedLogit(
            correct_response_model=B.build("2PL", 1, [2, 2]), mc_correct=[0, 1], incorrect_response_model=name, latent_variables=1, item_categories=[3, 4])
    # hidden layers
    for bounded in (True, False):
        for dims in [(i,) for i in range(1, 14)] + list(itertools.product((2, 3, 4, 6, 9), repeat=2)) + [(6, 6, 4), (6, 4, 6), (4, 6, 6)]:
            k = 3 if bounded else 2
            yield "NN", dict(bounded=bounded, hidden=list(dims)), all(x % k == 0 for x in dims), lambda bounded=bounded, dims=dims: M.MonotoneNN(
                latent_variables=1, item_categories=[2, 3], hidden_dim=list(dims), use_bounded_activation=bounded)
    for deg in range(1, 8):
        yield "POLY", dict(degree=deg), deg % 2 == 1, lambda deg=deg: M.MonotonePolynomial(latent_variables=1, item_categories=[2, 3], degree=deg)
    # mixtures
    for lvs in [t for k in (1, 2, 3) for t in itertools.product((1, 2, 3), repeat=k)]:
        yield "MIX", dict(lvs=list(lvs)), len(set(lvs)) == 1, lambda lvs=lvs: M.ModelMix([B.build(("2PL", "GRM", "GPC")[i], lv, [2, 2]) for i, lv in enumerate(lvs)])


# ------------------------------------------------------------------------------------------------ queries of models
def refusals(name):
    """(group, desc, ok, call(m), arguments): for the models of that name.  Those calls may not change the model when refused."""
    t = lambda m: K.thetas_for(m.latent_variables, 3)                                     # noqa: E731
    lv, items, mc = LVS[name]
    for n in range(0, 5):
        yield "information", dict(degrees=n), n == lv and n > 0, lambda m, n=n: m.information(t(m), degrees=[30.] * n)
    if name in ("NRM1-mc-JML", "MIX1-JML", "GPC1-JML", "BSP1-JML", "2PL2-MML", "GRM2-AE", "NN1-VAE"):
        for m_ in ("NN", "ML", "EAP", "MAP", "nn", "ml", "MLE", "", "WLE"):
            for se in (False, True):
                ok = m_ in ("NN", "ML", "EAP", "MAP") and (not se or m_ in ("ML", "NN")) and (m_ != "NN" or name in AUTO)
                yield "latent_scores", dict(method=m_, se=se), ok, lambda m, m_=m_, se=se: m.latent_scores(K.data_for(m.item_categories, n=2), theta_estimation=m_, standard_errors=se, rescale=False)
    if name in ("2PL2-MML", "2PL1", "3PL1", "3PL2"):
        for irt in (False, True):
            yield "item_parameters", dict(irt_format=irt), not irt or lv == 1, lambda m, irt=irt: m.item_parameters(irt_format=irt)
    if name == "NRM1-mc-JML":
        for given in (False, True):
            yield "item_theta_relationship_directions", dict(theta=given), given, lambda m, given=given: m.item_theta_relationship_directions(**({"theta": t(m)} if given else {}))
    if name in ("MIX1-JML", "3PL1", "GRM2-AE", "SUR1", "NEST1"):
        for red in ("sum", "none", "mean", "Sum", ""):
            if name == "MIX1-JML" and red not in ("sum", "none", "mean"):
                continue
            yield "log_likelihood", dict(reduction=red), red in ("sum", "none"), lambda m, red=red: m.log_likelihood(
                data=K.data_for(m.item_categories, n=3), output=m(t(m)), loss_reduction=red)
    if name in TRAINED:
        for level in ("item", "respondent", "Item", "items", "group", ""):
            yield "infit_outfit", dict(level=level), level in ("item", "respondent"), lambda m, level=level: m.evaluate.infit_outfit(data=K.data_for(m.item_categories), theta=K.thetas_for(m.latent_variables), level=level)
        for meth in ("data", "encoder sampling", "qmvn", "gmm", "mvn", "Data", ""):
            if meth == "gmm" or (meth == "qmvn" and lv > 1):
                continue
            ok = meth in ("data", "qmvn") or meth == "encoder sampling" and name == "NN1-VAE"
            yield "sum_score_probabilities", dict(method=meth), ok, lambda m, meth=meth: m.evaluate.sum_score_probabilities(
                latent_density_method=meth, trapezoidal_segments=5, sample_size=20)
        for approx in ("qmvn", "gmm", "mvn", "data", ""):
            yield "approximate_latent_density", dict(approximation=approx), approx in ("qmvn", "gmm"), lambda m, approx=approx: m.evaluate.approximate_latent_density(
                K.thetas_for(m.latent_variables, 20), approximation=approx, **({"cv_n_components": [1]} if approx == "gmm" else {}))
        yield from plots(name, lv)


def plots(name, lv):
    import inspect as _i                                                                   # noqa: F401
    curves = {
        "item_probabilities": lambda m, **k: m.plot.item_probabilities(1, steps=3, **k),
        "item_entropy": lambda m, **k: m.plot.item_entropy(1, steps=3, **k),
        "log_likelihood": lambda m, **k: m.plot.log_likelihood(K.data_for(m.item_categories, n=1), steps=3, **k),
        "information": lambda m, **k: m.plot.information(steps=3, **({"degrees": [45.] * m.latent_variables} if m.latent_variables > 1 else {}), **k),
        "expected_sum_score": lambda m, **k: m.plot.expected_sum_score(steps=3, **k),
    }
    picks = [p for k in (1, 2, 3) for p in itertools.product((1, 2, 3), repeat=k) if len(set(p)) == k]
    for c, f in curves.items():
        for p in picks:
            yield f"plot.{c}", dict(latent_variables=list(p)), len(p) <= 2 and max(p) <= lv, lambda m, f=f, p=p: f(m, latent_variables=p)
        for n in range(1, 5):
            yield f"plot.{c}", dict(range_length=n), n == 2, lambda m, f=f, n=n: f(m, theta_range=(-2., 2., 3., 4.)[:n])
    for n in range(0, 4):
        for p in [p for p in picks if len(p) <= min(2, lv) and max(p) <= lv]:
            if n == 0 and lv - len(p):
                continue
            yield "plot.item_probabilities", dict(fixed=n, latent_variables=list(p)), n == lv - len(p), lambda m, n=n, p=p: curves["item_probabilities"](m, latent_variables=p, fixed_thetas=torch.zeros(n))
    for group in (False, True):
        yield "plot.item_probabilities", dict(plot_group_fit=group), not group or lv == 1, lambda m, group=group: m.plot.item_probabilities(
            1, steps=3, plot_group_fit=group, group_fit_groups=2, group_fit_data=K.data_for(m.item_categories), group_fit_population_theta=K.thetas_for(m.latent_variables))
    for deg in (False, True):
        yield "plot.information", dict(degrees=deg), deg or lv == 1, lambda m, deg=deg: m.plot.information(steps=3, **({"degrees": [45.] * m.latent_variables} if deg else {}))
    for p in picks:
        yield "plot.latent_score_distribution", dict(latent_variables=list(p)), len(p) <= 2 and max(p) <= lv, lambda m, p=p: m.plot.latent_score_distribution(
            scores_to_plot=K.thetas_for(m.latent_variables), latent_variables=p)
    if name in SCALED:
        for v in range(1, 4):
            yield "plot.scale_transformations", dict(input_latent_variable=v), v <= lv, lambda m, v=v: m.plot.scale_transformations(input_latent_variable=v, steps=3)
        for n in range(1, 5):
            yield "plot.scale_transformations", dict(range_length=n), n == 2, lambda m, n=n: m.plot.scale_transformations(input_theta_range=(-2., 2., 3., 4.)[:n], steps=3)
    else:
        yield "plot.scale_transformations", dict(scale=False), False, lambda m: m.plot.scale_transformations(steps=3, input_theta_range=(-2., 2.))


LVS = {"GPC1-JML": (1, 3, False), "2PL2-MML": (2, 3, False), "NRM1-mc-JML": (1, 3, True), "GRM2-AE": (2, 3, False), "NN1-VAE": (1, 3, False), "MIX1-JML": (1, 3, False), "BSP1-JML": (1, 3, False),
       "2PL1": (1, 3, False), "3PL1": (1, 3, False), "3PL2": (2, 3, False), "SUR1": (1, 3, False), "NEST1": (1, 2, True)}
AUTO = ("GRM2-AE", "NN1-VAE")
TRAINED = tuple(K.KINDS)
SCALED = ("GPC1-JML", "2PL2-MML", "NRM1-mc-JML", "NN1-VAE", "BSP1-JML")


def model(name):
    if name in K.KINDS:
        return K.KINDS[name]()
    m = {"2PL1": lambda: B.build("2PL", 1, [2, 2, 2]), "3PL1": lambda: B.build("3PL", 1, [2, 2, 2]), "3PL2": lambda: B.build("3PL", 2, [2, 2, 2]), "SUR1": lambda: B.build("SUR", 1, [3, 2, 3]),
         "NEST1": lambda: B.build("NEST", 1, [3, 4])}[name]()
    K.jml(m)
    return m


# ------------------------------------------------------------------------------------------------ everything else
def others():
    """(group, desc, ok, call)"""
    from irtorch import rescale as R
    from irtorch import utils as U
    from irtorch.config import set_verbosity
    from irtorch.estimation_algorithms import AE, JML, MML, VAE
    from irtorch.irt_dataset import PytorchIRTDataset
    from irtorch.outlier_detector import OutlierDetector
    from irtorch.torch_modules import GaussianMixtureModel, RationalQuadraticSpline, SoftplusLinear
    N_ = torch.distributions.Normal

    def frozen(m, call):
        def f():
            p = {k: v.clone() for k, v in m.state_dict().items()}
            try:
                return call()
            except ERRORS:
                for k, v in m.state_dict().items():
                    require(torch.equal(torch.nan_to_num(v), torch.nan_to_num(p[k])), f"a refused fit changed {k}")
                raise
        return f

    for lv in (1, 2, 3):
        for a, b in itertools.product((4, 5, 6, 1), (1, 2, 3, 4)):
            m = B.build("2PL", lv, [2, 2])
            yield "JML start_thetas", dict(lv=lv, shape=[a, b]), (a, b) == (5, lv), frozen(m, lambda m=m, a=a, b=b: m.fit(
                K.data_for([2, 2], n=5), algorithm=JML(), start_thetas=torch.zeros(a, b), max_epochs=1, device="cpu"))
        for a, b in itertools.product((1, 2, 3, 4), repeat=2):
            m = B.build("2PL", lv, [2, 2])
            yield "MML covariance_matrix", dict(lv=lv, shape=[a, b]), (a, b) == (lv, lv), frozen(m, lambda m=m, a=a, b=b: m.fit(
                K.data_for([2, 2], n=5), algorithm=MML(), covariance_matrix=torch.eye(max(a, b))[:a, :b].clone(), quadrature_points=2, max_epochs=1, device="cpu"))
    for lv in (1, 2, 3, 4):
        for q in (None, 2):
            for method in ("gauss_hermite", "quasi_mc"):
                m = B.build("2PL", lv, [2, 2])
                yield "MML", dict(lv=lv, quadrature_points=q, method=method), lv <= 3 or q is not None, frozen(m, lambda m=m, q=q, method=method: m.fit(
                    K.data_for([2, 2], n=3), algorithm=MML(), quadrature_points=q, max_epochs=1, device="cpu", integration_method=method))
    for lv in (1, 2, 3, 4, 5):
        m = B.build("2PL", lv, [2, 2])
        K.jml(m)
        m.algorithm.training_theta_scores = torch.cat([torch.eye(lv), -torch.eye(lv), torch.zeros(1, lv)])
        yield "EAP", dict(lv=lv), lv <= 4, lambda m=m: m.latent_scores(K.data_for([2, 2], n=1), theta_estimation="EAP", eap_theta_integration_points=2)
    for name, A in (("AE", AE), ("VAE", VAE)):
        for hot, imp in itertools.product((False, True), (None, "zero", "mean")):
            m = B.build("GPC", 1, [3, 2])
            yield name, dict(one_hot=hot, imputation=imp), hot or imp is not None, frozen(m, lambda m=m, A=A, hot=hot, imp=imp: m.fit(
                K.data_for([3, 2], n=6), algorithm=A(), one_hot_encoded=hot, imputation_method=imp, max_epochs=1, device="cpu", hidden_layers_encoder=[3]))
    # scales
    for lv in (1, 2, 3):
        t = K.thetas_for(lv, 6)
        for a, b in itertools.product((1, 2, 3, 4), repeat=2):
            m = B.build("2PL", lv, [2, 2])
            yield "Rotate", dict(lv=lv, shape=[a, b]), (a, b) == (lv, lv), lambda m=m, a=a, b=b: R.Rotate(m, rotation_matrix=torch.eye(max(a, b))[:a, :b].clone())
        for n in range(1, 5):
            yield "RankCDF", dict(lv=lv, distributions=n), n in (1, lv), lambda t=t, n=n: R.RankCDF(t, [N_(0., 1.)] * n)
            yield "Flow", dict(lv=lv, batch_shape=n), n in (1, lv), lambda t=t, lv=lv, n=n: R.Flow(lv).fit(t, distribution=N_(torch.zeros(n), torch.ones(n)), max_epochs=1, device="cpu", num_bins=3)
        yield "Flow", dict(lv=lv, batch_shape=0), True, lambda t=t, lv=lv: R.Flow(lv).fit(t, distribution=N_(torch.tensor(0.), torch.tensor(1.)), max_epochs=1, device="cpu", num_bins=3)
        yield "RankCDF.inverse", dict(lv=lv), False, lambda t=t: R.RankCDF(t).inverse(t)
        for call in ("transform", "inverse"):
            for fitted in (False, True):
                def f(t=t, lv=lv, call=call, fitted=fitted):
                    s = R.Flow(lv)
                    if fitted:
                        s.fit(t, max_epochs=1, device="cpu", num_bins=3)
                    return getattr(s, call)(t)
                yield f"Flow.{call}", dict(lv=lv, fitted=fitted), fitted, f
    m2 = B.build("2PL", 2, [2, 2])
    for kw in ("data", "theta", "loadings", "rotation_matrix", None):
        v = {"data": lambda: K.data_for([2, 2], n=8), "theta": lambda: K.thetas_for(2), "loadings": lambda: torch.tensor([[1., .2], [.3, .9]]), "rotation_matrix": lambda: torch.eye(2), None: None}[kw]
        yield "Rotate", dict(given=kw), kw is not None, lambda kw=kw, v=v: R.Rotate(m2, **({kw: v()} if kw else {}), **({"theta_estimation": "EAP"} if kw == "data" else {}))
    for lv in (1, 2):
        m = B.build("GPC", lv, [3, 2, 3])
        K.jml(m)
        for g in range(-2, 4):
            yield "Bit", dict(lv=lv, grid_points=g), g > 0, lambda m=m, g=g: R.Bit(m, population_theta=K.thetas_for(m.latent_variables), grid_points=g)
        for items in (None, [0], [2, 0], (0, 1), [0., 1.], ["0"], [0, 1.5], torch.tensor([0, 1]), range(2)):
            ok = items is None or isinstance(items, list) and all(isinstance(i, int) for i in items)
            yield "Bit", dict(lv=lv, items=repr(items)), ok, lambda m=m, items=items: R.Bit(m, population_theta=K.thetas_for(m.latent_variables), items=items)
        for shape in ((), (1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (1, 3), (2, 2)):
            n = torch.zeros(shape).numel()
            yield "Bit", dict(lv=lv, start_theta=list(shape)), n == lv, lambda m=m, shape=shape: R.Bit(m, population_theta=K.thetas_for(m.latent_variables), start_theta=torch.zeros(shape))
        for n in (1, 2, 3):
            yield "Bit.set_start_theta", dict(lv=lv, n=n), n == lv, lambda m=m, n=n: R.Bit(m, population_theta=K.thetas_for(m.latent_variables)).set_start_theta(torch.zeros(n))
        yield "Bit.inverse", dict(lv=lv), False, lambda m=m: R.Bit(m, population_theta=K.thetas_for(m.latent_variables)).inverse(K.thetas_for(m.latent_variables))
        for kind in ("NRM", "NRM-mc"):
            mm = B.build("NRM", lv, [3, 4, 2], **({"mc_correct": [1, 0, 1]} if kind == "NRM-mc" else {}))
            K.jml(mm)
            yield "Bit", dict(lv=lv, mc_start=kind), kind == "NRM-mc", lambda mm=mm: R.Bit(mm, population_theta=K.thetas_for(mm.latent_variables), mc_start_theta_approx=True, guessing_iterations=20, theta_estimation="EAP")
            if kind == "NRM-mc" and lv == 1:
                for g in ([.2, .3, .4], [0., 0., 0.], [.99, 0., .5], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [-.1, .2, .2], [.2, .2, -.01], [.2, .2], [.2] * 4, [.2]):
                    ok = len(g) == 3 and all(0 <= x < 1 for x in g)
                    yield "Bit", dict(guessing=g), ok, lambda mm=mm, g=g: R.Bit(mm, population_theta=K.thetas_for(1), mc_start_theta_approx=True, guessing_probabilities=g, guessing_iterations=20, theta_estimation="EAP")
    for lva, lvb in itertools.product((1, 2), repeat=2):
        yield "LinkCommonItems", dict(lvs=[lva, lvb]), (lva, lvb) == (1, 1), lambda lva=lva, lvb=lvb: R.LinkCommonItems(
            B.build("GPC", lva, [2, 3, 2]), B.build("GPC", lvb, [2, 3, 2]), model_from_common_item_indices=[0, 1], model_to_common_item_indices=[0, 1])
    for na, nb in itertools.product((None, 0, 1, 2, 3), repeat=2):
        pick = lambda n: None if n is None else list(range(n))                             # noqa: E731
        yield "LinkCommonItems", dict(common=[na, nb]), na == nb and bool(na), lambda na=na, nb=nb: R.LinkCommonItems(
            B.build("GPC", 1, [2, 3, 2]), B.build("GPC", 1, [2, 3, 2]), model_from_common_item_indices=pick(na), model_to_common_item_indices=pick(nb))
    for method in ("spline", "neuralnet", "Spline", "flow", ""):
        yield "LinkCommonItems", dict(method=method), method in ("spline", "neuralnet"), lambda method=method: R.LinkCommonItems(
            B.build("GPC", 1, [2, 3]), B.build("GPC", 1, [2, 3]), model_from_common_item_indices=[0, 1], model_to_common_item_indices=[0, 1], method=method)
        if method in ("spline", "neuralnet"):
            yield "LinkCommonItems.inverse", dict(method=method), method == "spline", lambda method=method: R.LinkCommonItems(
                B.build("GPC", 1, [2, 3]), B.build("GPC", 1, [2, 3]), model_from_common_item_indices=[0, 1], model_to_common_item_indices=[0, 1], method=method).inverse(torch.zeros(2, 1))
    # utilities
    d = torch.tensor([[0., 1.], [NAN, 1.], [1., -1.]])
    for method in ("zero", "mean", "random incorrect", "prior expected", "median", "random_incorrect", "Zero", ""):
        for given in ("", "mc_correct", "GPC", "NRM-mc"):
            ok = method in ("zero", "mean") or method == "random incorrect" and given in ("mc_correct", "NRM-mc") or method == "prior expected" and given == "GPC"
            if method == "random incorrect" and given == "GPC":
                ok = False

            def f(method=method, given=given):
                kw = {"": {}, "mc_correct": dict(mc_correct=[0, 1], item_categories=[2, 2]), "GPC": dict(model=B.build("GPC", 1, [2, 2])), "NRM-mc": dict(model=B.build("NRM", 1, [2, 2], mc_correct=[0, 1]))}[given]
                with p32.Watch(data=d, **{k: v for k, v in kw.items() if k != "model"}):
                    return U.impute_missing(d, method=method, **kw)
            yield "impute_missing", dict(method=method, given=given), ok, f
    for cats in (None, [2], [2, 2], [2, 2, 2]):
        for hot in (False, True):
            yield "one-hot data", dict(cats=cats, hot=hot), not hot or cats == [2, 2], lambda cats=cats, hot=hot: PytorchIRTDataset(d, one_hot_encoded=hot, item_categories=cats)
    for device in ("cpu",) + (() if torch.cuda.is_available() else ("cuda",)):
        yield "cross_validation", dict(device=device), device == "cpu", lambda device=device: U.cross_validation(
            B.build("2PL", 1, [2, 2]), K.data_for([2, 2], n=6), 2, {"learning_rate": [0.1]}, "EAP", device, algorithm=JML(), multiprocessing=False, max_epochs=1)
    for v in range(-1, 8):
        def f(v=v):
            was = logging.getLogger("irtorch").level
            try:
                set_verbosity(v)
            except ERRORS:
                require(logging.getLogger("irtorch").level == was, "a refused level changed the level")
                raise
            finally:
                logging.getLogger("irtorch").setLevel(was)
        yield "set_verbosity", dict(level=v), 1 <= v <= 5, f
    data = torch.tensor([[0., 1.], [1., 3.], [2., 5.], [3., 4.], [50., 2.]])
    for factor in (-1., 0., .5, .99, 1., 1.01, 1.5, 3):
        yield "OutlierDetector", dict(factor=factor), factor >= 1, lambda factor=factor: OutlierDetector(factor)

        def g(factor=factor):
            o = OutlierDetector(2.)
            try:
                o.factor = factor
            except ERRORS:
                require(o.factor == 2., "a refused factor was set")
                raise
        yield "OutlierDetector.factor", dict(factor=factor), factor >= 1, g
    for up, lo in itertools.product((False, True), repeat=2):
        yield "identify_outliers", dict(upper=up, lower=lo), up or lo, lambda up=up, lo=lo: OutlierDetector(1.5).identify_outliers(data, upper=up, lower=lo)
        yield "is_outlier", dict(upper=up, lower=lo), up or lo, lambda up=up, lo=lo: OutlierDetector(1.5).is_outlier(data[:2], data, upper=up, lower=lo)
    for shape in ((5,), (5, 2), (5, 1), (2, 5, 1)):
        z = torch.arange(float(torch.zeros(shape).numel())).reshape(shape)
        for call in ("identify_outliers", "smallest_largest_non_outlier"):
            yield call, dict(shape=list(shape)), len(shape) == 2, lambda z=z, call=call: getattr(OutlierDetector(1.5), call)(z)
        for other in ((5,), (5, 2), (5, 1), (1, 2), (2, 5, 1)):
            y = torch.arange(float(torch.zeros(other).numel())).reshape(other)
            yield "is_outlier", dict(new=list(other), data=list(shape)), len(shape) == len(other) == 2 and shape[1] == other[1], lambda z=z, y=y: OutlierDetector(1.5).is_outlier(y, z)
    for k, f in itertools.product(range(-1, 4), repeat=2):
        yield "GaussianMixtureModel", dict(components=k, features=f), k >= 1 and f >= 1, lambda k=k, f=f: GaussianMixtureModel(n_components=k, n_features=f)
    for f, c in itertools.product((1, 2, 3), repeat=2):
        yield "GaussianMixtureModel.fit", dict(features=f, columns=c), f == c, lambda f=f, c=c: GaussianMixtureModel(n_components=1, n_features=f).fit(K.thetas_for(c, 12), iterations=2) \
            if "iterations" in inspect.signature(GaussianMixtureModel.fit).parameters else GaussianMixtureModel(n_components=1, n_features=f).fit(K.thetas_for(c, 12))
    for ins in [None] + [list(s) for k in (1, 2) for s in itertools.product((1, 2, 3), repeat=k)]:
        for outs in [None] + [list(s) for k in (1, 2) for s in itertools.product((1, 2, 3), repeat=k)]:
            if ins is not None and outs is not None and len(ins) != len(outs):
                continue
            ok = outs is None if ins is None else sum(ins) == 3 and (outs is None or sum(outs) == 4)
            yield "SoftplusLinear", dict(ins=ins, outs=outs), ok, lambda ins=ins, outs=outs: SoftplusLinear(
                3, 4, separate_inputs=None if ins is None else torch.tensor(ins), separate_outputs=None if outs is None else torch.tensor(outs))
    for w, h in itertools.product((.05, .1, .2, .249, .25, .251, .3), repeat=2):
        yield "RationalQuadraticSpline", dict(width=w, height=h), w * 4 <= 1 and h * 4 <= 1, lambda w=w, h=h: RationalQuadraticSpline(
            1, num_bins=4, lower_input_bound=-2., upper_input_bound=2., lower_output_bound=-2., upper_output_bound=2., min_bin_width=w, min_bin_height=h)(torch.tensor([[.3]]))


def run(ctx):
    torch.manual_seed(1)
    for group, desc, ok, call in ctx.each(constructions()):
        with ctx.case(f"construct:{group}", **desc):
            torch.manual_seed(1)
            judge(call, ok, f"{group} {desc}")
            ctx.state(group, sorted(desc.items(), key=str), ok)
            ctx.step()
    for name in ctx.each(list(LVS)):
        torch.manual_seed(1)
        with quiet():
            m = model(name)
        for group, desc, ok, call in refusals(name):
            with ctx.case(f"query:{group}", model=name, **desc):
                before = p33.state(m)
                judge(lambda: call(m), ok, f"{group} {desc}")
                if not ok:
                    p33.compare(before, p33.state(m), f"after the refusal of {group} {desc}")
                ctx.state(name, group, sorted(desc.items(), key=str), ok)
                ctx.step()
    for group, desc, ok, call in ctx.each(others()):
        with ctx.case(group, **desc):
            torch.manual_seed(1)
            judge(call, ok, f"{group} {desc}")
            ctx.state(group, sorted(desc.items(), key=str), ok)
            ctx.step()
