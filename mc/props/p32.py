"""P32: what the caller passes in is only read."""
import copy
import itertools
import torch
from mc.core import close, require, quiet
from mc import kinds as K
from mc import models as B
from mc import scales as S

META = dict(
    title="What the caller passes in is only read",
    statement="Constructing models and scales, fitting, scoring, evaluating, plotting and every data utility leave the tensors, lists, dictionaries, models and distributions "
              "passed to them as they were, including autograd flags and accumulated gradients, and the same call with the same arguments gives the same result again. "
              "Latent vectors and responses that take part in a gradient graph give the same answers as plain ones.",
    over=["inputs", "configurations", "histories"],
    quant="all public calls x their option values x argument forms (plain, gradient leaf, inner node of a graph, view into a larger tensor, frozen parameters), each followed by a comparison of everything passed in",
    why="Tests discard their arguments after the call; a user passes the same data, starting values, scales and settings to one fit after another.",
    files=["irtorch/models/base_irt_model.py", "irtorch/estimation_algorithms", "irtorch/rescale", "irtorch/utils.py", "irtorch/_internal_utils.py",
           "irtorch/irt_dataset.py", "irtorch/evaluator.py", "irtorch/torch_modules/gaussian_mixture_model.py", "irtorch/quantile_mv_normal.py"],
    mech=[("starting values", "JML.fit start_thetas, MML.fit covariance_matrix"), ("latent vectors", "Bit.jacobian, expected_item_score_gradients"),
          ("data", "PytorchIRTDataset, impute_missing, latent_scores, scale fits")],
    technique="exhaustive enumeration of public calls x options x argument forms on the real code, with a monitor that compares every argument before and after and a repeated call",
)
PARALLEL = True
BOUNDS = ("queries: 7 kinds of fitted models and 6 scale stacks x ~45 queries x 4 argument forms; fits: every family and option x 10 algorithm settings; 40 constructors; "
          "every scale x {construct, fit, transform, inverse, jacobian} x 4 forms; every utility x all option values x data with all kinds of missing codes")
ASSUMPTIONS = ["fits change the model and the algorithm they are called on, which is their purpose; algorithm settings and data are arguments",
               "sharing memory between an argument and a result is allowed as long as nothing writes to it"]


# ---------------------------------------------------------------------------------------------------------- monitor
def freeze(x, seen=None):
    """A deep copy in a comparable form."""
    from irtorch.models import BaseIRTModel
    from irtorch.estimation_algorithms.base_irt_algorithm import BaseIRTAlgorithm
    if isinstance(x, torch.Tensor):
        return ("tensor", x.detach().clone(), x.requires_grad, None if not x.is_leaf or x.grad is None else x.grad.clone(), str(x.dtype), tuple(x.shape), x.is_leaf)
    if isinstance(x, torch.distributions.Distribution):
        return ("distribution", type(x).__name__, [(k, freeze(v)) for k, v in sorted(vars(x).items()) if isinstance(v, torch.Tensor)])
    if isinstance(x, torch.nn.Module):
        out = ["module", [(k, freeze(v)) for k, v in x.state_dict(keep_vars=True).items()], [y.training for y in x.modules()]]
        if isinstance(x, BaseIRTModel):
            out += [list(x.item_categories), None if x.mc_correct is None else list(x.mc_correct), [id(s) for s in x.scale], id(x.algorithm)]
            if x.algorithm is not None:
                a = x.algorithm
                out += [freeze(getattr(a, n, None)) for n in ("train_data", "training_theta_scores", "covariance_matrix")]
                if getattr(a, "encoder", None) is not None:
                    out += [freeze(a.encoder)]
        return tuple(out)
    if isinstance(x, BaseIRTAlgorithm):
        return ("algorithm", [(k, freeze(v)) for k, v in sorted(vars(x).items()) if isinstance(v, (torch.Tensor, int, float, str, bool, list, dict, torch.nn.Module, type(None)))])
    if isinstance(x, dict):
        return ("dict", [(k, freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v) for v in x])
    return ("value", x)


def same_frozen(a, b, what):
    require(type(a) is type(b), f"{what}: other kind of object")
    if isinstance(a, torch.Tensor):
        require(a.shape == b.shape and a.dtype == b.dtype and bool(((a == b) | (a != a) & (b != b)).all()), f"{what}: values changed from {a.tolist()} to {b.tolist()}"[:300])
    elif isinstance(a, (list, tuple)):
        require(len(a) == len(b), f"{what}: {len(a)} entries became {len(b)}")
        names = ("", "values", "requires_grad", "grad", "dtype", "shape", "leaf") if a and isinstance(a[0], str) and a[0] == "tensor" else None
        for i, (u, v) in enumerate(zip(a, b)):
            n = names[i] if names else a[0] if len(a) == 2 and isinstance(a[0], str) and i == 1 else i
            same_frozen(u, v, f"{what}.{n}")
    else:
        require(a == b or a is b, f"{what}: {a!r} became {b!r}")


class Watch:
    """with Watch(data=d, start=t): ...  compares at the end."""
    def __init__(self, **args):
        self.args = args

    def __enter__(self):
        self.before = {k: freeze(v) for k, v in self.args.items()}

    def __exit__(self, et, ev, tb):
        if et is None:
            self.check()
        return False

    def check(self):
        for k, v in self.args.items():
            same_frozen(self.before[k], freeze(v), f"argument {k}")


def forms(t):
    """argument name -> (tensor to pass, tensors to watch)"""
    leaf = t.clone().requires_grad_(True)
    held = t.clone().requires_grad_(True)
    held.grad = torch.full_like(held, 0.5)
    base = t.clone().requires_grad_(True)
    node = base * 1.0
    big = torch.full((t.shape[0] + 2, t.shape[1] + 2), 9.0)
    big[1:-1, 1:-1] = t
    view = big[1:-1, 1:-1]
    c = t.clone()
    return {"plain": (c, dict(theta=c)), "leaf": (leaf, dict(theta=leaf)), "leaf with a gradient": (held, dict(theta=held)),
            "node": (node, dict(theta=node, origin=base)), "view": (view, dict(theta=view, surroundings=big))}


# ---------------------------------------------------------------------------------------------------------- kinds
def stacks():
    from irtorch.rescale import Bit, Flow, RankCDF, LinkCommonItems, Reverse

    def with_scale(f, lv=1):
        def make():
            m = B.build("GPC", lv, [3, 2, 3])
            K.jml(m)
            m.add_scale_transformation(f(m))
            return m
        return make
    return {"GPC1+Bit": with_scale(lambda m: Bit(m, population_theta=K.thetas_for(1), grid_points=40)),
            "GPC1+Flow": with_scale(lambda m: S.flow(1)), "GPC1+Rank": with_scale(lambda m: RankCDF(K.thetas_for(1))),
            "GPC1+Link": with_scale(lambda m: S.link()), "GPC2+Flow": with_scale(lambda m: S.flow(2), 2),
            "GPC2+Rotate": with_scale(lambda m: S.rotate(m), 2)}


def kinds():
    return {**K.KINDS, **stacks()}


def applicable(kn, name):
    if kn in ("GPC1+Bit", "GPC1+Rank") and name == "inverse":
        return False
    return True


# ---------------------------------------------------------------------------------------------------------- fits
def fit_settings():
    C = lambda lv: torch.tensor([[1.2, 0.3], [0.3, 0.9]])[:lv, :lv].clone()
    return [("MML", lambda lv, n: {}), ("MML", lambda lv, n: dict(covariance_matrix=C(lv))), ("MML", lambda lv, n: dict(integration_method="gauss_hermite", covariance_matrix=C(lv))),
            ("JML", lambda lv, n: {}), ("JML", lambda lv, n: dict(start_thetas=K.thetas_for(lv, n))), ("JML", lambda lv, n: dict(start_thetas=K.thetas_for(lv, n), batch_size=5)),
            ("AE", lambda lv, n: dict(hidden_layers_encoder=[4, 3])), ("AE", lambda lv, n: dict(hidden_layers_encoder=[4], one_hot_encoded=False, imputation_method="?")),
            ("VAE", lambda lv, n: dict(hidden_layers_encoder=[4, 3])), ("VAE", lambda lv, n: dict(hidden_layers_encoder=[4], one_hot_encoded=False, imputation_method="?", iw_samples=2))]


def fit_families(thorough):
    out = []
    for fam, o in B.VARIANTS:
        for lv in (1, 2) if fam in ("GPC", "2PL") or thorough and fam != "1PL" else (1,):
            out.append((fam, lv, [2, 2, 2] if fam in B.BINARY else [3, 2, 3], o))
    out.append(("NRM", 1, [3, 4, 2], dict(mc_correct=[1, 0, 1])))
    out.append(("MIX", 1, [2, 2, 3], dict(parts=[("2PL", 1, [2, 2]), ("GPC", 1, [3])])))
    return out


def do_fit(fam, lv, cats, o, alg, kw, d):
    from irtorch import estimation_algorithms as E
    torch.manual_seed(3)
    m = B.build(fam, lv, cats, **copy.deepcopy(o))
    if alg in ("AE", "VAE"):
        kw["evaluation_interval_size"] = 1
    if kw.get("imputation_method") == "?":
        kw["imputation_method"] = "random incorrect" if m.mc_correct is not None else "mean"
    a = getattr(E, alg)()
    torch.manual_seed(5)
    m.fit(d, algorithm=a, max_epochs=2, device="cpu", **kw)
    out = [v.detach().clone() for v in m.parameters()]
    if a.training_theta_scores is not None:
        out.append(a.training_theta_scores.detach().clone())
    return out, m


# ---------------------------------------------------------------------------------------------------------- constructors
def constructors():
    """name -> (function of a dict of arguments, arguments)"""
    from irtorch import models as M
    R = lambda: torch.tensor([[True, False], [True, True], [False, True]])
    out = {}
    for c in (M.TwoParameterLogistic, M.ThreeParameterLogistic):
        out[f"{c.__name__} items"] = (c, dict(latent_variables=2, items=3, item_theta_relationships=R()))
        out[f"{c.__name__} data"] = (c, dict(latent_variables=2, data=K.data_for([2, 2, 2], missing=True), item_theta_relationships=R()))
    out["OneParameterLogistic data"] = (M.OneParameterLogistic, dict(data=K.data_for([2, 2], missing=True)))
    for c in (M.GeneralizedPartialCredit, M.GradedResponse, M.NominalResponse, M.MonotoneNN, M.MonotonePolynomial, M.SurprisalSpline, M.MonotoneBSpline):
        n = c.__name__
        rel = {} if c is M.MonotoneBSpline else dict(item_theta_relationships=R())
        out[f"{n} categories"] = (c, dict(latent_variables=2, item_categories=[3, 2, 4], **rel))
        out[f"{n} data"] = (c, dict(latent_variables=2, data=K.data_for([3, 2, 4], missing=True), **{k: v.clone() for k, v in rel.items()}))
    out["NominalResponse mc"] = (M.NominalResponse, dict(item_categories=[3, 2, 4], mc_correct=[2, 0, 3]))
    for s in ("items", "categories"):
        out[f"MonotoneNN mc {s}"] = (M.MonotoneNN, dict(latent_variables=2, item_categories=[3, 2, 4], mc_correct=[2, 0, 3], separate="categories"))
        out[f"MonotoneNN hidden {s}"] = (M.MonotoneNN, dict(item_categories=[3, 2, 4], hidden_dim=[3, 6], separate=s))
        out[f"MonotoneBSpline knots {s}"] = (M.MonotoneBSpline, dict(item_categories=[3, 2, 4], knots=[-1.0, 0.2, 1.5], separate=s))
        out[f"MonotonePolynomial {s}"] = (M.MonotonePolynomial, dict(item_categories=[3, 2, 4], degree=5, separate=s))
    out["SurprisalSpline knots"] = (M.SurprisalSpline, dict(item_categories=[3, 2, 4], knots=[-1.0, 0.2, 1.5]))
    for inc in ("nominal", "bspline"):
        out[f"NestedLogit {inc}"] = (M.NestedLogit, dict(mc_correct=[2, 0, 3], correct_response_model=B.build("2PL", 2, [2, 2, 2]), incorrect_response_model=inc, latent_variables=2,
                                                         item_categories=[3, 2, 4], **(dict(item_theta_relationships=R()) if inc == "nominal" else dict(knots=[-1.0, 0.5]))))
        out[f"NestedLogit {inc} data"] = (M.NestedLogit, dict(mc_correct=[2, 0, 3], correct_response_model=B.build("2PL", 1, [2, 2, 2]), incorrect_response_model=inc,
                                                              data=K.data_for([3, 2, 4], missing=True)))
    out["ModelMix"] = (M.ModelMix, dict(models=[B.build("2PL", 1, [2, 2]), B.build("GPC", 1, [3, 4])]))
    out["ModelMix mc"] = (M.ModelMix, dict(models=[B.build("NRM", 1, [3, 4], mc_correct=[1, 0]), B.build("NEST", 1, [3, 2])]))
    return out


# ---------------------------------------------------------------------------------------------------------- scales
def scale_cases():
    """name -> (make(args) -> result, args)"""
    from irtorch import rescale as R
    out = {}

    def fitted(theta, **kw):
        f = R.Flow(theta.shape[1])
        f.fit(theta, max_epochs=2, num_bins=3, batch_size=5, device="cpu", **kw)
        return f.transform(K.thetas_for(theta.shape[1], k=2))
    for lv in (1, 2):
        out[f"Flow fit {lv}"] = (fitted, dict(theta=K.thetas_for(lv)))
        out[f"Flow fit {lv} distribution"] = (fitted, dict(theta=K.thetas_for(lv), distribution=torch.distributions.Normal(torch.zeros(1), torch.ones(1))))
        out[f"RankCDF {lv}"] = (lambda theta, lv=lv: R.RankCDF(theta).transform(K.thetas_for(lv, k=2)), dict(theta=K.thetas_for(lv)))
        out[f"RankCDF {lv} distributions"] = (lambda theta, distributions, lv=lv: R.RankCDF(theta, distributions).transform(K.thetas_for(lv, k=2)),
                                              dict(theta=K.thetas_for(lv), distributions=[torch.distributions.Normal(torch.tensor(1.0), torch.tensor(2.0)) for _ in range(lv)]))
        out[f"Bit {lv}"] = (lambda model, population_theta, start_theta, items, lv=lv: R.Bit(model, population_theta=population_theta, start_theta=start_theta, items=items, grid_points=40)
                            .transform(K.thetas_for(lv, k=2)),
                            dict(model=B.build("GPC", lv, [3, 2, 3]), population_theta=K.thetas_for(lv), start_theta=torch.full((lv,), -1.5), items=[0, 2]))

        def set_start(model, start_theta, lv=lv):
            b = R.Bit(model, grid_points=40)
            b.set_start_theta(start_theta)
            return b.transform(K.thetas_for(lv, k=2))
        out[f"Bit set start {lv}"] = (set_start, dict(model=B.build("GPC", lv, [3, 2, 3]), start_theta=torch.full((lv,), -1.5)))
        if lv == 2:
            out["Bit 1D"] = (lambda model, population_theta: R.Bit(model, population_theta=population_theta, grid_points=40).transform_to_1D(K.thetas_for(2, k=2)),
                             dict(model=B.build("GPC", 2, [3, 2, 3]), population_theta=K.thetas_for(2)))
        out[f"Reverse {lv}"] = (lambda flags, lv=lv: R.Reverse(flags).transform(K.thetas_for(lv, k=2)), dict(flags=[True, False][:lv]))
        out[f"Rotate {lv}"] = (lambda model, theta, lv=lv: R.Rotate(model, theta=theta, rotation_method="Promax").transform(K.thetas_for(lv, k=2)) if lv == 2 else theta * 1.0,
                               dict(model=B.build("GPC", lv, [3, 2, 3]), theta=K.thetas_for(lv)))

    def bit_mc(model, guessing_probabilities, items):
        b = R.Bit(model, population_theta=K.thetas_for(1), items=[0, 1, 2], mc_start_theta_approx=True, guessing_probabilities=guessing_probabilities, guessing_iterations=20,
                  grid_points=20)
        return b.transform(K.thetas_for(1, k=2))

    def mc():
        m = B.build("NRM", 1, [3, 4, 2], mc_correct=[1, 0, 1])
        K.jml(m)
        return m
    out["Bit start by guessing"] = (bit_mc, dict(model=mc(), guessing_probabilities=[0.3, 0.25, 0.5], items=[0, 1, 2]))
    out["Rotate matrix"] = (lambda model, rotation_matrix: R.Rotate(model, rotation_matrix=rotation_matrix).transform(K.thetas_for(2, k=2)),
                            dict(model=B.build("GPC", 2, [3, 2, 3]), rotation_matrix=torch.tensor([[0.8, -0.6], [0.6, 0.8]])))

    for method in ("spline", "neuralnet"):
        def link(model_from, model_to, items_from, items_to, theta_from, method=method):
            s = R.LinkCommonItems(model_from, model_to, items_from, items_to, method=method, **({"neurons": 6} if method == "neuralnet" else {}))
            s.fit(theta_from, max_epochs=2, batch_size=7, device="cpu")
            return s.transform(K.thetas_for(1, k=2))
        out[f"Link {method}"] = (link, dict(model_from=B.build("GPC", 1, [3, 2, 3]), model_to=B.build("GPC", 1, [3, 2, 3], p=1), items_from=[0, 2], items_to=[0, 2],
                                            theta_from=K.thetas_for(1)))
    return out


def apply_scales():
    from irtorch import rescale as R
    m1, m2 = B.build("GPC", 1, [3, 2, 3]), B.build("GPC", 2, [3, 2, 3])
    out = {}
    for lv, m in ((1, m1), (2, m2)):
        out[f"Reverse {lv}"] = (R.Reverse([True, False][:lv]), lv)
        out[f"Flow {lv}"] = (S.flow(lv), lv)
        out[f"Rank {lv}"] = (R.RankCDF(K.thetas_for(lv)), lv)
        out[f"Bit {lv}"] = (R.Bit(m, population_theta=K.thetas_for(lv), grid_points=40), lv)
    out["Rotate"] = (S.rotate(m2), 2)
    out["Link spline"] = (S.link(), 1)
    out["Link inverted"] = (S.link(inverted=True), 1)
    out["Link net"] = (S.link("neuralnet"), 1)
    return out


# ---------------------------------------------------------------------------------------------------------- utilities
def utilities():
    """name -> (function, args)"""
    from irtorch import utils as U
    from irtorch import latent_variable_functions as L
    from irtorch import _internal_utils as I
    from irtorch.irt_dataset import PytorchIRTDataset
    from irtorch.outlier_detector import OutlierDetector
    from irtorch.quantile_mv_normal import QuantileMVNormal
    from irtorch.torch_modules import GaussianMixtureModel
    from irtorch.estimation_algorithms import JML, MML, AE
    d = lambda: K.data_for([3, 2, 3], missing=True)
    full = lambda: K.data_for([3, 2, 3])
    t = lambda lv=1, **k: K.thetas_for(lv, **k)
    out = {}
    for meth in ("zero", "mean", "random incorrect"):
        for mc in ([1, 0, 2], None):
            if meth == "random incorrect" and mc is None:
                continue
            out[f"impute {meth} {mc}"] = (lambda data, mc_correct, item_categories, meth=meth: U.impute_missing(data, meth, mc_correct=mc_correct, item_categories=item_categories),
                                          dict(data=d(), mc_correct=mc, item_categories=[3, 2, 3]))
            for oh in (False, True):
                out[f"dataset {meth} {mc} {oh}"] = (lambda data, mc_correct, item_categories, meth=meth, oh=oh: [
                    PytorchIRTDataset(data, one_hot_encoded=oh, item_categories=item_categories, imputation_method=meth, mc_correct=mc_correct)[i][k] for i in (0, 1, 4, 7) for k in (0, 1)],
                    dict(data=d(), mc_correct=mc, item_categories=[3, 2, 3]))
    for kn in ("GPC1-JML", "NRM1-mc-JML"):
        m = K.KINDS[kn]()
        for meth in ("prior expected", "EM", "model"):
            def f(data, model, meth=meth):
                return U.impute_missing(data, meth, model=model)
            out[f"impute {meth} {kn}"] = (f, dict(data=K.data_for(m.item_categories, missing=True), model=m))
    out["categories"] = (lambda data: U.get_item_categories(data), dict(data=d()))
    out["sum_score"] = (lambda data, mc_correct: I.sum_score(data, mc_correct), dict(data=d(), mc_correct=[1, 0, 2]))
    out["sum_score plain"] = (lambda data: I.sum_score(data), dict(data=d()))
    out["one_hot"] = (lambda data, item_categories: I.one_hot_encode_test_data(data, item_categories), dict(data=d(), item_categories=[3, 2, 3]))
    out["mask"] = (lambda data: I.get_missing_mask(data).float(), dict(data=d()))
    out["joint entropy"] = (lambda data: I.joint_entropy_matrix(data), dict(data=d()))
    out["entropy"] = (lambda probabilities: I.entropy(probabilities), dict(probabilities=torch.tensor([[[0.5, 0.5, 0.0], [0.2, 0.3, 0.5]]])))
    out["correlation"] = (lambda x: I.correlation_matrix(x), dict(x=t(2)))
    out["correlation gaps"] = (lambda x: I.correlation_matrix(x), dict(x=d().float()))
    out["regression"] = (lambda x, y: list(I.linear_regression(x, y)), dict(x=t(1), y=t(1, k=1)))
    out["guessing"] = (lambda item_categories, guessing_probabilities, mc_correct: I.random_guessing_data(item_categories, 6, guessing_probabilities, mc_correct),
                       dict(item_categories=[3, 4, 2], guessing_probabilities=[0.3, 0.3, 0.6], mc_correct=[1, 0, 1]))
    out["score distribution"] = (lambda probabilities, item_categories: I.conditional_score_distribution(probabilities, item_categories),
                                 dict(probabilities=B.build("GPC", 1, [3, 2, 3]).item_probabilities(t()).detach(), item_categories=[3, 2, 3]))
    out["interp"] = (lambda x_new, x, y: L.interp(x_new, x, y), dict(x_new=torch.tensor([0.5, 2.2, 9.0]), x=torch.tensor([3.0, 1.0, 2.0]), y=torch.tensor([1.0, 2.0, 0.5])))
    out["quantile_transform"] = (lambda x: L.quantile_transform(x), dict(x=torch.tensor([[3.0, 1.0], [1.0, 1.0], [2.0, 5.0], [2.0, 0.0]])))
    out["gauss_hermite"] = (lambda mean, covariance: list(U.gauss_hermite(4, mean, covariance)), dict(mean=torch.tensor([0.3, -0.2]), covariance=torch.tensor([[1.2, 0.3], [0.3, 0.9]])))
    for sh in (False, True):
        out[f"split {sh}"] = (lambda data, sh=sh: list(U.split_data(data, 0.6, shuffle=sh)), dict(data=d()))

    def det(data, new, lo):
        o = OutlierDetector(factor=1.5)
        return [o.is_outlier(new, data, lower=lo).float(), o.smallest_largest_non_outlier(data, smallest=True), o.smallest_largest_non_outlier(data, smallest=False),
                o.identify_outliers(data, lower=lo).float()]
    for lo in (False, True):
        out[f"outliers {lo}"] = (lambda data, new, lo=lo: det(data, new, lo), dict(data=torch.tensor([[3.0], [1.0], [2.0], [40.0], [2.5]]), new=torch.tensor([[50.0], [2.0]])))

    def qmvn(data, at):
        q = QuantileMVNormal()
        q.fit(data)
        return [q.pdf(at)]
    for lv in (1, 2):
        out[f"qmvn {lv}"] = (qmvn, dict(data=t(lv), at=t(lv, k=2)[:4]))

        def gmm(data, at, lv=lv):
            g = GaussianMixtureModel(n_components=2, n_features=lv)
            g.fit(data, iterations=6)
            return [g.pdf(at)]
        out[f"gmm {lv}"] = (gmm, dict(data=t(lv), at=t(lv, k=2)[:4]))

    def fitted(fam="2PL", k=0):
        m = B.build(fam, 1, [2, 2, 2], p=k)
        K.jml(m)
        return m
    b = lambda: K.data_for([2, 2, 2], missing=True)
    out["imv"] = (lambda model1, model2, data, model1_theta, model2_theta: U.imv(model1, model2, data, model1_theta, model2_theta),
                  dict(model1=fitted(), model2=fitted(k=1), data=b(), model1_theta=t(), model2_theta=t(k=1)))
    for alg, grid in ((JML, {"max_epochs": [1, 2], "learning_rate": [0.1]}), (MML, {"max_epochs": [1], "covariance_matrix": [torch.eye(1), 1.3 * torch.eye(1)]}),
                      (AE, {"max_epochs": [1], "hidden_layers_encoder": [[4], [3, 3]]})):
        def cv(model, data, params_grid, fixed):
            torch.manual_seed(5)
            r = U.cross_validation(model, data, 2, params_grid, theta_estimation="EAP", device="cpu", multiprocessing=False, **fixed)
            return torch.tensor(r["log_likelihood"].to_numpy(dtype=float))
        out[f"cross_validation {alg.__name__}"] = (cv, dict(model=B.build("GPC", 1, [3, 2, 3]), data=d(), params_grid=grid, fixed={"algorithm": alg(), **({"learning_rate_update_patience": 3} if alg is not AE else {})}))
        out[f"cross_validation over {alg.__name__}"] = (cv, dict(model=B.build("GPC", 1, [3, 2, 3]), data=d(), params_grid={"max_epochs": [1], "algorithm": [alg(), alg()]}, fixed={}))
    return out


def run(ctx):
    # queries
    jobs = []
    made = {}
    for kn, make in kinds().items():
        with quiet():
            made[kn] = make()
        for name, (_, kind) in K.queries(made[kn]).items():
            if applicable(kn, name):
                jobs.append((kn, name, kind))
    for kn, name, kind in ctx.each(jobs):
        m = made[kn]
        q = K.queries(m)[name][0]
        t0 = K.thetas_for(m.latent_variables, k=1)
        d0 = K.data_for(m.item_categories, missing=name != "NN" or getattr(m.algorithm, "one_hot_encoded", False), k=1)
        plain = None
        slow = name in ("mutual_information test", "q3 test", "sum_score gmm", "sum_score encoder") or name.startswith("plot")
        for fn, (t, watched) in forms(t0).items():
            if slow and not ctx.thorough and fn not in ("plain", "node"):
                continue
            with ctx.case("query", kind=kn, query=name, form=fn):
                for p in m.parameters():
                    p.grad = torch.full_like(p, 0.25) if fn in ("plain", "node") else None
                d = d0.clone()
                with Watch(**watched, data=d, model=m):
                    torch.manual_seed(11)
                    try:
                        got = K.digest(q(t, d))
                        require(kind != "error", "no error")
                    except Exception as e:
                        if kind != "error" and not isinstance(e, NotImplementedError):
                            raise
                        got = type(e).__name__
                if plain is None:
                    plain = got
                else:
                    K.same(got, plain, name)
                ctx.state(kn, name, fn)
                ctx.step()
        with ctx.case("query, frozen parameters", kind=kn, query=name):
            flags = [(p, p.requires_grad) for p in m.parameters()]
            try:
                for i, (p, _) in enumerate(flags):
                    p.grad = None
                    p.requires_grad_(i % 2 == 1)
                t, d = t0.clone(), d0.clone()
                with Watch(theta=t, data=d, model=m):
                    torch.manual_seed(11)
                    try:
                        got = K.digest(q(t, d))
                    except Exception as e:
                        if kind != "error" and not isinstance(e, NotImplementedError):
                            raise
                        got = type(e).__name__
                K.same(got, plain, name)
                ctx.state(kn, name, "frozen")
                ctx.step()
            finally:
                for p, f in flags:
                    p.requires_grad_(f)
    # fits
    for (fam, lv, cats, o), (alg, kw) in ctx.each(list(itertools.product(fit_families(ctx.thorough), fit_settings()))):
        if fam == "MIX" and alg in ("AE", "VAE") and "imputation_method" in kw(1, 1):
            continue
        n = K.N
        with ctx.case("fit", family=fam, lv=lv, options=o, algorithm=alg, settings=sorted(kw(lv, n))):
            d, args = K.data_for(cats, n, missing=True), kw(lv, n)
            opts = copy.deepcopy(o)
            tensors = {k: v for k, v in args.items() if k != "imputation_method"}
            with Watch(data=d, **tensors):
                r1, _ = do_fit(fam, lv, cats, opts, alg, dict(args), d)
            r2, _ = do_fit(fam, lv, cats, opts, alg, dict(args), d)
            for a, b in zip(r1, r2):
                close(b, a, "a second fit with the same arguments", atol=1e-6, rtol=1e-6)
            ctx.state("fit", fam, lv, o, alg, sorted(args))
            ctx.step(2)
    # constructors
    for name, (f, args) in ctx.each(list(constructors().items())):
        with ctx.case("constructor", name=name):
            with Watch(**args):
                torch.manual_seed(1)
                m1 = f(**args)
                lv = m1.latent_variables
                torch.manual_seed(2)
                with torch.no_grad():
                    first = m1(K.thetas_for(lv))
            # what is done to the first model afterwards must not reach the arguments either
            with Watch(**{k: v for k, v in args.items() if k not in ("correct_response_model", "models")}):
                torch.manual_seed(3)
                from irtorch.estimation_algorithms import JML
                m1.fit(K.data_for(m1.item_categories, missing=True), algorithm=JML(), max_epochs=1, device="cpu")
            if "correct_response_model" not in args and "models" not in args:
                torch.manual_seed(1)
                m2 = f(**args)
                with torch.no_grad():
                    close(m2(K.thetas_for(lv)), first, "a second model from the same arguments", atol=1e-6)
            ctx.state("constructor", name)
            ctx.step(2)
    # scales
    for name, (f, args) in ctx.each(list(scale_cases().items())):
        for fn in ("plain", "leaf", "node", "view"):
            tensors = [k for k in args if k in ("theta", "population_theta", "theta_from")]
            if fn != "plain" and not tensors:
                continue
            with ctx.case("scale construction", name=name, form=fn):
                use, watch = dict(args), {}
                for k in tensors:
                    tt, w = forms(args[k])[fn]
                    use[k] = tt
                    watch.update({f"{k} {a}": b for a, b in w.items()})
                torch.manual_seed(4)
                with Watch(**{k.replace(" ", "_"): v for k, v in watch.items()}, **{k: v for k, v in use.items() if k not in tensors}):
                    r1 = f(**use)
                torch.manual_seed(4)
                close(f(**use).detach(), r1.detach(), "the same again", atol=1e-6)
                if fn != "plain":
                    torch.manual_seed(4)
                    close(r1.detach(), f(**args).detach(), "as with plain latent vectors", atol=1e-6)
                ctx.state("scale", name, fn)
                ctx.step(2)
    for name, (s, lv) in ctx.each(list(apply_scales().items())):
        for op in ("transform", "inverse", "jacobian", "transform_to_1D"):
            if op == "inverse" and (not s.invertible or name == "Link net") or op == "jacobian" and name in ("Bit 2", "Rank 1", "Rank 2") or op == "transform_to_1D" and not name.startswith("Bit"):
                continue
            base = None
            for fn, (t, watched) in forms(K.thetas_for(lv, k=1) * 0.8).items():
                with ctx.case("scale use", name=name, operation=op, form=fn):
                    with Watch(**watched):
                        r = getattr(s, op)(t).detach().clone()
                    close(getattr(s, op)(t).detach(), r, "the same again", atol=1e-6)
                    if base is None:
                        base = r
                    close(r, base, "as with plain latent vectors", atol=1e-6)
                    ctx.state("scale use", name, op, fn)
                    ctx.step(2)
    # utilities
    for name, (f, args) in ctx.each(list(utilities().items())):
        with ctx.case("utility", name=name):
            with Watch(**args):
                torch.manual_seed(6)
                try:
                    r1 = f(**args)
                except (ValueError, NotImplementedError) as e:
                    r1 = str(e)
            torch.manual_seed(6)
            try:
                r2 = f(**args)
            except (ValueError, NotImplementedError) as e:
                r2 = str(e)
            K.same(K.digest(r2), K.digest(r1), "the same again")
            ctx.outcome("refused" if isinstance(r1, str) else "answered", name)
            ctx.state("utility", name)
            ctx.step(2)
