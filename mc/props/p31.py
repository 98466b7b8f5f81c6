"""P31: answers and fits depend on the responses, not on how their tensor stores them."""
import itertools
import torch
from mc.core import close, require, quiet
from mc import kinds as K
from mc import models as B

META = dict(
    title="How responses are stored does not change what they mean",
    statement="Integer and floating point tensors of any precision, row by row or column by column in memory, with missing responses coded as nan or -1 in any mixture, "
              "give the same model constructions, fits, latent scores, likelihoods, evaluations, plots, imputations and cross-validations as the float tensor with the same "
              "responses. Latent vectors may be any view of a tensor.",
    over=["inputs", "configurations"],
    quant="all public queries on several kinds of models, all fits of all families by all algorithms and options, and all data utilities on all small "
          "response matrices, each under every storage variant",
    why="Tests use freshly built contiguous float tensors; integers (which have no nan), double precision from numpy and transposed or sliced views take other paths in nearly every function.",
    files=["irtorch/models/base_irt_model.py", "irtorch/irt_dataset.py", "irtorch/_internal_utils.py", "irtorch/utils.py", "irtorch/estimation_algorithms/jml.py",
           "irtorch/evaluator.py", "irtorch/models/graded_response.py", "irtorch/models/three_parameter_logistic.py"],
    mech=[("missing codes", "get_missing_mask, impute_missing, one_hot_encode_test_data"), ("encoder input", "PytorchIRTDataset.input_data, latent_scores"),
          ("response layout", "log_likelihood of every family"), ("starting values", "JML.fit")],
    technique="exhaustive enumeration of storage variants x functions x small response matrices on the real code, each compared with the same call on a plain float tensor",
)
PARALLEL = True
BOUNDS = ("8 storages (float64, int64, int32, int16, column by column, strided slice, all -1, mixed codes) x {7 kinds of model x ~45 queries; every family and option x "
          "{MML, JML, AE, VAE, AE and VAE with imputed inputs}; 7 utilities x all matrices of 2x2 and 3x1 cells over 5 symbols; all constructors}; 2 layouts of latent vectors")
ASSUMPTIONS = ["half precision is excluded (its latent scores have other rounding)", "random queries and fits are compared under the same seed"]


def storages(d, minus_ok=True):
    """name -> the same responses stored differently.  d is a float tensor."""
    miss = d.isnan() | (d == -1)
    dm = torch.where(miss, torch.tensor(-1.0), d)
    dn = torch.where(miss, torch.tensor(float("nan")), d)
    r = torch.arange(d.numel()).reshape(d.shape)
    out = {"float64": d.double(), "int64": dm.long(), "int32": dm.int(), "int16": dm.short(),
           "column by column": d.t().contiguous().t(), "slice": torch.stack([d, d + 7], 2)[:, :, 0],
           "-1": dm, "nan": dn, "mixed codes": torch.where(miss & (r % 2 == 0), torch.tensor(-1.0), dn),
           "int64 columns": dm.long().t().contiguous().t()}
    return out


def views(t):
    return {"repeated slice": t.repeat_interleave(2, 0)[::2], "transposed": t.t().contiguous().t()}


def query_case(m, name, q, t, d, base):
    torch.manual_seed(11)
    K.same(K.digest(q(t, d)), base, name)


FITS = [("MML", {}), ("MML", dict(integration_method="gauss_hermite")), ("JML", {}), ("JML", dict(batch_size=5)),
        ("AE", {}), ("AE", dict(one_hot_encoded=False, imputation_method="?")), ("VAE", {}), ("VAE", dict(one_hot_encoded=False, imputation_method="?"))]


def fit_result(fam, lv, cats, o, alg, kw, d):
    from irtorch import estimation_algorithms as E
    torch.manual_seed(3)
    m = B.build(fam, lv, cats, **o)
    kw = dict(kw, device="cpu", max_epochs=2)
    if alg in ("AE", "VAE"):
        kw.update(hidden_layers_encoder=[4], evaluation_interval_size=1)
        if kw.get("imputation_method") == "?":
            kw["imputation_method"] = "random incorrect" if m.mc_correct is not None else "mean"
    torch.manual_seed(5)
    a = getattr(E, alg)()
    m.fit(d, algorithm=a, **kw)
    out = {k: v.detach().clone() for k, v in m.named_parameters()}
    if a.training_theta_scores is not None:
        out["scores"] = a.training_theta_scores.detach().clone()
    out["losses"] = torch.tensor([float(x) for x in a.training_history["train_loss"]])
    torch.manual_seed(6)
    new = d[:5]
    out["EAP"] = m.latent_scores(new, theta_estimation="EAP", eap_theta_integration_points=5)
    if alg in ("AE", "VAE"):
        torch.manual_seed(7)
        out["NN"] = m.latent_scores(new, theta_estimation="NN")
        if alg == "VAE":
            torch.manual_seed(8)
            out["NN errors"] = m.latent_scores(new, theta_estimation="NN", standard_errors=True)[1]
            torch.manual_seed(9)
            out["sampled"] = a.sample_latent_variables(m, 4, new).detach()
    return out


def families(thorough):
    out = []
    for fam, o in B.VARIANTS:
        for lv in (1, 2) if thorough and fam != "1PL" else (1,):
            out.append((fam, lv, [2, 2, 2] if fam in B.BINARY else [3, 2, 3], o))
    out.append(("NRM", 1, [3, 4, 2], dict(mc_correct=[1, 0, 1])))
    out.append(("NN", 1, [3, 4, 2], dict(mc_correct=[1, 0, 1])))
    out.append(("MIX", 1, [2, 2, 3], dict(parts=[("2PL", 1, [2, 2]), ("GPC", 1, [3])])))
    return out


SYM = (0.0, 1.0, 2.0, float("nan"), -1.0)


def utilities(d):
    """name -> function of the data"""
    from irtorch import utils as U
    from irtorch import _internal_utils as I
    from irtorch.irt_dataset import PytorchIRTDataset
    cats = [3] * d.shape[1]
    mc = [1, 0, 2][:d.shape[1]]
    obs = bool((~(d.isnan() | (d == -1))).any(0).all())
    out = {"sum_score": lambda x: I.sum_score(x), "sum_score mc": lambda x: I.sum_score(x, mc),
           "one_hot": lambda x: I.one_hot_encode_test_data(x, cats), "mask": lambda x: I.get_missing_mask(x).int(),
           "impute zero": lambda x: U.impute_missing(x, "zero"),
           "impute random": lambda x: U.impute_missing(x, "random incorrect", mc_correct=mc, item_categories=cats),
           "split": lambda x: torch.cat([v.float().nan_to_num(-1.0) for v in U.split_data(x, 0.5)]) if d.shape[0] > 1 else torch.zeros(0),
           "joint entropy": lambda x: I.joint_entropy_matrix(x),
           "dataset": lambda x: torch.cat([PytorchIRTDataset(x, imputation_method="zero", item_categories=cats).input_data,
                                           PytorchIRTDataset(x, one_hot_encoded=True, item_categories=cats).input_data,
                                           PytorchIRTDataset(x).mask.float()], 1)}
    if obs:
        out["impute mean"] = lambda x: U.impute_missing(x, "mean")
        out["categories"] = lambda x: torch.tensor(U.get_item_categories(x))
    return out


def run(ctx):
    # queries
    jobs = []
    for kn in K.KINDS:
        for q, (_, kind) in K.queries(K.KINDS[kn]()).items():
            if kind != "error":
                jobs.append((kn, q))
    models = {}
    for kn, name in ctx.each(jobs):
        with quiet():
            if kn not in models:
                models[kn] = K.KINDS[kn]()
        m = models[kn]
        q = K.queries(m)[name][0]
        t = K.thetas_for(m.latent_variables, k=1)
        d = K.data_for(m.item_categories, missing=name != "NN" or getattr(m.algorithm, "one_hot_encoded", False), k=1)
        with ctx.case("plain query", kind=kn, query=name):
            torch.manual_seed(11)
            base = K.digest(q(t.clone(), d.clone()))
        slow = name in ("mutual_information test", "q3 test", "sum_score gmm", "sum_score encoder") or name.startswith("plot") and name != "plot log_likelihood"
        for vn, v in storages(d).items():
            if slow and not ctx.thorough and vn not in ("int64", "column by column"):
                continue
            with ctx.case("query", kind=kn, query=name, storage=vn):
                query_case(m, name, q, t.clone(), v, base)
                ctx.state(kn, name, vn)
                ctx.step()
        for vn, v in views(t).items():
            with ctx.case("latent views", kind=kn, query=name, view=vn):
                query_case(m, name, q, v, d.clone(), base)
                ctx.state(kn, name, vn)
                ctx.step()
    # fits
    fits = [(f, a) for f in families(ctx.thorough) for a in FITS]
    for (fam, lv, cats, o), (alg, kw) in ctx.each(fits):
        if fam == "MIX" and alg in ("AE", "VAE") and kw:
            continue
        d = K.data_for(cats, missing=True)
        base = None
        with ctx.case("plain fit", family=fam, lv=lv, options=o, algorithm=alg, kwargs=kw):
            base = fit_result(fam, lv, cats, o, alg, kw, d.clone())
        if base is None:
            continue
        for vn, v in storages(d).items():
            if not ctx.thorough and vn in ("int16", "slice", "nan"):
                continue
            with ctx.case("fit", family=fam, lv=lv, options=o, algorithm=alg, kwargs=kw, storage=vn):
                got = fit_result(fam, lv, cats, o, alg, kw, v)
                require(set(got) == set(base), "other results")
                for k in base:
                    close(got[k], base[k], k, atol=2e-3 if k in ("EAP",) else 5e-4, rtol=1e-3)
                ctx.state("fit", fam, lv, o, alg, kw, vn)
                ctx.step()
    # utilities on all small matrices
    mats = [((2, 2), c) for c in itertools.product(SYM, repeat=4)] + [((3, 1), c) for c in itertools.product(SYM, repeat=3)]
    for shape, cells in ctx.each(mats):
        d = torch.tensor(cells).reshape(shape)
        for name, f in utilities(d).items():
            with ctx.case("utility", utility=name, shape=shape, cells=[None if c != c else c for c in cells]):
                torch.manual_seed(4)
                base = f(d.clone())
                for vn, v in storages(d).items():
                    torch.manual_seed(4)
                    close(f(v), base, f"{name} of {vn} data", atol=1e-5)
                    ctx.step()
                ctx.state(name, shape, [str(c) for c in cells])
    # constructors, cross-validation, common functions of two data sets
    from irtorch import models as M
    from irtorch import utils as U
    cls = [M.OneParameterLogistic, M.TwoParameterLogistic, M.ThreeParameterLogistic, M.GeneralizedPartialCredit, M.GradedResponse, M.NominalResponse,
           M.MonotoneNN, M.MonotoneBSpline, M.MonotonePolynomial, M.SurprisalSpline, M.NestedLogit]
    for c in ctx.each(cls):
        cats = [2, 2, 2] if "Logistic" in c.__name__ else [3, 2, 4]
        d = K.data_for(cats, missing=True)
        for vn, v in storages(d).items():
            with ctx.case("constructor", model=c.__name__, storage=vn):
                kw = {} if c is not M.NestedLogit else dict(mc_correct=[0, 0, 0], correct_response_model=M.TwoParameterLogistic(items=3))
                m = c(data=v, **kw)
                require([int(x) for x in m.item_categories] == cats, f"categories {m.item_categories}")
                ctx.state("constructor", c.__name__, vn)
                ctx.step()
    for alg in ctx.each(["MML", "JML", "AE"]):
        from irtorch import estimation_algorithms as E
        d = K.data_for([3, 2, 3], missing=True)

        def cv(x):
            torch.manual_seed(2)
            m = B.build("GPC", 1, [3, 2, 3])
            r = U.cross_validation(m, x, 2, {"max_epochs": [1, 2]}, theta_estimation="EAP", device="cpu", multiprocessing=False, algorithm=getattr(E, alg)())
            return torch.tensor(r["log_likelihood"].to_numpy(dtype=float))
        base = None
        with ctx.case("plain cross-validation", algorithm=alg):
            base = cv(d.clone())
        for vn, v in storages(d).items():
            with ctx.case("cross-validation", algorithm=alg, storage=vn):
                close(cv(v), base, "log-likelihoods", atol=2e-3, rtol=1e-4)
                ctx.state("cv", alg, vn)
                ctx.step()
    for vn in ctx.each(list(storages(torch.zeros(1, 1)))):
        with ctx.case("imv", storage=vn):
            m1, m2 = B.build("2PL", 1, [2, 2, 2]), B.build("2PL", 1, [2, 2, 2], p=1)
            d = K.data_for([2, 2, 2], missing=True)
            t = K.thetas_for(1)
            for m in (m1, m2):
                K.jml(m)
            f = lambda x: U.imv(m1, m2, x, t, t)
            close(f(storages(d)[vn]), f(d), "imv")
            ctx.step()
