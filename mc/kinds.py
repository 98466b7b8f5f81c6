"""Fitted-looking models of several kinds, built without (long) training, and the list of read-only queries on them."""
import math
import torch
from mc import models as B
from mc import scales as S

N = 14


def data_for(cats, n=N, missing=False, k=0):
    d = torch.tensor([[float((i * (j + 2) + (i // 3) + j + k) % c) for j, c in enumerate(cats)] for i in range(n)])
    if missing:
        d[1, 0] = float("nan")
        d[4, len(cats) - 1] = float("nan")
        d[7, 0] = -1
    return d


def thetas_for(lv, n=N, k=0):
    return torch.tensor([[1.3 * math.sin(1.1 * i + 2.3 * d + k) for d in range(lv)] for i in range(n)])


def jml(m, missing=False):
    from irtorch.estimation_algorithms import JML
    a = JML()
    a.train_data = data_for(m.item_categories, missing=missing)
    a.training_theta_scores = thetas_for(m.latent_variables)
    a.training_history = {"train_loss": [3., 2., 1.5]}
    m.algorithm = a


def mml(m, missing=False):
    from irtorch.estimation_algorithms import MML
    a = MML()
    a.train_data = data_for(m.item_categories, missing=missing)
    lv = m.latent_variables
    a.covariance_matrix = torch.tensor([[1.2, 0.3], [0.3, 0.9]])[:lv, :lv].clone()
    a.training_history = {"train_loss": [3., 2., 1.5]}
    m.algorithm = a


def ae(m, cls="AE", missing=False, seed=5, **kw):
    from irtorch.estimation_algorithms import AE, VAE
    torch.manual_seed(seed)
    a = {"AE": AE, "VAE": VAE}[cls]()
    o = dict(max_epochs=2, device="cpu", hidden_layers_encoder=[5], evaluation_interval_size=1)
    o.update(kw)
    m.fit(data_for(m.item_categories, missing=missing), algorithm=a, **o)


KINDS = {
    "GPC1-JML": lambda: _k(B.build("GPC", 1, [3, 2, 3]), jml, "S"),
    "2PL2-MML": lambda: _k(B.build("2PL", 2, [2, 2, 2]), mml, "A"),
    "NRM1-mc-JML": lambda: _k(B.build("NRM", 1, [3, 4, 2], mc_correct=[1, 0, 1]), jml, "S", True),
    "GRM2-AE": lambda: _k(B.build("GRM", 2, [3, 2, 3]), ae, "", True),
    "NN1-VAE": lambda: _k(B.build("NN", 1, [3, 2, 3]), lambda m, missing=False: ae(m, "VAE"), "R"),
    "MIX1-JML": lambda: _k(B.build("MIX", 1, [], parts=[("2PL", 1, [2, 2]), ("GPC", 1, [3])]), jml, ""),
    "BSP1-JML": lambda: _k(B.build("BSP", 1, [3, 2, 2]), jml, "H"),
}


def _k(m, alg, stack, missing=False):
    alg(m, missing=missing)
    for s in S.stack(stack, m):
        m.add_scale_transformation(s)
    return m


def queries(m):
    """name -> (callable(theta, data), kind) for every read-only public query that applies to this model.  kind: 'det',
    'rng' (uses random numbers) or 'error' (must raise)."""
    from irtorch.models import ModelMix
    from irtorch.estimation_algorithms import AE, VAE
    lv = m.latent_variables
    mix = isinstance(m, ModelMix)
    scal = bool(m.scale)
    q = {}
    q["item_probabilities"] = (lambda t, d: m.item_probabilities(t), "det")
    q["forward"] = (lambda t, d: m(t), "det")
    q["expected_scores"] = (lambda t, d: m.expected_scores(t), "det")
    q["expected_scores sum"] = (lambda t, d: m.expected_scores(t, return_item_scores=False), "det")
    q["probability_gradients"] = (lambda t, d: m.probability_gradients(t), "det")
    q["information"] = (lambda t, d: m.information(t), "det")
    q["transform_theta"] = (lambda t, d: m.transform_theta(t), "det")
    q["jacobian"] = (lambda t, d: m.theta_transform_jacobian(t), "det")
    q["inverse"] = (lambda t, d: m.inverse_transform_theta(m.transform_theta(t)), "det")
    q["directions"] = (lambda t, d: m.item_theta_relationship_directions(t), "det")
    if not mix:
        q["score_gradients"] = (lambda t, d: m.expected_item_score_gradients(t), "det")
        q["population_difficulty"] = (lambda t, d: m.population_difficulty(t), "det")
        q["population_discrimination"] = (lambda t, d: m.population_discrimination(t), "det")
    q["response_log_likelihoods"] = (lambda t, d: m.response_log_likelihoods(d, m(t[:len(d)]), d.isnan() | (d == -1)), "det")
    q["sample_test_data"] = (lambda t, d: m.sample_test_data(t), "rng")
    q["ML"] = (lambda t, d: m.latent_scores(d, theta_estimation="ML"), "det")
    q["ML se"] = (lambda t, d: m.latent_scores(d, theta_estimation="ML", standard_errors=True), "det")
    q["MAP"] = (lambda t, d: m.latent_scores(d, theta_estimation="MAP", rescale=False), "det")
    q["EAP"] = (lambda t, d: m.latent_scores(d, theta_estimation="EAP", eap_theta_integration_points=5), "det")
    if isinstance(m.algorithm, AE):
        q["NN"] = (lambda t, d: m.latent_scores(d, theta_estimation="NN"), "det")
        if isinstance(m.algorithm, VAE):
            q["NN se"] = (lambda t, d: m.latent_scores(d, theta_estimation="NN", standard_errors=True), "det")
            q["sum_score encoder"] = (lambda t, d: m.evaluate.sum_score_probabilities("encoder sampling", sample_size=30), "rng")
    else:
        q["NN refused"] = (lambda t, d: m.latent_scores(d, theta_estimation="NN"), "error")
    q["bad estimation"] = (lambda t, d: m.latent_scores(d, theta_estimation="MLE"), "error")
    q["ML of wrong width"] = (lambda t, d: m.latent_scores(d[:, :1].repeat(1, 7), theta_estimation="ML"), "error")
    e = m.evaluate
    kw = dict(theta_estimation="EAP", eap_theta_integration_points=5)
    for avg in ("none", "items", "respondents", "everything"):
        q[f"residuals {avg}"] = (lambda t, d, avg=avg: e.residuals(d, t[:len(d)], average_over=avg), "det")
    q["residuals train"] = (lambda t, d: e.residuals(**kw), "det")
    q["group_fit_residuals"] = (lambda t, d: e.group_fit_residuals(d, t[:len(d)], groups=3), "det")
    q["group_fit_residuals raw"] = (lambda t, d: e.group_fit_residuals(d, t[:len(d)], groups=2, standardize=False, rescale=False), "det")
    for lev in ("all", "item", "respondent"):
        q[f"accuracy {lev}"] = (lambda t, d, lev=lev: e.accuracy(d, t[:len(d)], level=lev), "det")
        q[f"log_likelihood {lev}"] = (lambda t, d, lev=lev: e.log_likelihood(d, t[:len(d)], level=lev), "det")
    q["accuracy train"] = (lambda t, d: e.accuracy(**kw), "det")
    q["log_likelihood none"] = (lambda t, d: e.log_likelihood(d, t[:len(d)], reduction="none"), "det")
    q["predictions"] = (lambda t, d: e.predictions(d, t[:len(d)]), "det")
    q["infit item"] = (lambda t, d: e.infit_outfit(d, t[:len(d)]), "det")
    q["infit respondent"] = (lambda t, d: e.infit_outfit(d, t[:len(d)], level="respondent"), "det")
    q["group_fit_log_likelihood"] = (lambda t, d: e.group_fit_log_likelihood(d, t[:len(d)], groups=3), "det")
    q["latent_group_probabilities"] = (lambda t, d: e.latent_group_probabilities(d, t[:len(d)], groups=3), "det")
    q["mutual_information"] = (lambda t, d: e.mutual_information_difference(d, t[:len(d)])[:2], "det")
    q["mutual_information test"] = (lambda t, d: e.mutual_information_difference(d, t[:len(d)], sample_hypothesis_test=True, samples=2), "rng")
    q["q3"] = (lambda t, d: e.q3(d, t[:len(d)])[0], "det")
    q["q3 test"] = (lambda t, d: e.q3(d, t[:len(d)], sample_hypothesis_test=True, samples=2), "rng")
    if not mix:
        for meth in ("data", "qmvn", "gmm"):
            q[f"sum_score {meth}"] = (lambda t, d, meth=meth: e.sum_score_probabilities(meth, trapezoidal_segments=12), "rng")
        if isinstance(m.algorithm, AE):
            q["sum_score population"] = (lambda t, d: e.sum_score_probabilities("qmvn", population_data=d, trapezoidal_segments=12), "rng")
    q["sum_score refused"] = (lambda t, d: e.sum_score_probabilities("nothing"), "error")
    p = m.plot
    two = {"latent_variables": (1,)} if lv == 1 else {"latent_variables": (1, 2)}
    st = dict(steps=5, theta_range=(-2., 2.), **two)
    if lv > 1:
        st["second_theta_range"] = (-1., 1.)
    q["plot training_history"] = (lambda t, d: p.training_history(), "det")
    q["plot item_probabilities"] = (lambda t, d: p.item_probabilities(1, **st), "det")
    q["plot item_entropy"] = (lambda t, d: p.item_entropy(2, **st), "det")
    q["plot information"] = (lambda t, d: p.information(**st, **({"degrees": [30, 60]} if lv > 1 else {})), "det")
    q["plot expected_sum_score"] = (lambda t, d: p.expected_sum_score(**st), "det")
    q["plot log_likelihood"] = (lambda t, d: p.log_likelihood(d[:1], **st), "det")
    q["plot relationships"] = (lambda t, d: p.item_latent_variable_relationships(theta=t), "det")
    if isinstance(m.algorithm.training_theta_scores, torch.Tensor):
        q["plot scores"] = (lambda t, d: p.latent_score_distribution(**two), "det")
    if scal and lv == 1:
        q["plot scale"] = (lambda t, d: p.scale_transformations(input_theta_range=(-2., 2.), steps=5), "det")
    return q


def digest(x):
    """Nested lists of numbers / strings for comparison."""
    import numpy as np
    import pandas as pd
    if isinstance(x, torch.Tensor):
        return x.detach().double().numpy()
    if isinstance(x, pd.DataFrame):
        return x.to_numpy(dtype=float)
    if isinstance(x, (tuple, list)):
        return [digest(v) for v in x]
    if hasattr(x, "data") and hasattr(x, "layout"):          # plotly figure
        out = []
        for tr in x.data:
            for a in ("x", "y", "z", "text"):
                v = getattr(tr, a, None) if a in tr else None
                if v is not None:
                    arr = np.asarray(v)
                    out.append(arr.astype(float) if arr.dtype.kind in "fiub" else [str(s) for s in arr.ravel().tolist()])
            out.append(str(getattr(tr, "name", "")))
        return out
    return x


def same(a, b, what):
    import numpy as np
    from mc.core import close, require
    if isinstance(a, np.ndarray):
        close(a, b, what, atol=1e-5)
    elif isinstance(a, list):
        require(isinstance(b, list) and len(a) == len(b), f"{what}: different structure")
        for i, (u, v) in enumerate(zip(a, b)):
            same(u, v, f"{what}[{i}]")
    else:
        require(a == b, f"{what}: {a!r} instead of {b!r}")


def snapshot(m):
    """Everything a query must leave alone."""
    a = m.algorithm
    s = {"params": {k: v.detach().clone() for k, v in m.state_dict().items()},
         "grad flags": {k: v.requires_grad for k, v in m.named_parameters()},
         "training": [x.training for x in m.modules()],
         "scale": [id(x) for x in m.scale], "cats": list(m.item_categories), "mc": None if m.mc_correct is None else list(m.mc_correct),
         "algorithm": id(a), "grad mode": torch.is_grad_enabled(), "dtype": str(torch.get_default_dtype())}
    for n in ("train_data", "training_theta_scores", "covariance_matrix"):
        v = getattr(a, n, None)
        s[n] = v.detach().clone() if isinstance(v, torch.Tensor) else v
    enc = getattr(a, "encoder", None)
    if enc is not None:
        s["encoder"] = {k: v.clone() for k, v in enc.state_dict().items()}
        s["encoder training"] = enc.training
    s["history"] = [float(x) for x in a.training_history["train_loss"]] if a is not None else None
    return s


def unchanged(before, after, what):
    from mc.core import require
    for k in before:
        x, y = before[k], after[k]
        if isinstance(x, dict):
            require(set(x) == set(y), f"{what}: changed the set of {k}")
            for n in x:
                ok = torch.equal(x[n], y[n]) if isinstance(x[n], torch.Tensor) else x[n] == y[n]
                require(ok, f"{what}: changed {k} {n}")
        elif isinstance(x, torch.Tensor):
            require(isinstance(y, torch.Tensor) and x.shape == y.shape and bool(((x == y) | (x.isnan() & y.isnan())).all()), f"{what}: changed {k}")
        else:
            require(x == y, f"{what}: changed {k} from {x!r} to {y!r}")
