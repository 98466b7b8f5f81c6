"""P26: seeded runs repeat; parallel fits equal separate fits for every order of completion."""
import itertools
import math
import os
import shutil
import tempfile
import torch
import numpy as np
import random
from mc.core import close, require, raises
from mc import models as B, kinds as K
from mc.parstub import Ordered

META = dict(
    title="Seeded runs repeat exactly and parallel fits equal separate ones",
    statement="After set_seed every sequence of random operations (fits with every algorithm, simulated data, guessing, imputation, splits, resampling tests, random scales) gives the same "
              "results again, whatever random numbers were drawn before. Fitting several models in parallel returns them in the given order, each as fitted alone on the full data with "
              "the given settings, for every number of processes and order of completion, and restores the thread setting even when a fit fails.",
    over=["histories", "schedules"],
    quant="all ordered pairs of random operations x earlier use of each generator x seeds; all feasible completion orders of 3 (thorough 4) models x numbers of processes x failing fits",
    why="Tests seed only to stabilise themselves, and nothing runs the parallel fit with more than one order.",
    files=["irtorch/utils.py", "irtorch/estimation_algorithms/ae.py", "irtorch/estimation_algorithms/vae.py", "irtorch/estimation_algorithms/mml.py"],
    mech=[("seed", "set_seed"), ("parallel fit", "fit_multiple_models_cpu, _fit_model")],
    technique="exhaustive enumeration of operation pairs and of completion orders enforced through files between the worker processes",
)
PARALLEL = True
BOUNDS = "17 operations, all ordered pairs, 4 kinds of earlier use, 2 seeds; 3 models (thorough 4) x 1-4 processes x every feasible completion order x every failing model; 4 real model families"
ASSUMPTIONS = ["repetition is compared on the same machine with the same number of threads, to 1e-6"]


def data(cats, missing=False):
    return K.data_for(cats, n=12, missing=missing)


def fitted(alg, **o):
    m = B.build("GPC", 1, [3, 2], p=-1)
    m.fit(data([3, 2]), algorithm=alg(), device="cpu", max_epochs=2, **o)
    return [p.detach().clone() for p in m.parameters()] + [torch.tensor(m.algorithm.training_history["train_loss"], dtype=torch.float64)]


def ops():
    import irtorch
    from irtorch import utils
    from irtorch.estimation_algorithms import AE, VAE, JML, MML
    from irtorch.models import NominalResponse, MonotoneNN
    from irtorch.rescale import Flow, RankCDF
    gpc = lambda: B.build("GPC", 1, [3, 2])
    mc = lambda: B.build("NRM", 1, [3, 4], mc_correct=[1, 2])

    def flow():
        f = Flow(1)
        f.fit(K.thetas_for(1), max_epochs=1, device="cpu")
        return [f.transform(torch.tensor([[0.2], [1.0]])).detach()]

    def resample():
        m = gpc()
        K.jml(m)
        r = m.evaluate.mutual_information_difference(data([3, 2]), K.thetas_for(1)[:12], sample_hypothesis_test=True, samples=5)
        return [torch.tensor(np.asarray(x.values, dtype=float)) for x in r if x is not None]

    def vae_samples():
        m = B.build("GPC", 1, [3, 2])
        K.ae(m, "VAE", seed=1)
        return m

    def encoder_sampling():
        m = KEEP
        return [m.evaluate.sum_score_probabilities("encoder sampling", sample_size=20), m.algorithm.sample_latent_variables(m, 7)]

    KEEP = None
    with torch.random.fork_rng():
        KEEP = vae_samples()
    return {
        "AE": lambda: fitted(AE, hidden_layers_encoder=[3], batch_size=5), "VAE": lambda: fitted(VAE, hidden_layers_encoder=[3], batch_size=5),
        "JML": lambda: fitted(JML), "MML": lambda: fitted(MML, quadrature_points=5), "MML-qmc": lambda: fitted(MML, integration_method="quasi_mc"),
        "nominal": lambda: [p.detach().clone() for p in NominalResponse(latent_variables=2, item_categories=[3, 4]).parameters()],
        "network": lambda: [p.detach().clone() for p in MonotoneNN(latent_variables=1, item_categories=[3, 2]).parameters()],
        "simulate": lambda: [gpc().sample_test_data(K.thetas_for(1))],
        "guess": lambda: [irtorch._internal_utils.random_guessing_data([3, 4], 20, guessing_probabilities=[0.2, 0.4], mc_correct=[1, 2])],
        "impute": lambda: [utils.impute_missing(data([3, 4], True), "random incorrect", model=mc())],
        "split": lambda: list(utils.split_data(data([3, 2]), 0.7)),
        "resample": resample, "flow": flow,
        "rank": lambda: [RankCDF(K.thetas_for(1)).transform(torch.tensor([[0.2], [1.0]]))],
        "gmm": lambda: _gmm(), "encoder": encoder_sampling,
        "python": lambda: [torch.tensor([random.random(), np.random.rand()]), torch.rand(2)],
    }


def _gmm():
    from irtorch.torch_modules import GaussianMixtureModel
    g = GaussianMixtureModel(2, 1)
    g.fit(K.thetas_for(1))
    return [g.means.clone(), g.weights.clone(), g.covariances.clone()]


POLLUTE = {"nothing": lambda: None, "torch": lambda: torch.rand(7), "numpy": lambda: np.random.rand(7), "python": lambda: [random.random() for _ in range(7)]}


def feasible(order, cores):
    """Task k starts when a process is free; tasks are handed out in order."""
    running, nxt, done = [], 0, []
    n = len(order)
    for o in order:
        while nxt < n and len(running) < cores:
            running.append(nxt)
            nxt += 1
        if o not in running:
            return False
        running.remove(o)
    return True


def run(ctx):
    from irtorch import utils
    names = sorted(ops())
    usable = {}
    pairs = list(itertools.product(names, names))
    for a, b in ctx.each(pairs):
        with ctx.case("seed", first=a, second=b):
            table = ops()
            ref = {}
            for seed in (1, 12345):
                for pn, pol in POLLUTE.items():
                    pol()
                    utils.set_seed(seed)
                    out = table[a]() + table[b]()
                    if seed not in ref:
                        ref[seed] = [x.clone() for x in out]
                    require(len(out) == len(ref[seed]), "number of results")
                    for x, y in zip(out, ref[seed]):
                        close(x, y, f"{a} then {b} with seed {seed} after using {pn}", atol=1e-6, rtol=1e-6)
                    ctx.step(2)
            if "python" in (a, b):
                require(any(not torch.equal(x, y) for x, y in zip(ref[1], ref[12345])), "different seeds give the same numbers")
            ctx.state(a, b)
    # completion orders
    n = ctx.pick(3, 4)
    scen = [(cores, order) for cores in range(1, n + 2) for order in itertools.permutations(range(n)) if feasible(order, cores)]
    scen += [(None, tuple(range(n)))]
    d = torch.tensor([[0., 1.], [math.nan, 1.], [-1., 0.], [2., 1.]])
    before = 3
    for cores, order in ctx.each(scen):
        for fail in [None] + list(range(n)):
            torch.set_num_threads(before)
            with ctx.case("parallel", processes=cores, order=list(order), failing=fail):
                folder = tempfile.mkdtemp(prefix="p26-", dir=os.environ.get("MC_TMP"))
                try:
                    after = {o: order[i - 1] if i else None for i, o in enumerate(order)}
                    ms = [Ordered(k, folder, after[k], fail == k) for k in range(n)]
                    dd = d.clone()
                    opts = dict(algorithm="A", max_epochs=3)
                    if fail is None:
                        got = utils.fit_multiple_models_cpu(ms, dd, cores_to_use=cores, **opts)
                        require([m.name for m in got] == list(range(n)), f"models returned as {[m.name for m in got]}")
                        for m in got:
                            require(m.fits == 1, f"model {m.name} was fitted {m.fits} times")
                            require(m.seen == (float(torch.nan_to_num(d, nan=-5.).sum()), (4, 2)), f"model {m.name} saw the data {m.seen}")
                            require(m.opts == dict(opts, device="cpu"), f"model {m.name} was fitted with {m.opts}")
                    else:
                        raises(lambda: utils.fit_multiple_models_cpu(ms, dd, cores_to_use=cores, **opts), "a failing fit", RuntimeError)
                    require(torch.get_num_threads() == before, f"{torch.get_num_threads()} threads instead of {before}")
                    close(dd, d, "the caller's data")
                finally:
                    shutil.rmtree(folder, ignore_errors=True)
                ctx.step(n)
                ctx.state("parallel", cores, order, fail)
    torch.set_num_threads(1)
    # real models
    from irtorch.estimation_algorithms import MML, JML
    fams = [[("2PL", 1, [2, 2, 2]), ("GPC", 1, [2, 2, 2]), ("GRM", 1, [2, 2, 2])], [("GPC", 2, [3, 2, 3]), ("GPC", 1, [3, 2, 3])]]
    for fs, alg, cores in ctx.each([(f, a, c) for f in fams for a in (MML, JML) for c in (1, 2, 3)]):
        with ctx.case("real", families=[f[0] for f in fs], algorithm=alg.__name__, processes=cores):
            dd = K.data_for(fs[0][2], n=10, missing=True)
            ms = [B.build(f, lv, cats) for f, lv, cats in fs]
            start = [[p.detach().clone() for p in m.parameters()] for m in ms]
            got = utils.fit_multiple_models_cpu(ms, dd, cores_to_use=cores, algorithm=alg(), max_epochs=3)
            for g, (f, lv, cats), s in zip(got, fs, start):
                alone = B.build(f, lv, cats)
                alone.fit(dd, algorithm=alg(), device="cpu", max_epochs=3)
                require(type(g) is type(alone) and g.latent_variables == lv, "models in another order")
                for p, q in zip(g.parameters(), alone.parameters()):
                    close(p, q, f"parameters of {f}", atol=1e-3, rtol=1e-3)
                close(g.algorithm.training_history["train_loss"], alone.algorithm.training_history["train_loss"], "losses", atol=1e-3, rtol=1e-4)
                close(torch.nan_to_num(g.algorithm.train_data, nan=-9.), torch.nan_to_num(dd, nan=-9.), "training data of the model")
                close(g.latent_scores(dd, theta_estimation="EAP", eap_theta_integration_points=5), alone.latent_scores(dd, theta_estimation="EAP", eap_theta_integration_points=5),
                      "scores", atol=1e-3)
            ctx.step(len(fs))
            ctx.state("real", str(fs), alg.__name__, cores)
