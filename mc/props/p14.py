"""P14: refitting and asking in any order."""
import os
import torch
from mc.core import bfs_histories, close, require
from mc import kinds as K
from mc import models as B
from mc import scales as S

META = dict(
    title="A fit and an answer depend on the present, not on what happened before",
    statement="After any sequence of fits with new or already used algorithm objects, changes of scale, loads and queries, every query answers like a newly "
              "built model with the same parameters, algorithm and scales. A fit gives the results a new algorithm object gives on an identical new model, "
              "records only its own losses and scores, and keeps all data the algorithm object was trained on.",
    over=["histories"],
    quant="all histories over fits with four algorithms (new and reused objects, two data sets), queries that fill caches, scale changes, save and load",
    why="Tests fit once; caches, optimizers, best states and densities left over from an earlier fit only matter in later steps of a history.",
    files=["irtorch/models/base_irt_model.py", "irtorch/evaluator.py", "irtorch/estimation_algorithms/base_irt_algorithm.py", "irtorch/estimation_algorithms/ae.py",
           "irtorch/estimation_algorithms/vae.py", "irtorch/estimation_algorithms/jml.py", "irtorch/estimation_algorithms/mml.py"],
    mech=[("caches", "Evaluator.latent_density"), ("bookkeeping", "train_data, training_theta_scores, training_history, best_model_state")],
    technique="breadth-first enumeration of operation histories on real models against a twin rebuilt from the model's visible state after every step",
)
PARALLEL = True
BOUNDS = "all sequences of 2 (thorough: 3) fits of 3 data sets by one algorithm object, with short and bouncing runs; all histories up to depth 3 (model mix: 2; thorough: 5 and 4, merged by abstract state) over 15 operations, starting with a fit"
ASSUMPTIONS = ["fits are 2-3 epochs on the CPU under fixed seeds"]
CATS = [2, 2, 3]
D = {"x": torch.tensor([[0., 1., 2.], [1., 0., 0.], [1., 1., 1.], [0., 0., 1.], [1., 1., 2.], [0., 0., 0.]]),
     "y": torch.tensor([[1., 1., 2.], [1., float("nan"), 2.], [0., 1., -1.], [1., 0., 1.], [1., 1., 2.], [0., 1., 2.], [1., 1., 0.]])}
nan = float("nan")
D["z"] = torch.tensor([[0., nan, nan], [nan, -1., 2.], [nan, 1., nan], [1., nan, nan], [-1., 0., nan]])   # little observed: low losses
KW = dict(theta_estimation="EAP", eap_theta_integration_points=5)


def new_model(kind):
    if kind == "GPC":
        return B.build("GPC", 1, CATS)
    return B.build("MIX", 1, [], parts=[("2PL", 1, [2, 2]), ("GPC", 1, [3])])


def new_algorithm(alg):
    from irtorch.estimation_algorithms import AE, JML, MML, VAE
    return {"MML": MML, "JML": JML, "AE": AE, "VAE": VAE}[alg]()


def options(alg, data, setting="short"):
    kw = dict(max_epochs=3, device="cpu")
    if setting == "bouncing":          # steps that are too long: the best loss is not the last, and the learning rate is lowered
        kw = dict(max_epochs=7, device="cpu", learning_rate=1.5, learning_rate_updates_before_stopping=2)
        if alg in ("MML", "JML"):
            kw.update(learning_rate_update_patience=1)
    if alg == "MML":
        kw.update(quadrature_points=5)
        if data == "y":
            kw["covariance_matrix"] = torch.tensor([[1.5]])
    if alg in ("AE", "VAE"):
        kw.update(hidden_layers_encoder=[4], evaluation_interval_size=1)
    return kw


def results(m, a):
    out = {"history": torch.tensor([float(x) for x in a.training_history["train_loss"]])}
    for k, v in m.state_dict().items():
        out["parameter " + k] = v.clone()
    for k in ("training_theta_scores", "covariance_matrix"):
        if getattr(a, k, None) is not None:
            out[k] = getattr(a, k).detach().clone()
    if getattr(a, "encoder", None) is not None:
        for k, v in a.encoder.state_dict().items():
            out["encoder " + k] = v.clone()
    return out


def compare(got, want, what):
    require(set(got) == set(want), f"{what}: results {sorted(got)} instead of {sorted(want)}")
    for k in want:
        close(got[k], want[k], f"{what}: {k}", atol=1e-5)


def fit(pair, alg, data, reuse, setting="short"):
    m = pair["m"]
    a = pair["algs"].get(alg) if reuse else new_algorithm(alg)
    if not reuse:
        pair["algs"][alg] = a
        pair["given"][alg] = []
    twin = new_model(pair["kind"])
    twin.load_state_dict(m.state_dict())
    torch.manual_seed(9)
    m.fit(D[data], algorithm=a, **options(alg, data, setting))
    b = new_algorithm(alg)
    torch.manual_seed(9)
    twin.fit(D[data].clone(), algorithm=b, **options(alg, data, setting))
    compare(results(m, a), results(twin, b), f"fit {alg} {data}" + (" with a used algorithm object" if reuse else ""))
    require(m.algorithm is a, "the model does not refer to the algorithm of its last fit")
    pair["given"][alg].append(data)
    want = torch.cat([D[x] for x in pair["given"][alg]])
    close(a.train_data, want, "training data of the algorithm")
    if a.training_theta_scores is not None:
        require(a.training_theta_scores.shape == (len(D[data]), 1), f"{tuple(a.training_theta_scores.shape)} training scores for {len(D[data])} rows")
    pair["abs"] = (alg, data, pair["abs"][2], pair["abs"][3], tuple(sorted((k, tuple(v)[-2:]) for k, v in pair["given"].items())))


def looks(m, kind):
    """Queries with something to remember, under fixed seeds."""
    e, out = m.evaluate, {}
    th = torch.tensor([[-1.], [0.3], [1.2]])
    out["probabilities"] = m.item_probabilities(th)
    out["transform"] = m.transform_theta(th)
    if m.algorithm is None:
        return out
    torch.manual_seed(1)
    out["EAP"] = m.latent_scores(D["x"], **KW)
    out["MAP"] = m.latent_scores(D["x"][:3], theta_estimation="MAP")
    if getattr(m.algorithm, "encoder", None) is not None:
        out["NN"] = m.latent_scores(D["x"], theta_estimation="NN")
    out["residuals"] = e.residuals(average_over="items", **KW)
    out["accuracy"] = e.accuracy(**KW)
    out["likelihood"] = e.log_likelihood(**KW)
    out["likelihood of x"] = e.log_likelihood(data=D["x"], **KW)
    out["group likelihood of x"] = e.group_fit_log_likelihood(data=D["x"], groups=2, **KW)
    out["Q3 of x"] = e.q3(data=D["x"], **KW) if kind == "GPC" else 0
    if kind == "GPC":
        torch.manual_seed(1)
        out["sum score qmvn"] = e.sum_score_probabilities("qmvn", trapezoidal_segments=9)
        out["sum score data"] = e.sum_score_probabilities("data")
    out["history plot"] = K.digest(m.plot.training_history())
    out["curve"] = K.digest(m.plot.item_probabilities(1, steps=4))
    return out


def same_looks(got, want, what):
    require(set(got) == set(want), f"{what}: {sorted(got)} instead of {sorted(want)}")
    for k in want:
        K.same(K.digest(got[k]), K.digest(want[k]), f"{what}: {k}")


def check(ctx, pair):
    m = pair["m"]
    twin = new_model(pair["kind"])
    twin.load_state_dict(m.state_dict())
    twin.algorithm = m.algorithm
    for s in m.scale:
        twin.add_scale_transformation(s)
    same_looks(looks(m, pair["kind"]), looks(twin, pair["kind"]), "an answer depends on the history")
    ctx.outcome(pair["abs"])


def run(ctx):
    path = os.path.join(os.environ.get("MC_TMP", "/tmp"), f"p14-{ctx.worker}.pt")

    # one algorithm object for several fits, of the same model or of new ones
    import itertools
    n = ctx.pick(2, 3)
    jobs = [(alg, seq, setting) for alg in ("MML", "JML", "AE", "VAE") for k in range(2, n + 1) for seq in itertools.product("xyz", repeat=k)
            for setting in ("short", "bouncing")]
    for alg, seq, setting in ctx.each(jobs):
        for kind, anew in (("GPC", False), ("GPC", True), ("MIX", True)):
            with ctx.case("used algorithm", algorithm=alg, data="".join(seq), setting=setting, model=kind, new_models=anew):
                pair = {"kind": kind, "m": new_model(kind), "algs": {}, "given": {}, "file": None, "abs": (None, None, None, 0, ())}
                for i, data in enumerate(seq):
                    if i and anew:
                        pair["m"] = new_model(kind)
                    fit(pair, alg, data, i > 0, setting)
                    ctx.step()
                ctx.state("used", alg, seq, setting, kind, anew)

    def ask(pair, what):
        m = pair["m"]
        torch.manual_seed(3)
        if what == "all":
            looks(m, pair["kind"])
        elif what == "gmm":
            m.evaluate.approximate_latent_density(torch.linspace(-2, 2, 12).unsqueeze(1), "gmm", [2])
        pair["abs"] = pair["abs"][:2] + (what,) + pair["abs"][3:]

    def scale(pair, kind):
        m = pair["m"]
        if kind == "add":
            m.add_scale_transformation(S.Sinh(0.4) if len(m.scale) % 2 == 0 else S.stack("A", m)[0])
        else:
            m.detach_scale_transformations()
        pair["abs"] = pair["abs"][:3] + (len(m.scale),) + pair["abs"][4:]

    def save(pair):
        pair["m"].save_model(path)
        with open(path, "rb") as f:
            pair["file"] = f.read()

    def load(pair):
        with open(path, "wb") as f:
            f.write(pair["file"])
        m = pair["m"]
        m.load_model(path)
        pair["algs"], pair["given"] = {}, {}
        pair["abs"] = ("file", None, pair["abs"][2], len(m.scale), ())

    ops = []
    for alg in ("MML", "JML", "AE", "VAE"):
        ops.append((f"fit {alg} x", lambda p, alg=alg: fit(p, alg, "x", False)))
        ops.append((f"refit {alg} y", lambda p, alg=alg: fit(p, alg, "y", True), lambda p, alg=alg: alg in p["algs"]))
    ops.append(("ask", lambda p: ask(p, "all"), lambda p: p["m"].algorithm is not None and p["abs"][2] != "all"))
    ops.append(("density", lambda p: ask(p, "gmm"), lambda p: p["abs"][2] != "gmm"))
    ops.append(("scale", lambda p: scale(p, "add"), lambda p: len(p["m"].scale) < 2))
    ops.append(("detach", lambda p: scale(p, "detach"), lambda p: len(p["m"].scale) > 0))
    ops.append(("save", save, lambda p: p["file"] is None and p["m"].algorithm is not None))
    ops.append(("load", load, lambda p: p["file"] is not None))
    def nudge(pair):
        with torch.no_grad():
            for p in pair["m"].parameters():
                p.add_(0.3)
        pair["abs"] = pair["abs"][:3] + (pair["abs"][3],) + pair["abs"][4:] + ("nudged",)

    ops.append(("nudge", nudge, lambda p: p["abs"][-1] != "nudged"))
    seconds = [o[0] for o in ops]
    jobs = [(kind, f"fit {a} x", s) for kind in ("GPC", "MIX") for a in ("MML", "JML", "AE", "VAE") for s in seconds]
    for kind, first, second in ctx.each(jobs):
        def make():
            p = {"kind": kind, "m": new_model(kind), "algs": {}, "given": {}, "file": None, "abs": (None, None, None, 0, ())}
            next(o for o in ops if o[0] == first)[1](p)
            o = next(o for o in ops if o[0] == second)
            if len(o) < 3 or o[2](p):
                o[1](p)
            return p
        depth = ctx.pick(1, 2) if kind == "GPC" else ctx.pick(0, 1)
        bfs_histories(ctx, make, ops, lambda p: (p["abs"], p["file"] is not None), lambda p, h: check(ctx, p), depth, "history",
                      dict(model=kind, first=first, second=second), dedupe=ctx.thorough)
