"""P11: a saved model comes back."""
import copy
import os
import numpy as np
import torch
from mc.core import bfs_histories, close, require
from mc import kinds as K, models as B
from mc import scales as S

META = dict(
    title="A saved model loads back with all its behaviour",
    statement="After saving, in any state reached by fitting and attaching scales, and loading into a newly constructed model of the same structure, all "
              "response probabilities, latent scores, scale transformations, training results and evaluations are those of the model at the time of "
              "saving. Saving does not change the model, later changes do not reach into the saved file, and loading replaces everything the "
              "loading model had before.",
    over=["histories", "configurations"],
    quant="all histories of fitting with each algorithm, attaching and detaching scales, saving and loading up to the depth bound; every model family",
    why="Tests save and load one model without algorithm or scale in between; which piece of state is left out shows only for particular histories.",
    files=["irtorch/models/base_irt_model.py", "irtorch/models/model_mix.py", "irtorch/estimation_algorithms/base_irt_algorithm.py"],
    mech=[("persistence", "save_model, load_model"), ("algorithm state", "BaseIRTAlgorithm and its subclasses")],
    technique="breadth-first enumeration of operation histories on real models with real files against recorded observations at the time of saving",
)
PARALLEL = True
BOUNDS = ("all histories up to depth 4 (thorough 5) over {fit MML, fit JML, fit AE, fit VAE, add scale, detach, nudge parameters, save, load into a "
          "used model} ending in a load; every model family and option x parameter setting for plain round trips, which are then fitted further with 2 algorithms; 6 kinds of scale")
ASSUMPTIONS = ["fits are short (2 epochs)"]
DATA = torch.tensor([[0., 1., 2.], [1., 0., 0.], [1., 1., 1.], [0., 0., 1.], [1., 1., 2.], [0., 0., 0.]])
CATS = [2, 2, 3]


def observe(m, optimise=False):
    lv = m.latent_variables
    th = B.thetas([-1.1, 0.2, 1.4], lv)
    data = torch.tensor([[0., 1., 1.], [1., 0., float("nan")], [1., 1., 2.]])[:, :m.items]
    for j, c in enumerate(m.item_categories[:3]):
        data[:, j] = torch.where(data[:, j].isnan(), data[:, j], data[:, j].clamp(max=c - 1))
    if m.items > 3:
        data = torch.cat([data, torch.zeros(3, m.items - 3)], 1)
    out = {"probabilities": m.item_probabilities(th), "transform": m.transform_theta(th), "information": m.information(th, rescale=False),
           "EAP": m.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=5),
           "directions": m.item_theta_relationship_directions(th)}
    if optimise:
        out["ML"] = m.latent_scores(data, theta_estimation="ML")
    a = m.algorithm
    if a is not None:
        if getattr(a, "encoder", None) is not None:
            out["NN"] = m.latent_scores(data.nan_to_num(0.), theta_estimation="NN")
        if getattr(a, "covariance_matrix", None) is not None:
            out["covariance"] = a.covariance_matrix
        if optimise and (getattr(a, "training_theta_scores", None) is not None or getattr(a, "covariance_matrix", None) is not None):
            out["MAP"] = m.latent_scores(data, theta_estimation="MAP")
        if getattr(a, "training_theta_scores", None) is not None:
            out["training scores"] = a.training_theta_scores
        out["training data"] = a.train_data
        out["history"] = torch.tensor([float(x) for x in a.training_history["train_loss"]])
    out["algorithm"] = type(a).__name__
    out["scales"] = [type(s).__name__ for s in m.scale]
    return {k: (v.detach().clone() if isinstance(v, torch.Tensor) else v) for k, v in out.items()}


def same(got, want, what):
    require(set(got) == set(want), f"{what}: observations {sorted(got)} instead of {sorted(want)}")
    for k in want:
        if isinstance(want[k], torch.Tensor):
            close(got[k], want[k], f"{what}: {k}", atol=1e-5)
        else:
            require(got[k] == want[k], f"{what}: {k} is {got[k]!r}, was {want[k]!r}")


def fitter(alg):
    from irtorch.estimation_algorithms import AE, JML, MML, VAE

    def f(pair):
        torch.manual_seed(3)
        a = {"MML": MML, "JML": JML, "AE": AE, "VAE": VAE}[alg]()
        kw = dict(max_epochs=2, device="cpu")
        if alg == "MML":
            kw["quadrature_points"] = 5
        if alg in ("AE", "VAE"):
            kw.update(hidden_layers_encoder=[4], evaluation_interval_size=1)
        pair["m"].fit(DATA, algorithm=a, **kw)
        pair["abs"] = (alg,) + pair["abs"][1:]
    return f


def run(ctx):
    path = os.path.join(os.environ.get("MC_TMP", "/tmp"), f"p11-{ctx.worker}.pt")

    def make():
        return {"m": B.build("GPC", 1, CATS), "file": None, "abs": ("-", "", 0, None, 0)}
    # abs: algorithm, scales, parameter version, file's (alg, scales, version), evaluator used

    def add(pair):
        m = pair["m"]
        m.add_scale_transformation(S.stack("S" if len(m.scale) % 2 else "A", m)[0])
        a = pair["abs"]
        pair["abs"] = (a[0], a[1] + "s", a[2], a[3], a[4])

    def detach(pair):
        pair["m"].detach_scale_transformations()
        a = pair["abs"]
        pair["abs"] = (a[0], "", a[2], a[3], a[4])

    def nudge(pair):
        with torch.no_grad():
            for p in pair["m"].parameters():
                p.mul_(1.1)
        if pair["m"].algorithm is not None and getattr(pair["m"].algorithm, "training_theta_scores", None) is not None:
            pair["m"].algorithm.training_theta_scores = pair["m"].algorithm.training_theta_scores * 0.9
        a = pair["abs"]
        pair["abs"] = (a[0], a[1], a[2] + 1, a[3], a[4])

    def save(pair):
        before = observe(pair["m"])
        pair["m"].save_model(path)
        same(observe(pair["m"]), before, "saving")
        pair["file"] = before
        with open(path, "rb") as f:
            pair["bytes"] = f.read()
        a = pair["abs"]
        pair["abs"] = a[:3] + ((a[0], a[1], a[2]),) + a[4:]

    def load(pair):
        with open(path, "wb") as f:
            f.write(pair["bytes"])
        m = pair["m"]
        m.load_model(path)
        same(observe(m), pair["file"], "loading into the used model")
        fresh = B.build("GPC", 1, CATS, p=1)
        fresh.add_scale_transformation(S.Sinh(0.2))
        fresh.load_model(path)
        same(observe(fresh), pair["file"], "loading into a new model")
        a = pair["abs"]
        pair["abs"] = (a[3][0], a[3][1], a[3][2], a[3], a[4])

    ops = [("fit " + a, fitter(a)) for a in ("MML", "JML", "AE", "VAE")]
    ops += [("add scale", add, lambda p: len(p["abs"][1]) < 2), ("detach", detach, lambda p: p["abs"][1] != ""), ("nudge", nudge, lambda p: p["abs"][2] < 1),
            ("save", save), ("load", load, lambda p: p["file"] is not None)]

    def check(pair, hist):
        ctx.outcome(pair["abs"])

    for first in ctx.each([o[0] for o in ops if o[0] not in ("load", "detach")]):
        def make1(first=first):
            p = make()
            next(o for o in ops if o[0] == first)[1](p)
            return p
        bfs_histories(ctx, make1, ops, lambda p: p["abs"], check, ctx.pick(4, 5) - 1, "history", dict(first=first))

    # every family and every scale once around
    from irtorch.estimation_algorithms import JML, MML
    for d in ctx.each(list(B.configs(ctx.thorough, psets=(0, 1))) + list(B.mix_configs())):
        with ctx.case("round trip", **d):
            m = B.build(**d)
            lv = d["lv"]
            opt = ctx.thorough or d["family"] in ("2PL", "GPC", "MIX") and d.get("p", 0) == 0
            m.algorithm = JML()
            m.algorithm.training_theta_scores = torch.tensor([[-1., .3], [.5, 1.1], [0.2, -.7]])[:, :lv]
            m.algorithm.train_data = torch.zeros(3, len(d["cats"]))
            for s in S.stack("SH", m):
                m.add_scale_transformation(s)
            want = observe(m, opt)
            m.save_model(path)
            same(observe(m, opt), want, "saving")
            q = dict(d)
            if d["family"] != "MIX":
                q["p"] = 2
            fresh = B.build(**q)
            if d["family"] == "MIX":
                with torch.no_grad():
                    for p in fresh.parameters():
                        p.add_(0.3)
            fresh.load_model(path)
            same(observe(fresh, opt), want, "loading")
            # a save of the loaded model is as good
            fresh.save_model(path)
            third = B.build(**q)
            third.load_model(path)
            same(observe(third, opt), want, "loading a re-saved model")
            # and learns the same from more data
            if opt or d.get("p", 0) == 0:
                rows = K.data_for(m.item_categories, 7)
                for alg in (JML, MML):
                    ends = []
                    for w in (m, third):
                        w = copy.deepcopy(w)
                        torch.manual_seed(3)
                        w.fit(rows.clone(), algorithm=alg(), max_epochs=2, device="cpu")
                        ends.append({k: v.detach().clone() for k, v in w.state_dict().items()} | {"EAP": w.latent_scores(rows, theta_estimation="EAP", eap_theta_integration_points=5)})
                    same(ends[1], ends[0], f"fitting the loaded model with {alg.__name__}")
                    ctx.step()
            # what happens to the saving model afterwards does not reach the loaded one
            with torch.no_grad():
                for p in m.parameters():
                    p.add_(0.5)
                m.algorithm.training_theta_scores.add_(1.)
            m.detach_scale_transformations()
            same(observe(third, opt), want, "after changing the original")
            ctx.state(d)
            ctx.step(3)
    from irtorch.rescale import Bit, RankCDF
    for name in ctx.each(["reverse", "rotate", "flow", "link spline", "link inverted", "link network", "rank", "bit", "bit start", "bit population"]):
        for lv in (1, 2):
            if lv == 2 and name.startswith("link"):
                continue
            with ctx.case("scale round trip", scale=name, lv=lv):
                m = B.build("2PL", lv, [2, 2, 2])
                pop = torch.tensor([[-1., .2], [.5, .5], [.5, -2.], [2., 1.]])[:, :lv]
                s = {"reverse": lambda: S.stack("R", m)[0], "rotate": lambda: S.rotate(m), "flow": lambda: S.flow(lv),
                     "link spline": lambda: S.link("spline"), "link inverted": lambda: S.link("spline", True),
                     "link network": lambda: S.link("neuralnet", True), "rank": lambda: RankCDF(pop),
                     "bit": lambda: Bit(m, grid_points=200, items=[0, 2]),
                     "bit start": lambda: Bit(m, grid_points=200, start_theta=torch.full((lv,), -0.5)),
                     "bit population": lambda: Bit(m, grid_points=200, population_theta=pop)}[name]()
                m.add_scale_transformation(s)
                th = B.thetas([-1.1, 0.2, 1.4], lv)
                want = m.transform_theta(th).detach()
                m.save_model(path)
                fresh = B.build("2PL", lv, [2, 2, 2], p=1)
                fresh.load_model(path)
                close(fresh.transform_theta(th).detach(), want, "transform after loading")
                if name not in ("rank", "link network") and not name.startswith("bit"):
                    close(fresh.inverse_transform_theta(want).detach(), th, "inverse after loading", atol=5e-3)
                if name != "rank" and not (name.startswith("bit") and lv > 1):
                    close(fresh.theta_transform_jacobian(th).detach(), m.theta_transform_jacobian(th).detach(), "Jacobian after loading")
                ctx.state(name, lv)
