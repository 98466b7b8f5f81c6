"""P08: a model's scale is the composition of the transformations added to it, in order."""
import torch
from mc.core import bfs_histories, close, require
from mc import models as B
from mc import scales as S

META = dict(
    title="A model's scale is the composition of its transformations, after any history",
    statement="After any sequence of adding and detaching scale transformations, saving and loading, transform_theta applies the attached "
              "transformations in the order they were added, inverse_transform_theta undoes them, and the Jacobian is that of the composition. "
              "Scores requested on the transformed scale are the transformation of the scores on the original scale, and "
              "everything on the original scale is unaffected.",
    over=["histories", "inputs"],
    quant="all histories of adding seven kinds of scale, detaching and saving/loading up to the depth bound, for one and two latent variables",
    why="Tests attach one mocked scale; order, accumulation and the chain rule only matter for histories with several different scales.",
    files=["irtorch/models/base_irt_model.py", "irtorch/rescale/scale.py"],
    mech=[("composition", "transform_theta, inverse_transform_theta, theta_transform_jacobian"),
          ("bookkeeping", "add_scale_transformation, detach_scale_transformations, save_model, load_model")],
    technique="breadth-first enumeration of all operation histories on the real model against a list of reference functions",
)
PARALLEL = True
BOUNDS = ("all histories up to depth 3 (thorough 4) over {add affine, sinh, shear, reverse, rotate, flow, non-invertible; detach; save and load into a fresh "
          "model}, 1 and 2 latent variables, states merged when the attached list is the same")
ASSUMPTIONS = ["the Jacobians of single scales are those of P09; stacks without a spline are also compared with central differences"]


def run(ctx):
    from mc.props.p05 import fd
    import os
    path = os.path.join(os.environ.get("MC_TMP", "/tmp"), f"p08-{ctx.worker}.pt")
    for lv in (1, 2):
        adds = "ASHROF"
        th = B.thetas([-1.3, -0.2, 0.9], lv)
        data = torch.tensor([[0., 1., 1.], [1., 0., 0.], [1., 1., float("nan")]])
        base = B.build("2PL", lv, [2, 2, 2])
        p0 = base.item_probabilities(th).detach()
        eap0 = base.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=5)

        def make():
            return {"m": B.build("2PL", lv, [2, 2, 2]), "ref": ""}

        def add(c):
            def f(pair):
                sc = S.Opaque() if c == "X" else S.stack(c, pair["m"])[0]
                pair["m"].add_scale_transformation(sc)
                pair["ref"] += c
            return f

        def detach(pair):
            pair["m"].detach_scale_transformations()
            pair["ref"] = ""

        def reload(pair):
            pair["m"].save_model(path)
            fresh = B.build("2PL", lv, [2, 2, 2], p=1)
            fresh.add_scale_transformation(S.Sinh(0.3))
            fresh.load_model(path)
            pair["m"] = fresh

        def check(pair, hist):
            m, ref = pair["m"], pair["ref"]
            fs = [S.Opaque() if c == "X" else S.stack(c, base)[0] for c in ref]
            t = th.clone()
            for f in fs:
                t = f.transform(t)
            got = m.transform_theta(th).detach()
            close(got, t.detach(), "transform_theta")
            if all(f.invertible for f in fs):
                close(m.inverse_transform_theta(got).detach(), th, "inverse of the transformed scores", atol=2e-3)
                close(m.transform_theta(m.inverse_transform_theta(got)).detach(), got, "transform of the inverse",
                      atol=2e-3 * max(1., float(got.abs().max())))
            J = torch.eye(lv).double().repeat(len(th), 1, 1)
            t = th.clone()
            for f in fs:
                J = f.jacobian(t).detach().double() @ J
                t = f.transform(t).detach()
            gotJ = m.theta_transform_jacobian(th).detach()
            close(gotJ, J, "Jacobian of the composition", atol=1e-4 * max(1., float(J.abs().max())))
            if "F" not in ref and float(gotJ.abs().max()) < 20:                 # the spline's derivative is not smooth at its knots
                J = fd(lambda x: m.transform_theta(x), th)
                close(gotJ, J, "Jacobian", atol=2e-3 * max(1., float(J.abs().max())))
            close(m.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=5, rescale=False), eap0, "scores on the original scale")
            e = m.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=5)
            w = eap0.clone()
            for f in fs:
                w = f.transform(w)
            close(e, w.detach(), "scores on the transformed scale")
            close(m.item_probabilities(th).detach(), p0, "probabilities")
            # none of this attaches or detaches anything
            require(len(m.scale) == len(ref), f"{len(m.scale)} transformations attached, expected {len(ref)}")
            ctx.outcome(ref)

        ops = [("add " + c, add(c), lambda p: len(p["ref"]) < (4 if ctx.thorough else 3)) for c in adds + "X"]
        ops += [("detach", detach), ("reload", reload)]
        firsts = [o[0] for o in ops]
        # partition by the first operation: each worker explores the histories that start with its own
        for first in ctx.each([None] + firsts):
            if first is None:
                bfs_histories(ctx, make, ops, lambda p: p["ref"], check, 0, "history", dict(lv=lv))
            else:
                mk = make

                def make1(first=first):
                    p = mk()
                    next(o for o in ops if o[0] == first)[1](p)
                    return p
                bfs_histories(ctx, make1, ops, lambda p: p["ref"], check, (4 if ctx.thorough else 3) - 1, "history", dict(lv=lv, first=first))
