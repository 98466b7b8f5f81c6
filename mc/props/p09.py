"""P09: each scale transformation with its inverse and Jacobian."""
import contextlib
import itertools
import math
import numpy as np
import torch
from mc.core import close, require, raises
from mc import models as B
from mc import scales as S

META = dict(
    title="Every scale's inverse and Jacobian match its transform, in every grad mode",
    statement="For every scale transformation, inverse undoes transform and transform undoes inverse wherever it is invertible, transforms that promise "
              "monotonicity are strictly monotone, and the Jacobian is the derivative of the transform, whether gradients are enabled, "
              "disabled or inference mode is on. Reverse flips exactly the chosen latent variables, Rotate gives latent variables whose "
              "expected-score loadings are the rotated loadings, and RankCDF maps a score to the quantile of the average rank of the "
              "nearest population score.",
    over=["configurations", "inputs"],
    quant="all scale types and options, parameter settings, rotation methods, populations with ties and points of the latent grid",
    why="Tests check the transform of one fitted instance; inverse, Jacobian and grad mode combinations are not exercised, and rotations have no test.",
    files=["irtorch/rescale/reverse.py", "irtorch/rescale/rotate.py", "irtorch/rescale/flow.py", "irtorch/rescale/link_common_items.py",
           "irtorch/rescale/rank_cdf.py", "irtorch/torch_modules/neural_spline_flow.py"],
    mech=[("inverse", "inverse of each Scale"), ("Jacobian", "jacobian of each Scale"), ("rotation", "Rotate.__init__"), ("ranks", "RankCDF")],
    technique="exhaustive enumeration of scale options x grad modes x latent grid on the real scales against direct formulas and central differences; "
              "all small populations with ties for RankCDF",
)
PARALLEL = True
BOUNDS = ("all scale classes and options, 4 spline/network parameter settings, 1-3 latent variables, 5 rotation methods, 3 grad modes, all populations of up "
          "to 4 scores over 3 values")
ASSUMPTIONS = ["spline Jacobians are compared with central differences away from the knots (tolerance covers kinks of the second derivative)",
               "rotated loadings agree to 1e-4"]
MODES = {"grad": contextlib.nullcontext, "no_grad": torch.no_grad, "inference": torch.inference_mode}


def jac_fd(f, th):
    h = 2e-3
    out = []
    for d in range(th.shape[1]):
        e = torch.zeros(1, th.shape[1])
        e[0, d] = h
        out.append((f(th + e).detach().double() - f(th - e).detach().double()) / (2 * h))
    return torch.stack(out, -1)


def check_scale(ctx, s, th, name, inverse=True, monotone=False, atol=2e-3, jac=True):
    ref = None
    for mode, cm in MODES.items():
        with cm():
            x = th.clone()
            t = s.transform(x)
            require(torch.equal(x, th), f"{name}: transform changed its argument")
            t2 = s(th.clone())
            close(t2, t, f"{name}: call and transform")
            if ref is None:
                ref = t.detach().clone()
            close(t, ref, f"{name}: transform in {mode} mode")
            if inverse:
                close(s.inverse(t), th, f"{name}: inverse of transform in {mode} mode", atol=atol)
                close(s.transform(s.inverse(th.clone())), th, f"{name}: transform of inverse in {mode} mode", atol=atol)
            if jac and mode != "inference":
                J = s.jacobian(th.clone())
                require(tuple(J.shape) == (len(th), th.shape[1], th.shape[1]), f"{name}: Jacobian shape {tuple(J.shape)}")
                want = jac_fd(s.transform, th)
                close(J.detach(), want, f"{name}: Jacobian in {mode} mode", atol=1.5e-2 * max(1., float(want.abs().max())))
        ctx.step(len(th))
    if monotone:
        d = ref.shape[1]
        for k in range(d):
            line = torch.zeros(200, d)
            line[:, k] = torch.linspace(-9, 9, 200)
            y = s.transform(line).detach()[:, k]
            dy = (y[1:] - y[:-1]) * monotone
            require(bool((dy > 0).all()), f"{name}: not strictly monotone in latent {k}")
            # the other coordinates do not move
            for o in range(d):
                if o != k:
                    require(float((s.transform(line).detach()[:, o] - s.transform(line[:1]).detach()[:, o]).abs().max()) < 1e-6,
                            f"{name}: latent {o} depends on {k}")


def run(ctx):
    from irtorch.rescale import Flow, LinkCommonItems, RankCDF, Reverse, Rotate
    vals = [-7.3, -5.1, -2.37, -0.81, 0.0, 0.43, 1.61, 3.3, 6.2]
    jobs = []
    for lv in (1, 2, 3):
        for r in itertools.product([False, True], repeat=lv):
            jobs.append(("reverse", lv, list(r)))
        jobs.append(("flow", lv, 0))
        jobs.append(("flow", lv, 1))
        jobs.append(("flow", lv, 2))
    for method in ("spline", "neuralnet"):
        for inv in (False, True):
            for k in range(4 if ctx.thorough else 2):
                jobs.append(("link", method, inv, k))
    for lv in (2, 3):
        for meth in ("varimax", "promax", "oblimin", "quartimax", "equamax"):
            for k in range(3 if ctx.thorough else 2):
                jobs.append(("rotate", lv, meth, k))
        jobs.append(("rotmat", lv))
    for n in (1, 2, 3, 4):
        jobs.append(("rank", n))
    for job in ctx.each(jobs):
        kind = job[0]
        if kind == "reverse":
            _, lv, r = job
            with ctx.case("reverse", lv=lv, reversed=r):
                s = Reverse(r)
                th = B.thetas([-1.5, 0., 0.7, 4.], lv)
                sign = torch.tensor([-1. if x else 1. for x in r])
                close(s.transform(th), th * sign, "reversed scores")
                require(s.invertible, "invertible")
                check_scale(ctx, s, th, "Reverse", atol=1e-6)
                ctx.state(job)
        elif kind == "flow":
            _, lv, k = job
            with ctx.case("flow", lv=lv, k=k):
                s = S.flow(lv, k)
                th = torch.tensor(vals).repeat(lv, 1).T.contiguous()
                th = th + torch.arange(lv) * 0.21
                check_scale(ctx, s, th, "Flow", monotone=1, atol=5e-3)
                check_scale(ctx, s, th[:1], "Flow one row", atol=5e-3)
                raises(lambda: Flow(lv).transform(th), "transform of a flow that is not fitted", ValueError)
                raises(lambda: Flow(lv).inverse(th), "inverse of a flow that is not fitted", ValueError)
                raises(lambda: Flow(lv).jacobian(th), "Jacobian of a flow that is not fitted", ValueError)
                ctx.state(job)
        elif kind == "link":
            _, method, inv, k = job
            with ctx.case("link", method=method, inverted=inv, k=k):
                s = S.link(method, inv, k)
                th = torch.tensor(vals).view(-1, 1)
                check_scale(ctx, s, th, "LinkCommonItems", inverse=method == "spline", monotone=-1 if inv else 1, atol=5e-3)
                other = S.link(method, not inv, k)
                close(other.transform(th).detach(), -s.transform(th).detach(), "inverted link")
                ctx.state(job)
        elif kind == "rotmat":
            _, lv = job
            with ctx.case("rotation matrix", lv=lv):
                m = B.build("2PL", lv, [2, 2, 2])
                s = S.rotate(m)
                th = B.thetas([-1.5, 0., 0.7], lv)
                close(s.transform(th), th @ s.rotation_matrix, "rotated scores")
                check_scale(ctx, s, th, "Rotate", atol=1e-4)
                raises(lambda: Rotate(m), "rotation without data", ValueError)
                raises(lambda: Rotate(m, rotation_matrix=torch.eye(lv + 1)), "matrix of the wrong size", ValueError)
                ctx.state(job)
        elif kind == "rotate":
            _, lv, meth, k = job
            with ctx.case("rotate", lv=lv, rotation=meth, k=k):
                m = B.build("2PL", lv, [2] * 7, p=0)
                with torch.no_grad():
                    w = torch.tensor([[1.3 if i % lv == d else 0.25 + 0.1 * math.sin(i + d + k) for d in range(lv)] for i in range(7)])
                    m.weight_param.copy_(w.reshape(m.weight_param.shape))
                pop = torch.tensor([[math.sin(1.3 * i + 2 * d + k) * 1.5 for d in range(lv)] for i in range(40)])
                for pre in ("", "A"):
                    for src in ("theta", "loadings", "data"):
                        m.detach_scale_transformations()
                        for x in S.stack(pre, m):
                            m.add_scale_transformation(x)
                        load = m.expected_item_score_gradients(pop).mean(0)
                        if src == "theta":
                            r = Rotate(m, theta=pop, rotation_method=meth)
                        elif src == "loadings":
                            r = Rotate(m, loadings=load, rotation_method=meth)
                        else:
                            data = torch.tensor([[float((i >> j) & 1) for j in range(7)] for i in range(0, 128, 7)])
                            r = Rotate(m, data=data, rotation_method=meth, theta_estimation="EAP", eap_theta_integration_points=5)
                            th = m.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=5, rescale=False)
                            pp = th
                        m.add_scale_transformation(r)
                        g = m.expected_item_score_gradients(pop if src != "data" else pp).mean(0)
                        close(g, r.rot_loadings, f"loadings on the scale rotated from {src}", atol=1e-4)
                        check_scale(ctx, r, pop[:9], "Rotate", atol=1e-4)
                ctx.state(job)
        elif kind == "rank":
            n = job[1]
            from torch.distributions import Normal, Laplace
            for pop in itertools.product([-1., 0.5, 2.], repeat=n):
                for dist in (None, "one", "each"):
                    with ctx.case("rank", population=list(pop), distributions=str(dist)):
                        P = torch.tensor([list(pop), list(reversed(pop))]).T.contiguous()
                        ds = None if dist is None else [Laplace(0., 2.)] if dist == "one" else [Normal(0., 1.), Normal(5., 2.)]
                        s = RankCDF(P, ds)
                        th = torch.tensor([[-3., -1.], [-0.3, 0.4], [0.5, 0.5], [1.2, 1.3], [2., 9.]])
                        got = s.transform(th)
                        want = np.zeros(th.shape)
                        for k in range(2):
                            col = P[:, k].tolist()
                            srt = sorted(col)
                            D = Normal(0., 1.) if ds is None else ds[k % len(ds)]
                            for i in range(len(th)):
                                near = min(sorted(set(col)), key=lambda v: abs(v - float(th[i, k])))
                                rank = np.mean([x + 1 for x, v in enumerate(srt) if v == near])
                                want[i, k] = float(D.icdf(torch.tensor(rank / (n + 1))))
                        close(got, want, "rank scores", atol=1e-4)
                        require(not s.invertible, "RankCDF declared invertible")
                        raises(lambda: s.inverse(th), "inverse", NotImplementedError)
                        raises(lambda: s.jacobian(th), "jacobian", NotImplementedError)
                        ctx.step(len(th))
                        ctx.state("rank", pop, dist)
                        ctx.outcome(np.round(want, 4))
