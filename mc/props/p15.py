"""P15: the loss of every fitting algorithm is the likelihood it is documented to maximise."""
import itertools
import math
import torch
from mc.core import close, require
from mc import models as B
from mc import stub as T

META = dict(
    title="Every fitting algorithm minimises the likelihood it is named after",
    statement="The loss of each training step is minus the marginal (MML), joint (JML) or reconstruction (AE) log-likelihood, or the importance weighted "
              "bound (VAE), of the observed responses under the current parameters, missing responses left out, and each step moves the parameters against "
              "its gradient. Gauss-Hermite points and weights integrate every polynomial up to degree 2n-1 against the given normal density.",
    over=["configurations", "inputs"],
    quant="every model family and option x integration method x covariance x missing pattern x algorithm; every monomial up to the exactness degree",
    why="Tests check that a loss is returned and parameters change; a wrong weight, a repeated row order or a lost missing mask still trains.",
    files=["irtorch/estimation_algorithms/mml.py", "irtorch/estimation_algorithms/jml.py", "irtorch/estimation_algorithms/ae.py",
           "irtorch/estimation_algorithms/vae.py", "irtorch/utils.py"],
    mech=[("marginal likelihood", "MML._train_step"), ("joint likelihood", "JML._training_loop"), ("reconstruction", "AE._train_batch"),
          ("importance weighted bound", "VAE._loss_function"), ("quadrature", "gauss_hermite")],
    technique="exhaustive enumeration of configurations, data patterns and scripted noise through real training steps against brute-force sums in double "
              "precision, and of all monomials against exact Gaussian moments",
)
PARALLEL = True
BOUNDS = ("every family x option x 1-2 latent variables (thorough: + all relationship masks) x {quasi MC, Gauss-Hermite} x 2 covariances x {complete, missing}"
          " data, 2 steps each; JML with 3 batch sizes; AE/VAE with 2 batch sizes, 1-3 importance samples, 3 annealing settings, scripted noise; quadrature "
          "with 1-8 points in 1-3 dimensions; JML starts for all data of 1-3 respondents x 2 items with missing responses")
ASSUMPTIONS = ["optimizer steps are observed through PyTorch's global step hooks", "quasi MC is compared up to a constant that does not depend on the parameters"]
COV = {1: [[[1.0]], [[2.2]]], 2: [[[1.0, 0.0], [0.0, 1.0]], [[1.4, 0.5], [0.5, 0.8]]]}


def data_for(cats, missing):
    d = torch.tensor([[float((i * (j + 2) + i // 2 + j) % c) for j, c in enumerate(cats)] for i in range(4)])
    if missing:
        d[0, 0] = float("nan")
        d[1, len(cats) - 1] = -1
        d[3, :] = float("nan")
    return d


def at(d, values):
    """The model of a descriptor with these parameter values."""
    m = B.build(**d)
    with torch.no_grad():
        for p, v in zip(m.parameters(), values):
            p.copy_(v)
    return m


def row_ll(m, data, th, double=True):
    """log-likelihood of row i at theta q: (rows, thetas)."""
    P = m.item_probabilities(th)
    P = (P.double() if double else P).clamp_min(1e-45)
    out = []
    for row in data.tolist():
        s = torch.zeros(len(th), dtype=P.dtype)
        for j, x in enumerate(row):
            if not math.isnan(x) and x != -1:
                s = s + P[:, j, int(x)].log()
        out.append(s)
    return torch.stack(out)


def hermite(n, lv, cov):
    import numpy as np
    x, w = np.polynomial.hermite_e.hermegauss(n)
    w = w / w.sum()
    L = np.linalg.cholesky(np.array(cov))
    pts = [L @ np.array(c) for c in itertools.product(x, repeat=lv)]
    ws = [math.prod(c) for c in itertools.product(w, repeat=lv)]
    return torch.tensor(np.array(pts), dtype=torch.float32), torch.tensor(np.array(ws))


def grid(n, lv, cov):
    from mc.scorers import normal_logpdf
    th = B.thetas(torch.linspace(-3, 3, n).tolist(), lv)
    lp = normal_logpdf(th, torch.tensor(cov, dtype=torch.float64))
    return th, lp.exp()


def marginal(m, data, th, w):
    ll = row_ll(m, data, th)
    return -torch.logsumexp(ll + w.double().log(), dim=1).sum()


def against_gradient(before, after, loss, model, lr):
    """Adam's first step is lr against the sign of every gradient."""
    g = torch.autograd.grad(loss, list(model.parameters()), allow_unused=True)
    top = max([float(x.abs().max()) for x in g if x is not None and x.numel()] + [1e-9])
    for p, q, x in zip(before, after, g):
        if x is None:
            close(q, p, "a parameter without influence moved")
            continue
        big = x.abs() > max(2e-3 * top, 1e-4)
        require(bool(torch.isclose(q[big] - p[big], -lr * x[big].sign(), rtol=0.02, atol=1e-5).all()), "the step does not follow the gradient of the loss")


def mml(ctx, d, method, ci, missing, n):
    from irtorch.estimation_algorithms import MML
    m = B.build(**d)
    lv = d["lv"]
    cov = COV[lv][ci]
    data = data_for(m.item_categories, missing)
    start = [p.detach().clone() for p in m.parameters()]
    a = MML()
    with T.Recorder() as r:
        m.fit(data.clone(), algorithm=a, max_epochs=2, integration_method=method, quadrature_points=n, learning_rate=0.05,
              covariance_matrix=None if ci == 0 else torch.tensor(cov), device="cpu")
    th, w = (hermite if method == "gauss_hermite" else grid)(n, lv, cov)
    close(a.covariance_matrix, cov, "covariance kept by the algorithm")
    got = a.training_history["train_loss"]
    require(len(got) == 2, "one loss per epoch")
    first = at(d, start)
    want = [marginal(first, data, th, w), marginal(at(d, r.steps[0]), data, th, w).detach()]
    tol = dict(atol=2e-3, rtol=2e-4)
    if method == "gauss_hermite":
        close(torch.tensor(got), torch.stack(want), "marginal log-likelihood", **tol)
    else:
        # up to a constant for each respondent
        close(got[0] - got[1], (want[0] - want[1]).detach(), "change of the marginal log-likelihood", **tol)
        k = (got[0] - float(want[0].detach())) / len(data)
        ctx.outcome("constant", lv, n, ci, round(k, 2))
    against_gradient(start, r.steps[0], want[0], first, 0.05)
    ctx.step(2)


def jml(ctx, d, missing, batch):
    from irtorch.estimation_algorithms import JML
    m = B.build(**d)
    lv = d["lv"]
    data = data_for(m.item_categories, missing)
    th = torch.tensor([[-0.8, 0.3], [0.4, -0.6], [1.1, 0.9], [0.1, -1.2]])[:, :lv]
    start = [p.detach().clone() for p in m.parameters()]
    a = JML()
    with T.Recorder() as r:
        m.fit(data.clone(), algorithm=a, max_epochs=2, batch_size=batch, start_thetas=th.clone(), learning_rate=0.05, device="cpu")
    got = a.training_history["train_loss"]
    chunks = list(range(0, len(data), batch))
    require(len(got) == 2 * len(chunks), "one loss per batch")
    th_now, par = th, start
    for k, g in enumerate(got):
        rows = slice(chunks[k % len(chunks)], chunks[k % len(chunks)] + batch)
        mod = at(d, par)
        t = th_now[rows].clone().requires_grad_(True)
        want = -torch.diagonal(row_ll(mod, data[rows], t)).sum()
        close(g, want.detach(), f"joint log-likelihood of batch {k}", atol=2e-3, rtol=2e-4)
        after_th = next(v for v in r.steps[k] if v.shape == th.shape) if k < len(r.steps) else None
        if k == 0:
            gt, = torch.autograd.grad(want, t, retain_graph=True)
            sel = gt.abs() > 1e-3
            require(bool(torch.isclose((after_th[rows] - th_now[rows])[sel], -0.05 * gt[sel].sign(), rtol=0.02, atol=1e-5).all()),
                    "latent scores do not follow the gradient of the loss")
            rest = [i for i in range(len(data)) if not (rows.start <= i < rows.stop)]
            close(after_th[rest], th_now[rest], "latent scores of respondents outside the batch moved")
            against_gradient(par, params(r.steps[0], th.shape), want, mod, 0.05)
        th_now, par = after_th, params(r.steps[k], th.shape)
    ctx.step(len(got))


def jml_start(ctx, d, data):
    """Where joint maximum likelihood starts: the standardized sum scores, with a little noise between the latent variables."""
    from irtorch.estimation_algorithms import JML
    m = B.build(**d)
    lv = d["lv"]
    a = JML()
    m.fit(data.clone(), algorithm=a, max_epochs=1, learning_rate=1e-7, device="cpu")
    got = a.training_theta_scores.detach()
    total = []
    for row in data.tolist():
        seen = [(x, j) for j, x in enumerate(row) if x == x and x != -1]
        total.append(sum(float(x == m.mc_correct[j]) if m.mc_correct else x for x, j in seen))
    n, mean = len(total), sum(total) / len(total)
    ss = sum((t - mean) ** 2 for t in total)
    require(got.shape == (n, lv) and bool(got.isfinite().all()), f"start of shape {tuple(got.shape)}: {got.tolist()}")
    noise = 0.7 if lv > 1 else 1e-4
    fits = []
    for df in {max(n - 1, 1), n}:                      # either definition of a standard deviation
        want = torch.tensor([(t - mean) / math.sqrt(ss / df) if ss > 0 else 0. for t in total]).unsqueeze(1).expand(n, lv)
        fits.append(float((got - want).abs().max()))
    require(min(fits) <= noise, f"start {got.tolist()} is not the standardized sum scores {total}")
    if lv > 1 and d["family"] != "1PL":
        require(bool((got[:, 0] - got[:, 1]).abs().max() > 1e-3), "all latent variables start alike")
    ctx.step()


def params(step, shape):
    """The model's part of what the optimizer holds (the latent scores come first or last)."""
    i = 0 if step[0].shape == shape else len(step) - 1
    return step[:i] + step[i + 1:]


class Noise:
    """Scripted standard normal noise, whatever function draws it."""

    def __init__(self, f):
        self.f, self.n = f, 0

    def take(self, shape):
        k = math.prod(shape)
        out = torch.tensor([self.f(self.n + i) for i in range(k)]).reshape(shape)
        self.n += k
        return out

    def __enter__(self):
        import torch.distributions.utils as U
        import torch.distributions.normal as NM
        self.old = (torch.randn_like, torch.randn, torch.normal, U._standard_normal)
        torch.randn_like = lambda x, **k: self.take(tuple(x.shape))
        torch.randn = lambda *s, **k: self.take(tuple(s[0]) if s and not isinstance(s[0], int) else tuple(s))
        torch.normal = lambda mean, std, *s, **k: mean + std * self.take(tuple(torch.broadcast_shapes(getattr(mean, "shape", ()), getattr(std, "shape", ()))))
        U._standard_normal = NM._standard_normal = lambda shape, dtype, device: self.take(tuple(shape))
        return self

    def __exit__(self, *a):
        import torch.distributions.utils as U
        import torch.distributions.normal as NM
        torch.randn_like, torch.randn, torch.normal, U._standard_normal = self.old
        NM._standard_normal = self.old[3]


def one_hot(data, cats, nan_as=None):
    cols = []
    for j, c in enumerate(cats):
        x = data[:, j]
        x = torch.where(x.isnan(), torch.tensor(-1.), x)
        cols.append(torch.stack([(x == v).float() for v in range(c)], 1))
    return torch.cat(cols, 1)


def ae(ctx, d, cls, missing, batch, iw, anneal):
    """Losses of 3 epochs, with every optimizer step undone so that the encoder and model are known at each step."""
    from irtorch.estimation_algorithms import AE, VAE
    torch.manual_seed(8)
    m = B.build(**d)
    lv = d["lv"]
    data = data_for(m.item_categories, missing)
    start = [p.detach().clone() for p in m.parameters()]
    a = {"AE": AE, "VAE": VAE}[cls]()
    kw = dict(max_epochs=2, batch_size=batch, learning_rate=0.0, evaluation_interval_size=1, learning_rate_updates_before_stopping=99, hidden_layers_encoder=[3], device="cpu")
    noise = Noise(lambda k: math.sin(1.3 * k + 0.4))
    if cls == "VAE":
        kw.update(iw_samples=iw, anneal=anneal is not None, annealing_iterations=anneal or 1)
    # batches in order: the loader's permutation is the identity
    old = torch.randperm
    torch.randperm = lambda n, *a, **k: torch.arange(n)
    seen = []
    from torch.optim.optimizer import register_optimizer_step_pre_hook

    def hook(opt, *args):
        seen.append(noise.n)
    h = register_optimizer_step_pre_hook(hook)
    orig = torch.nn.init.normal_
    losses = []
    back = torch.Tensor.backward

    def spy(self, *args, **k):
        losses.append(float(self.detach()))
        return back(self, *args, **k)
    torch.Tensor.backward = spy
    try:
        if cls == "VAE":
            # the encoder is initialised before noise is scripted
            with noise:
                m.fit(data.clone(), algorithm=a, **kw)
        else:
            m.fit(data.clone(), algorithm=a, **kw)
    finally:
        torch.Tensor.backward = back
        torch.randperm = old
        h.remove()
        torch.nn.init.normal_ = orig
    chunks = [data[i:i + batch] for i in range(0, len(data), batch)] * 2
    require(len(losses) == len(chunks), f"{len(losses)} steps instead of {len(chunks)}")
    used = 0
    for k, rows in enumerate(chunks):
        x = one_hot(rows, m.item_categories)
        if cls == "AE":
            th = a.encoder(x)
            want = -torch.diagonal(row_ll(m, rows, th)).sum() / len(rows)
        else:
            mu, lvr = a.encoder(x)
            n = iw * len(rows) * lv
            eps = torch.tensor([math.sin(1.3 * (used + i) + 0.4) for i in range(n)]).view(iw, len(rows), lv)
            require(seen[k] == used + n, "the noise of a step was not drawn once for each sample, respondent and latent variable")
            used += n
            th = mu + torch.exp(0.5 * lvr) * eps
            lp = torch.stack([torch.diagonal(row_ll(m, rows, t)) for t in th])
            af = 1.0 if anneal is None else min(1.0, k / anneal)
            if iw == 1:
                klv = 0.5 * (mu ** 2 + lvr.exp() - 1 - lvr).sum(1)
                want = -(lp[0] - af * klv).mean()
            else:
                lq = (-0.5 * eps ** 2 - 0.5 * lvr - 0.5 * math.log(2 * math.pi)).sum(2)
                lpr = (-0.5 * th ** 2 - 0.5 * math.log(2 * math.pi)).sum(2)
                want = -(torch.logsumexp(lp - af * (lq - lpr), 0) - math.log(iw)).mean()
        close(losses[k], want.detach(), f"loss of step {k}", atol=2e-3, rtol=2e-4)
    close(torch.tensor([float(v) for v in a.training_history["train_loss"]]), torch.tensor(losses[1:]), "recorded losses")
    for p, q in zip(m.parameters(), start):
        close(p, q, "parameters with a learning rate of zero")
    ctx.step(len(chunks))


def moment(powers, mean, cov):
    """E[prod y_i^p_i], y ~ N(mean, cov), by Stein's recursion."""
    powers = list(powers)
    i = next((k for k, p in enumerate(powers) if p > 0), None)
    if i is None:
        return 1.0
    powers[i] -= 1
    out = mean[i] * moment(powers, mean, cov)
    for j, p in enumerate(powers):
        if p > 0:
            q = list(powers)
            q[j] -= 1
            out += cov[i][j] * p * moment(q, mean, cov)
    return out


def run(ctx):
    for n, dim in ctx.each([(n, dim) for dim in (1, 2, 3) for n in range(1, (8, 6, 4)[dim - 1] + ctx.pick(1, 3))]):
        from irtorch.utils import gauss_hermite
        A = [[1.0, 0.0, 0.0], [0.4, 0.9, 0.0], [-0.3, 0.5, 0.7]]
        for ci, cov in enumerate(([[float(i == j) for j in range(dim)] for i in range(dim)],
                                  [[sum(A[i][k] * A[j][k] for k in range(3)) for j in range(dim)] for i in range(dim)])):
            for mi, mean in enumerate(([0.0] * dim, [0.5, -1.0, 0.3][:dim])):
                with ctx.case("quadrature", n=n, dim=dim, cov=ci, mean=mi):
                    x, w = gauss_hermite(n, torch.tensor(mean, dtype=torch.float64), torch.tensor(cov, dtype=torch.float64))
                    require(x.shape == (n ** dim, dim) and w.shape == (n ** dim,), "shape of points and weights")
                    require(bool((w > 0).all()), "weights must be positive")
                    for powers in itertools.product(range(2 * n), repeat=dim):
                        if sum(powers) > 2 * n - 1:
                            continue
                        got = float((w * torch.prod(x.double() ** torch.tensor(powers), dim=1)).sum())
                        want = moment(powers, mean, cov)
                        scale = float((w * torch.prod(x.double().abs() ** torch.tensor(powers), dim=1)).sum()) + 1e-9
                        require(abs(got - want) <= 1e-8 * max(1.0, scale), f"integral of the monomial {powers}: {got}, exact {want}")
                        ctx.step()
                    ctx.state("quadrature", n, dim, ci, mi)
    confs = [d for d in B.configs(ctx.thorough, psets=(0,), all_masks=ctx.thorough) if len(d["cats"]) > 1] + list(B.mix_configs())
    jobs = []
    for d in confs:
        for method, ci in (("quasi_mc", 0), ("gauss_hermite", 1)) if not ctx.thorough else itertools.product(("quasi_mc", "gauss_hermite"), (0, 1)):
            for missing in (True,) if not ctx.thorough else (False, True):
                jobs.append((d, method, ci, missing, 5 if d["lv"] == 1 else 3))
    for d in confs:
        if d["family"] in ("GPC", "2PL") and d["mask"] is None:
            for method, ci, missing, n in itertools.product(("quasi_mc", "gauss_hermite"), (0, 1), (False, True), (2, 4)):
                jobs.append((d, method, ci, missing, n))
    for d, method, ci, missing, n in ctx.each(jobs):
        with ctx.case("MML", **d, method=method, cov=ci, missing=missing, points=n):
            mml(ctx, d, method, ci, missing, n)
            ctx.state("MML", d, method, ci, missing, n)
    for d, missing, batch in ctx.each([(d, ms, b) for d in confs for ms, b in (((True, 4), (False, 3), (True, 1)) if ctx.thorough or d["family"] in ("GPC", "MIX") else ((True, 3),))]):
        with ctx.case("JML", **d, missing=missing, batch=batch):
            jml(ctx, d, missing, batch)
            ctx.state("JML", d, missing, batch)
    starts = [dict(family=f, lv=lv, cats=c, **({"mc_correct": mc} if mc else {})) for f, c, mc in (("GPC", [3, 2], None), ("2PL", [2, 2], None), ("NRM", [3, 2], [1, 0])) for lv in (1, 2, 3)]
    vals = (0., 1., float("nan"))
    for d in starts:
        for n in (1, 2, 3):
            for v in ctx.each(list(itertools.product(vals, repeat=2 * n))):
                data = torch.tensor(v).view(n, 2)
                with ctx.case("JML start", **d, data=v):
                    torch.manual_seed(1)
                    jml_start(ctx, d, data)
                    ctx.state("start", d, v)
    jobs = []
    for d in confs:
        if not ctx.thorough and d["family"] not in ("GPC", "NRM", "MIX", "3PL", "BSP"):
            continue
        for missing, batch in ((True, 4), (False, 3)):
            jobs.append((d, "AE", missing, batch, 1, None))
            for iw, an in ((1, None), (3, 2), (2, 3), (1, 2)):
                jobs.append((d, "VAE", missing, batch, iw, an))
    for d, cls, missing, batch, iw, an in ctx.each(jobs):
        with ctx.case(cls, **d, missing=missing, batch=batch, samples=iw, anneal=an):
            ae(ctx, d, cls, missing, batch, iw, an)
            ctx.state(cls, d, missing, batch, iw, an)
