"""P13: what a training run leaves behind, for every sequence of losses."""
import itertools
import math
import torch
from mc.core import close, require
from mc import models as B
from mc import stub as T

META = dict(
    title="Training keeps the best parameters seen, whatever the losses do",
    statement="For every sequence of losses, including ties, plateaus and nan, each fitting algorithm records the losses of the steps it made, lowers the "
              "learning rate and stops by the documented patience rules or at max_epochs, and leaves the model, encoder and latent scores with the values "
              "recorded at the best loss. A run interrupted at any evaluation leaves a model that can be queried and fitted again.",
    over=["histories", "fault_sequences"],
    quant="all loss sequences over four levels up to the depth bound x patience x stopping rule x batches; an interruption at every evaluation",
    why="Tests train once on benign data, where the loss falls monotonically; restoring, ties, nan and stopping rules are decided by rare loss sequences.",
    files=["irtorch/estimation_algorithms/mml.py", "irtorch/estimation_algorithms/jml.py", "irtorch/estimation_algorithms/ae.py",
           "irtorch/estimation_algorithms/vae.py", "irtorch/rescale/flow.py", "irtorch/rescale/link_common_items.py"],
    mech=[("best state", "_training_loop of MML, JML and AE"), ("stopping", "learning_rate_updates_before_stopping")],
    technique="exhaustive enumeration of scripted environment answers (losses, nan, interruptions) driving the real training loops, against a small state "
              "machine of patience, learning rate and best state",
)
PARALLEL = True
BOUNDS = ("loss levels {1, a little less than 1, 2, nan} (thorough: also 3; nan absorbing), length 5 (thorough 7), patience 0-1, stop after 1-2 reductions, 1-2 batches; AE intervals 1-3; "
          "Flow and link: rising/falling/nan scripts of length 4 (6); interruption at each of the first 5 evaluations of every algorithm")
ASSUMPTIONS = ["optimizer steps are observed through PyTorch's global step hooks"]
NAN = math.nan
SMALL = 0.99997                 # lower than 1, but by less than what counts as an improvement for the learning rate
LEVELS = (2.0, 1.0, SMALL, NAN)


def loss_scripts(ctx, depth):
    out = list(T.scripts(LEVELS, depth))
    if ctx.thorough:
        out += [s for s in T.scripts((2.0, 1.0, 3.0, NAN), depth) if 3.0 in s]
    return out


def same_list(got, want, what):
    close(torch.tensor(got, dtype=torch.float64), torch.tensor(want, dtype=torch.float64), what, atol=1e-5, rtol=1e-5)


def mml_jml(ctx, alg, script, patience, stop, batches):
    from irtorch.estimation_algorithms import JML, MML
    rows = 2 if alg == "JML" else 1
    per = rows // batches if alg == "JML" else rows
    m = T.Scripted(script, rows=per)
    a = {"MML": MML, "JML": JML}[alg]()
    data = torch.ones(rows, 1)
    kw = dict(learning_rate=0.1, learning_rate_update_patience=patience, learning_rate_updates_before_stopping=stop, device="cpu")
    start = torch.full((rows, 1), 0.5)
    with T.Recorder() as r:
        if alg == "MML":
            m.fit(data, algorithm=a, max_epochs=len(script), integration_method="gauss_hermite", quadrature_points=3, **kw)
        else:
            m.fit(data, algorithm=a, max_epochs=len(script) // batches, batch_size=per, start_thetas=start.clone(), **kw)
    ref = T.Plateau(0.1, 0.6 if alg == "MML" else 0.5, patience, 5e-5 if alg == "MML" else 1e-4)
    hist, rates, best, at = [], [], math.inf, None
    for k, loss in enumerate(script[:len(script) // batches * batches]):
        hist.append(loss)
        rates.append(ref.lr)
        ref.step(loss)
        if loss < best:
            best, at = loss, k
        if ref.updates >= stop:
            break
    same_list(a.training_history["train_loss"], hist, "recorded losses")
    require(len(r.steps) == len(hist), f"{len(r.steps)} optimizer steps, expected {len(hist)}")
    same_list(r.rates, rates, "learning rates")
    require(not m.training, "the model is left in training mode")
    if at is not None:
        if alg == "MML":
            close(m.p, r.steps[at][0], "the model's parameter")
        else:
            theta = [v for v in r.steps[at] if v.shape == start.shape]
            par = [v for v in r.steps[at] if v.shape == m.p.shape]
            close(m.p, par[0], "the model's parameter")
            close(a.training_theta_scores, theta[0], "latent scores")
            # one batch: a constant gradient of 1 moves Adam by the learning rate
        if batches == 1:
            close(m.p, [-sum(rates[:at + 1])], "the model's parameter after the best step", atol=1e-4)
            if alg == "JML":
                close(a.training_theta_scores, start - sum(rates[:at + 1]), "latent scores after the best step", atol=1e-4)
        require(bool(m.p.isfinite().all()), "parameters that are not finite are left although a finite loss was seen")
    ctx.outcome(alg, len(hist), at, best)
    ctx.step(len(hist))


def ae(ctx, script, stop, interval, epochs_batches):
    from irtorch.estimation_algorithms import AE
    epochs, batches = epochs_batches
    m = T.Scripted(script)
    a = AE()
    torch.manual_seed(4)
    data = torch.ones(batches, 1)
    with T.Recorder() as r:
        m.fit(data, algorithm=a, learning_rate=0.1, learning_rate_updates_before_stopping=stop, evaluation_interval_size=interval,
              max_epochs=epochs, batch_size=1, hidden_layers_encoder=[2], device="cpu")
    ref = T.Plateau(0.1, 0.6, 1, 1e-4)
    hist, rates, best, at, seen = [], [], math.inf, None, []
    for k, loss in enumerate(script[:epochs * batches]):
        if math.isnan(loss):
            break
        rates.append(ref.lr)
        seen.append(loss)
        if (k + 1) % interval == 0 and k + 1 != 1:
            mean = sum(seen[-interval:]) / interval
            hist.append(mean)
            ref.step(mean)
            if mean < best:
                best, at = mean, k
            if ref.updates >= stop:
                break
    same_list([float(x) for x in a.training_history["train_loss"]], hist, "recorded losses")
    require(len(r.steps) == len(rates), f"{len(r.steps)} optimizer steps, expected {len(rates)}")
    same_list(r.rates, rates, "learning rates")
    require(not m.training and not a.encoder.training, "left in training mode")
    par = list(a.encoder.parameters()) + list(m.parameters())
    k = at if at is not None else len(r.steps) - 1
    if k >= 0:
        want = r.steps[k]
        require(len(want) == len(par), "number of trained parameters")
        for u, v in zip(par, want):
            close(u, v, "parameters")
    require(all(bool(v.isfinite().all()) for v in par), "parameters that are not finite")
    m.on = False
    with torch.no_grad():
        want = a.encoder(torch.tensor([[0., 1.]]).repeat(batches, 1))
    close(a.training_theta_scores, want, "latent scores are not those of the final encoder")
    ctx.outcome("AE", len(rates), at, best)
    ctx.step(len(rates))


class ScriptedDensity(torch.distributions.Distribution):
    """log-density scripted by evaluation; constant in its argument."""
    arg_constraints = {}

    def __init__(self, script):
        super().__init__(batch_shape=torch.Size([1]))
        self.script, self.calls = list(script), 0

    def log_prob(self, z):
        k = self.calls
        self.calls += 1
        return -self.script[min(k, len(self.script) - 1)] + 0.0 * z


def flow(ctx, script, stop, interval):
    from irtorch.rescale import Flow
    f = Flow(1)
    d = ScriptedDensity([1000 * s for s in script])
    th = torch.linspace(-1.5, 1.5, 6).unsqueeze(1)
    with T.Recorder() as r:
        f.fit(th, distribution=d, learning_rate=0.01, learning_rate_updates_before_stopping=stop, evaluation_interval_size=interval,
              max_epochs=len(script), device="cpu", num_bins=3)
    steps_as_expected(ctx, "Flow", r, script, stop, interval)
    par = list(f.flow.parameters())
    for u, v in zip(par, r.steps[-1] if r.steps else par):
        close(u, v, "parameters")
    y = f.transform(th)
    require(bool(y.isfinite().all()) and not f.flow.training, "the fitted flow is not usable")


class Target(T.Scripted):
    """Probability of the second category at evaluation k: closer to the source model's 1/2 for lower script values."""

    def forward(self, theta):
        k = self.calls
        self.calls += 1
        if self.fail_at is not None and k == self.fail_at:
            raise T.Interrupt()
        x = torch.tensor(float(self.script[min(k, len(self.script) - 1)]))
        return torch.stack([torch.zeros(theta.shape[0]), x + theta[:, 0] * 0.0], 1)


def link(ctx, script, stop, interval):
    from irtorch.rescale import LinkCommonItems
    src = T.Scripted([1.0])
    src.on = False                                       # p = 0: both categories equally probable
    dst = Target(script)
    s = LinkCommonItems(src, dst, [0], [0], method="spline", num_bins=3)
    th = torch.linspace(-1.5, 1.5, 6).unsqueeze(1)
    before = [p.detach().clone() for p in list(src.parameters()) + list(dst.parameters())]
    with T.Recorder() as r:
        s.fit(th, learning_rate=0.01, learning_rate_updates_before_stopping=stop, evaluation_interval_size=interval, max_epochs=len(script), device="cpu")
    steps_as_expected(ctx, "link", r, script, stop, interval)
    for u, v in zip(list(src.parameters()) + list(dst.parameters()), before):
        close(u, v, "the linked models' parameters")
    require(bool(s.transform(th).isfinite().all()), "the fitted link is not usable")


def steps_as_expected(ctx, what, r, script, stop, interval):
    ref = T.Plateau(0.01, 0.6, 1, 1e-4)
    rates, seen = [], []
    for k, loss in enumerate(script):
        if math.isnan(loss):
            break
        # the link's loss is monotone in, but not equal to, the script; both rules below only compare means
        rates.append(ref.lr)
        seen.append(LOSS[what](loss))
        if (k + 1) % interval == 0 and k + 1 != 1:
            ref.step(sum(seen[-interval:]) / interval)
        if ref.updates >= stop:
            break
    require(len(r.steps) == len(rates), f"{len(r.steps)} optimizer steps, expected {len(rates)}")
    same_list(r.rates, rates, "learning rates")
    ctx.outcome(what, len(rates), ref.updates)
    ctx.step(len(rates))


def kl(x):
    p = 1 / (1 + math.exp(-x))
    return 0.5 * (math.log(0.5 / p) + math.log(0.5 / (1 - p)))


LOSS = {"Flow": lambda s: 1000 * s, "link": kl}


def real_model(kind):
    if kind == "bspline":
        return B.build("BSP", 1, [2, 3])
    if kind == "nested":
        return B.build("NEST", 1, [3, 3], inner="2PL", incorrect_response_model="bspline")
    return B.build("GPC", 2, [2, 3])


def interruption(ctx, alg, kind, at):
    """A failure inside the at-th evaluation of the model."""
    from irtorch.estimation_algorithms import AE, JML, MML, VAE
    m = real_model(kind)
    cats = m.item_categories
    data = torch.tensor([[float((i * (j + 1) + i // 2) % c) for j, c in enumerate(cats)] for i in range(6)])
    kw = dict(max_epochs=4, device="cpu")
    if alg == "MML":
        kw["quadrature_points"] = 3
    if alg in ("AE", "VAE"):
        kw.update(hidden_layers_encoder=[3], evaluation_interval_size=1)
    make = {"AE": AE, "VAE": VAE, "JML": JML, "MML": MML}[alg]
    calls = [0]
    orig = m.forward

    def failing(theta):
        calls[0] += 1
        if calls[0] == at + 1:
            raise T.Interrupt()
        return orig(theta)
    m.forward = failing
    torch.manual_seed(2)
    try:
        m.fit(data, algorithm=make(), **kw)
        hit = False
    except T.Interrupt:
        hit = True
    require(hit == (calls[0] > at), "the failure of an evaluation was swallowed")
    del m.forward
    lv = m.latent_variables
    for n in (1, 5):
        th = torch.linspace(-1, 1, n * lv).view(n, lv)
        P = m.item_probabilities(th)
        require(P.shape[:2] == (n, len(cats)) and bool(P.isfinite().all()), "probabilities after an interrupted fit")
        close(P.sum(2), torch.ones(n, len(cats)), "probabilities after an interrupted fit")
        one = torch.cat([m.item_probabilities(t.view(1, -1)) for t in th])
        close(P, one, "probabilities one by one after an interrupted fit")
    s = m.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=5)
    require(s.shape == (6, lv) and bool(s.isfinite().all()), "scores after an interrupted fit")
    # a new fit from here is the fit of a model that never was interrupted but has these parameters
    twin = real_model(kind)
    twin.load_state_dict(m.state_dict())
    out = []
    for x in (m, twin):
        torch.manual_seed(5)
        a = make()
        x.fit(data, algorithm=a, **kw)
        out.append([float(v) for v in a.training_history["train_loss"]] + [v for p in x.parameters() for v in p.detach().flatten().tolist()])
    same_list(out[0], out[1], "the fit after an interrupted fit")
    ctx.step(2)


def run(ctx):
    depth = ctx.pick(5, 7)
    jobs = []
    for sc in loss_scripts(ctx, depth):
        for pat, stop in itertools.product((0, 1), (1, 2)):
            jobs.append(("MML", sc, pat, stop, 1))
            jobs.append(("JML", sc, pat, stop, 1))
            jobs.append(("JML", sc, pat, stop, 2))
    for alg, sc, pat, stop, b in ctx.each(jobs):
        with ctx.case("losses", algorithm=alg, script=[str(x) for x in sc], patience=pat, stop=stop, batches=b):
            mml_jml(ctx, alg, sc, pat, stop, b)
            ctx.state(alg, sc, pat, stop, b)
    jobs = []
    for interval, eb in ((1, (5, 1)), (2, (3, 2)), (3, (3, 2)), (2, (2, 3))) if not ctx.thorough else ((1, (7, 1)), (2, (4, 2)), (3, (4, 2)), (2, (2, 4))):
        for sc in loss_scripts(ctx, eb[0] * eb[1]):
            for stop in (1, 2):
                jobs.append((sc, stop, interval, eb))
    for sc, stop, interval, eb in ctx.each(jobs):
        with ctx.case("AE losses", script=[str(x) for x in sc], stop=stop, interval=interval, batches=eb[1]):
            ae(ctx, sc, stop, interval, eb)
            ctx.state("AE", sc, stop, interval, eb)
    jobs = [(w, sc, stop, interval) for sc in T.scripts((2.0, 1.0, 3.0, NAN), ctx.pick(5, 6)) for w in ("Flow", "link") for stop in (1, 2) for interval in (1, 2)]
    for w, sc, stop, interval in ctx.each(jobs):
        with ctx.case("rescale losses", what=w, script=[str(x) for x in sc], stop=stop, interval=interval):
            (flow if w == "Flow" else link)(ctx, sc, stop, interval)
            ctx.state(w, sc, stop, interval)
    jobs = list(itertools.product(("MML", "JML", "AE", "VAE"), ("bspline", "nested", "gpc"), range(5)))
    for alg, kind, at in ctx.each(jobs):
        with ctx.case("interruption", algorithm=alg, model=kind, evaluation=at):
            interruption(ctx, alg, kind, at)
            ctx.state("interruption", alg, kind, at)
