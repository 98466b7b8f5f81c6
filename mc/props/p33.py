"""P33: calls that end with an exception or an interrupt leave model, algorithm, scales and process as they were."""
import torch
from mc.core import close, require, quiet
from mc import crash
from mc import kinds as K
from mc import models as B
from mc import scales as S
from mc.props import p32

META = dict(
    title="A call that fails or is interrupted leaves nothing behind",
    statement="Wherever a query, plot, evaluation, score estimation or scale fit ends with an exception or a keyboard interrupt, the exception reaches the caller, and the model, its algorithm, scales and "
              "caches, the caller's arguments and the process settings are as they were: the same call then gives its usual answer. A fit that is interrupted leaves the model usable "
              "and trainable: a new fit gives what it gives for a model with the same parameters.",
    over=["crash_points", "programs"],
    quant="every query, evaluation, plot, scale fit and model fit x every distinct call stack inside irtorch at which it can be interrupted, at its first and last visit, and every torch operation of it that can fail",
    why="Tests let calls run to their end; state that is switched for the duration of a call only shows when the call ends halfway.",
    files=["irtorch/models/base_irt_model.py", "irtorch/evaluator.py", "irtorch/plotter.py", "irtorch/utils.py", "irtorch/estimation_algorithms/jml.py", "irtorch/estimation_algorithms/mml.py",
           "irtorch/rescale/link_common_items.py"],
    mech=[("frozen parameters", "BaseIRTModel._ml_map_theta_scores"), ("latent density cache", "Evaluator._get_theta_scores_and_weights_for_latent_density_methods"),
          ("threads", "cross_validation, fit_multiple_models_cpu")],
    technique="fault injection into the real code at every distinct call stack of each call (sys.settrace at function entries), and at every torch operation (TorchFunctionMode); state compared with the state before",
)
PARALLEL = True
BOUNDS = "function entries of irtorch outside clean-up code (except/finally), distinct call stacks, first and last visit (thorough: also a middle one); every torch operation at its first visit per call stack (one stack per line; all stacks for 6 kinds of models in thorough); 13 kinds of models x about 60 queries; fits of 2 epochs of 4 algorithms"
ASSUMPTIONS = ["an interrupt arrives at the entry of a function of irtorch; interrupts inside clean-up code are out of scope", "an interrupted fit may leave any parameter values"]


FEW = ("NRM1-mc-JML", "BSP1-JML", "GPC1+Flow", "GPC1+Rank", "GPC1+Link", "GPC2+Flow", "GPC2+Rotate")

OPS = ("GPC1-JML", "NN1-VAE", "GPC1+Flow", "GPC1+Bit", "NRM1-mc-JML", "MIX1-JML")
SEARCH = {"ML": ("GPC1-JML", "GPC1+Bit", "GRM2-AE"), "ML se": ("GPC1-JML", "NRM1-mc-JML", "2PL2-MML"), "MAP": ("GPC1-JML", "NRM1-mc-JML", "MIX1-JML", "GRM2-AE", "GPC2+Flow", "GPC1+Bit")}


def state(m):
    s = K.snapshot(m)
    s["threads"] = torch.get_num_threads()
    s["grads"] = {k: None if p.grad is None else p.grad.clone() for k, p in m.named_parameters()}
    return s


def compare(before, after, what):
    for k in before["grads"]:
        x, y = before["grads"][k], after["grads"][k]
        require((x is None) == (y is None) and (x is None or torch.equal(x, y)), f"{what}: gradient of {k}")
    K.unchanged({k: v for k, v in before.items() if k != "grads"}, {k: v for k, v in after.items() if k != "grads"}, what)


def ended(f, sig, k, exc, tracer=crash.Tracer):
    """Runs f with the fault; returns the exception that reached the caller (None when f returned)."""
    t = tracer(sig, k, exc)
    try:
        with quiet():
            t.run(f)
    except BaseException as e:
        if not isinstance(e, (Exception, KeyboardInterrupt)):
            raise
        return t.fired, e
    return t.fired, None


def spots(prepare, per, ops):
    """Where the call that prepare() returns can end: function entries (interrupts) and, with ops, torch operations (failures)."""
    torch.manual_seed(1)
    with quiet():
        out = [(sig, k, crash.Interrupt, crash.Tracer) for sig, k in crash.points(prepare(), per)[1]]
        if ops:
            torch.manual_seed(1)
            out += [(sig, k, crash.Fault, crash.Ops) for sig, k in crash.points(prepare(), 1, tracer=crash.Ops)[1]]
    return out


def reached(fired, e, exc, where):
    require(fired, f"the call repeats: {where}")
    if exc is crash.Interrupt:
        require(e is not None, f"the interrupt at {where} was swallowed")
        require(isinstance(e, KeyboardInterrupt), f"the interrupt at {where} became {type(e).__name__}: {e}")
    elif e is not None:                               # a caught failure may be answered by a documented fallback
        require(isinstance(e, crash.Fault), f"the failure at {where} became {type(e).__name__}: {e}")


def run(ctx):
    per = 3 if ctx.thorough else 2
    made, jobs = {}, []
    for kn, make in p32.kinds().items():
        with quiet():
            made[kn] = make()
        for name, (_, kind) in K.queries(made[kn]).items():
            if p32.applicable(kn, name) and kind != "error":
                jobs.append((kn, name))
    for kn, name in ctx.each(jobs):
        m = made[kn]
        q = K.queries(m)[name][0]
        t = K.thetas_for(m.latent_variables, k=1)
        d = K.data_for(m.item_categories, missing=name != "NN" or getattr(m.algorithm, "one_hot_encoded", False), k=1)
        if not ctx.thorough and kn in FEW and name.startswith(("residuals", "accuracy", "log_likelihood", "infit", "predictions", "group", "plot", "sum_score", "latent_group", "q3", "mutual")):
            continue
        if name in SEARCH and not ctx.thorough and kn not in SEARCH[name]:
            continue
        slow = name in ("mutual_information test", "q3 test", "sum_score gmm", "sum_score encoder") or name.startswith("plot")
        if slow and not ctx.thorough and kn not in ("GPC1-JML", "2PL2-MML", "NN1-VAE"):
            continue

        def call():
            torch.manual_seed(11)
            return q(t, d)
        with quiet():
            try:
                m.evaluate, m.plot
                call()                                # caches are filled
                call()
                want, pts = crash.points(call, per)
                ops = []
                if not slow and (ctx.thorough or kn in OPS and kn in SEARCH.get(name, [kn])[:1]):
                    _, ops = crash.points(call, 1, tracer=crash.Ops)
            except NotImplementedError:
                continue
        want = K.digest(want)
        seen = set()
        for i, (sig, k) in enumerate(ops):
            if not ctx.thorough and sig[:2] in seen:  # quick: one stack per operation and line
                continue
            seen.add(sig[:2])
            with ctx.case("operation", kind=kn, query=name, at=crash.label(sig, k), point=i):
                before = state(m)
                with p32.Watch(theta=t, data=d):
                    fired, e = ended(call, sig, k, crash.Fault, crash.Ops)
                reached(fired, e, crash.Fault, crash.label(sig, k))
                compare(before, state(m), "after the operation failed")
                ctx.state(kn, name, "op", i)
                ctx.step()
        for i, (sig, k) in enumerate(pts):
            for exc in (crash.Interrupt, crash.Fault) if k == 0 and (ctx.thorough or i % 4 == 0) else (crash.Interrupt,):
                with ctx.case("query", kind=kn, query=name, at=crash.label(sig, k), exception=exc.__name__, point=i):
                    before = state(m)
                    with p32.Watch(theta=t, data=d):
                        fired, e = ended(call, sig, k, exc)
                    reached(fired, e, exc, crash.label(sig, k))
                    compare(before, state(m), "after the call ended")
                    ctx.state(kn, name, i, exc.__name__)
                    ctx.step()
                    if exc is crash.Interrupt and not slow and (i % ctx.pick(6, 2) == 0 or i == len(pts) - 1):
                        K.same(K.digest(call()), want, "the same call afterwards")
                        ctx.step()
    caches(ctx)
    scales(ctx, per)
    fits(ctx, per)
    utilities(ctx, per)
    pools(ctx)


class Failing(torch.nn.Module):
    """A model whose fit fails; goes to the worker processes."""

    def __init__(self, bad):
        super().__init__()
        self.bad = bad

    def fit(self, *args, **kw):
        if self.bad:
            raise crash.Fault("this fit fails")


def pools(ctx):
    """Parallel fits: whichever fits fail, and when the pool itself cannot be made, the failure is reported and the process is as before."""
    from irtorch import utils as U
    from irtorch.estimation_algorithms import JML
    data = K.data_for([2, 2, 2])
    was = torch.get_num_threads()
    try:
        for n, mask, cores in ctx.each([(n, mask, c) for n in ctx.pick((1, 2), (1, 2, 3)) for mask in range(1, 2 ** n) for c in (1, 2)]):
            with ctx.case("parallel fits", models=n, failing=mask, processes=cores):
                torch.set_num_threads(3)
                ms = [Failing(bool(mask >> i & 1)) for i in range(n)]
                try:
                    with quiet():
                        U.fit_multiple_models_cpu(ms, data, cores_to_use=cores)
                    err = None
                except Exception as e:
                    err = e
                require(isinstance(err, crash.Fault), f"a failing fit was reported as {err!r}")
                require(torch.get_num_threads() == 3, f"{torch.get_num_threads()} threads instead of 3 after a parallel fit failed")
                ctx.state("pool", n, mask, cores)
                ctx.step()
        for cores in ctx.each((0, -1)):
            with ctx.case("no pool", processes=cores):
                torch.set_num_threads(3)
                try:
                    with quiet():
                        U.fit_multiple_models_cpu([Failing(False)], data, cores_to_use=cores)
                except Exception:
                    pass
                require(torch.get_num_threads() == 3, f"{torch.get_num_threads()} threads instead of 3 after a pool could not be made")
                torch.set_num_threads(3)
                m = B.build("2PL", 1, [2, 2, 2])
                try:
                    with quiet():
                        U.cross_validation(m, data, 2, {"max_epochs": [1]}, theta_estimation="EAP", device="cpu", multiprocessing=True, cores_to_use=cores, algorithm=JML())
                except Exception:
                    pass
                require(torch.get_num_threads() == 3, f"{torch.get_num_threads()} threads instead of 3 after a cross-validation without a pool")
                ctx.state("no pool", cores)
                ctx.step(2)
    finally:
        torch.set_num_threads(was)


def caches(ctx):
    """The latent density that later calls use is the training data's, wherever a call about another population ended."""
    for kn, first in ctx.each([(kn, f) for kn in ("GRM2-AE", "NN1-VAE") for f in ("none", "same", "other")]):
        if first == "other" and not ctx.thorough:
            continue
        with quiet():
            m = K.KINDS[kn]()
        other = K.data_for(m.item_categories, k=2)
        e = m.evaluate
        def reset():
            e.latent_density = None
            torch.manual_seed(3)
            if first != "none":
                e.sum_score_probabilities("qmvn" if first == "same" else "gmm", trapezoidal_segments=6)

        def call():
            torch.manual_seed(4)
            return e.sum_score_probabilities("qmvn", population_data=other, trapezoidal_segments=6)

        def later():
            torch.manual_seed(5)
            return K.digest(e.sum_score_probabilities("qmvn", trapezoidal_segments=6))
        with quiet():
            reset()
            want = later()

        def prepare():
            reset()
            return call
        for i, (sig, k, exc, tracer) in enumerate(spots(prepare, 1, ctx.thorough or kn == "NN1-VAE")):
            with ctx.case("population", kind=kn, cached=first, at=crash.label(sig, k), point=i):
                with quiet():
                    reset()
                fired, err = ended(call, sig, k, exc, tracer)
                reached(fired, err, exc, crash.label(sig, k))
                with quiet():
                    K.same(later(), want, "sum scores of the training population afterwards")
                ctx.state("population", kn, first, i)
                ctx.step(2)


def scales(ctx, per):
    from irtorch.rescale import Bit, Flow, LinkCommonItems
    th = {lv: K.thetas_for(lv) for lv in (1, 2)}

    def flow(lv):
        def make():
            m = B.build("GPC", lv, [3, 2, 3])
            K.jml(m)
            f = Flow(lv)
            return [m], lambda: f.fit(th[lv], batch_size=7, max_epochs=2, device="cpu")
        return make

    def link(method):
        def make():
            a, b = B.build("GPC", 1, [3, 2, 3], p=0), B.build("GPC", 1, [3, 2, 3], p=1)
            K.jml(a), K.jml(b)
            s = LinkCommonItems(a, b, [0, 1], [0, 1], method=method, **({"neurons": 3} if method == "neuralnet" else {}))
            return [a, b], lambda: s.fit(th[1], max_epochs=2, batch_size=7, device="cpu")
        return make

    def bit(mc):
        def make():
            m = B.build("NRM", 1, [3, 2, 3], mc_correct=[0, 1, 2]) if mc else B.build("GPC", 1, [3, 2, 3])
            K.jml(m)
            return [m], lambda: Bit(m, population_theta=th[1], grid_points=20, **({"mc_start_theta_approx": True, "guessing_iterations": 4, "theta_estimation": "EAP"} if mc else {}))
        return make
    for name, make in ctx.each([("flow 1", flow(1)), ("flow 2", flow(2)), ("link spline", link("spline")), ("link neuralnet", link("neuralnet")), ("bit", bit(False)), ("bit mc", bit(True))]):
        pts = spots(lambda: make()[1], per, True)
        with quiet():
            ms, call = make()
        before = [state(m) for m in ms]
        keep = th[1].clone()
        for i, (sig, k, exc, tracer) in enumerate(pts):
            with ctx.case("scale fit", scale=name, at=crash.label(sig, k), point=i):
                torch.manual_seed(1)
                with p32.Watch(theta=th[1], theta2=th[2]):
                    fired, e = ended(call, sig, k, exc, tracer)
                reached(fired, e, exc, crash.label(sig, k))
                for b, m in zip(before, ms):
                    compare(b, state(m), "model after the scale's fit ended")
                ctx.state("scale", name, i)
                ctx.step()


FITS = [("2PL", 1, [2, 2, 2], {}), ("GPC", 2, [3, 2, 3], {"mask": 1}), ("MIX", 1, [], {})]


def fits(ctx, per):
    from irtorch.estimation_algorithms import AE, JML, MML, VAE
    algs = [(JML, {}), (MML, {}), (AE, {"hidden_layers_encoder": [3]}), (VAE, {"hidden_layers_encoder": [3]})]

    def build(fam, lv, cats, o):
        if fam == "MIX":
            return B.build("MIX", 1, [], parts=[("2PL", 1, [2, 2]), ("GPC", 1, [3])])
        return B.build(fam, lv, cats)
    for (fam, lv, cats, o), (alg, kw) in ctx.each([(f, a) for f in FITS for a in algs]):
        for again in (False, True):
            m = build(fam, lv, cats, o)
            if again:
                K.jml(m)
            start = {k: v.clone() for k, v in m.state_dict().items()}
            data = K.data_for(m.item_categories, missing=alg in (JML, MML))

            def fit(model, seed=1):
                torch.manual_seed(seed)
                with quiet():
                    model.fit(data, algorithm=alg(), max_epochs=2, device="cpu", **kw)
            seen = set()
            for i, (sig, k, exc, tracer) in enumerate(spots(lambda: lambda: fit(m), per, ctx.thorough)):
                if tracer is crash.Ops and (sig[:2] in seen or fam == "MIX"):
                    continue
                seen.add(sig[:2])
                with ctx.case("fit", family=fam, lv=lv, algorithm=alg.__name__, refit=again, at=crash.label(sig, k), point=i):
                    m = build(fam, lv, cats, o)
                    if again:
                        K.jml(m)
                    m.load_state_dict(start)
                    flags = [p.requires_grad for p in m.parameters()]
                    keep = (torch.is_grad_enabled(), torch.get_num_threads(), len(m.scale))
                    with p32.Watch(data=data):
                        fired, e = ended(lambda: fit(m), sig, k, exc, tracer)
                    reached(fired, e, exc, crash.label(sig, k))
                    require([p.requires_grad for p in m.parameters()] == flags, "trainable parameters after an interrupted fit")
                    require(keep == (torch.is_grad_enabled(), torch.get_num_threads(), len(m.scale)), "process settings after an interrupted fit")
                    th = K.thetas_for(m.latent_variables)
                    require(bool(m.item_probabilities(th).isfinite().all()), "probabilities after an interrupted fit")
                    twin = build(fam, lv, cats, o)
                    twin.load_state_dict({k: v.clone() for k, v in m.state_dict().items()})
                    fit(m, 2)
                    fit(twin, 2)
                    for n, v in twin.state_dict().items():
                        close(m.state_dict()[n], v, f"{n} after the next fit", atol=1e-6)
                    ctx.state("fit", fam, alg.__name__, again, i)
                    ctx.step(3)


def utilities(ctx, per):
    from irtorch import utils as U
    from irtorch.estimation_algorithms import JML
    data = K.data_for([3, 2, 3], missing=True)
    m1, m2 = B.build("GPC", 1, [3, 2, 3], p=0), B.build("GPC", 1, [3, 2, 3], p=1)
    K.jml(m1), K.jml(m2)
    m1.evaluate, m2.evaluate
    alg = JML()
    grid = {"max_epochs": [1, 2], "algorithm": [alg]}
    th = K.thetas_for(1)
    calls = {
        "cross_validation": lambda: U.cross_validation(m1, data, 2, grid, theta_estimation="EAP", device="cpu", multiprocessing=False),
        "imv": lambda: U.imv(m1, m2, data, theta_estimation="EAP"),
        "impute prior expected": lambda: U.impute_missing(data, "prior expected", model=m1),
        "split": lambda: U.split_data(data),
    }
    for name in ctx.each(sorted(calls)):
        for i, (sig, k, exc, tracer) in enumerate(spots(lambda: calls[name], per, ctx.thorough)):
            with ctx.case("utility", call=name, at=crash.label(sig, k), point=i):
                before = [state(m) for m in (m1, m2)]
                torch.manual_seed(1)
                with p32.Watch(data=data, grid=grid, theta=th):
                    fired, e = ended(calls[name], sig, k, exc, tracer)
                reached(fired, e, exc, crash.label(sig, k))
                for b, m in zip(before, (m1, m2)):
                    compare(b, state(m), "model")
                ctx.state("utility", name, i)
                ctx.step()
