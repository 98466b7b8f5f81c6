"""P39: process-wide settings neither change an answer nor are changed by asking."""
import contextlib
import decimal
import gc
import itertools
import locale
import logging
import multiprocessing
import os
import random
import signal
import sys
import tempfile
import time
import types
import warnings
import numpy as np
import pandas as pd
import torch
from mc.core import require, raises
from mc import kinds as K, models as B
from mc.kinds import digest, same

META = dict(
    title="Process-wide settings neither change results nor are changed by any call",
    statement="Every query, fit, scale and utility gives the same result whatever the log level, number of threads, gradient mode, notebook or terminal, warning filter, working directory, display "
              "options and model training mode of the process, alone and combined. No call changes any of these settings or reseeds the random generators, whether it succeeds or is refused.",
    over=["configurations", "histories"],
    quant="every public call of the model, evaluator, plotter, fitting, scale and utility interface x every single setting and their combination (thorough: every pair)",
    why="Tests run in one process environment only; users work in notebooks, with gradients off, several threads and their own seeds and settings.",
    files=["irtorch/models/base_irt_model.py", "irtorch/evaluator.py", "irtorch/plotter.py", "irtorch/utils.py", "irtorch/_internal_utils.py", "irtorch/config.py"],
    mech=[("gradient mode", "latent_scores, probability_gradients, Scale.jacobian"), ("progress output", "dynamic_print, loggers"), ("random generators", "set_seed, QMC engines")],
    technique="exhaustive enumeration of calls x process settings on the real code; the call under plain settings is the oracle, and a complete snapshot of the process settings is compared around every call",
)
PARALLEL = True
BOUNDS = "7 model kinds x ~60 queries, 4 fitting algorithms x 3 families, 6 scales, 7 utilities; 11 settings alone, all together and with another random seed (thorough: all pairs)"
ASSUMPTIONS = ["fits run with gradients enabled", "the settings themselves are restored by the harness", "inference mode and double precision as the default type are not promised"]


@contextlib.contextmanager
def threads(n):
    was = torch.get_num_threads()
    torch.set_num_threads(n)
    try:
        yield
    finally:
        torch.set_num_threads(was)


@contextlib.contextmanager
def verbosity(level):
    log = logging.getLogger("irtorch")
    was, dis = log.level, logging.root.manager.disable
    logging.disable(logging.NOTSET)
    h = logging.StreamHandler(open(os.devnull, "w"))
    keep = logging.root.handlers[:]
    logging.root.handlers[:] = [h]
    from irtorch.config import set_verbosity
    set_verbosity(level)
    try:
        yield
    finally:
        log.setLevel(was)
        logging.root.handlers[:] = keep
        logging.disable(dis)
        h.stream.close()


@contextlib.contextmanager
def notebook():
    """IPython says that this is a notebook kernel."""
    keep = {k: sys.modules.get(k) for k in ("IPython",)}
    mod = types.ModuleType("IPython")
    shell = types.SimpleNamespace(config={"IPKernelApp": {}})
    mod.get_ipython = lambda: shell
    mod.version_info = (8, 0, 0)
    mod.__version__ = "8.0.0"
    sys.modules["IPython"] = mod
    try:
        yield
    finally:
        for k, v in keep.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


@contextlib.contextmanager
def folder():
    was = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            yield
        finally:
            os.chdir(was)


@contextlib.contextmanager
def filters():
    with warnings.catch_warnings():
        warnings.simplefilter("always")
        keep = warnings.showwarning
        warnings.showwarning = lambda *a, **k: None
        try:
            yield
        finally:
            warnings.showwarning = keep


@contextlib.contextmanager
def display():
    keep = torch._tensor_str.PRINT_OPTS
    vals = {k: getattr(keep, k) for k in ("precision", "threshold", "edgeitems", "linewidth", "sci_mode")}
    np_keep = np.get_printoptions()
    torch.set_printoptions(precision=1, threshold=2, edgeitems=1)
    np.set_printoptions(precision=1, threshold=2)
    with pd.option_context("display.max_rows", 1, "display.precision", 1, "mode.chained_assignment", "raise"):
        try:
            yield
        finally:
            torch.set_printoptions(**vals)
            np.set_printoptions(**np_keep)


@contextlib.contextmanager
def deterministic():
    was = torch.are_deterministic_algorithms_enabled()
    torch.use_deterministic_algorithms(True, warn_only=True)
    try:
        yield
    finally:
        torch.use_deterministic_algorithms(was)


@contextlib.contextmanager
def anomaly():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = torch.autograd.detect_anomaly()
    with a:
        yield


SETTINGS = {"gradients off": torch.no_grad, "two threads": lambda: threads(2), "three threads": lambda: threads(3), "critical messages": lambda: verbosity(1), "debug messages": lambda: verbosity(5),
            "notebook": notebook, "another folder": folder, "all warnings": filters, "display": display, "deterministic": deterministic, "anomaly detection": anomaly}
FIT = [k for k in SETTINGS if k != "gradients off"]


def shown():
    """What happens to a warning raised in the user's own code."""
    out = []
    for cat in (UserWarning, RuntimeWarning, DeprecationWarning, FutureWarning):
        with warnings.catch_warnings(record=True) as w:
            try:
                warnings.warn_explicit("a warning", cat, "user.py", 1, module="user_module", registry={})
                out.append(len(w))
            except cat:
                out.append("error")
    return out


PANDAS = ("display.max_rows", "display.max_columns", "display.precision", "display.width", "display.float_format", "mode.chained_assignment", "mode.copy_on_write", "plotting.backend", "display.max_colwidth")


def mask():
    m = os.umask(0)
    os.umask(m)
    return m


def process():
    import plotly.express as px
    import plotly.io as pio
    log = logging.getLogger("irtorch")
    p = torch._tensor_str.PRINT_OPTS
    return {"gradient mode": torch.is_grad_enabled(), "inference mode": torch.is_inference_mode_enabled(), "default type": str(torch.get_default_dtype()), "threads": torch.get_num_threads(),
            "log level": log.level, "root log level": logging.root.level, "log handlers": len(log.handlers), "root log handlers": len(logging.root.handlers), "logging disabled": logging.root.manager.disable,
            "warning filters": shown(), "working directory": os.getcwd(), "environment": dict(os.environ), "print options": str(vars(p) if hasattr(p, "__dict__") else p),
            "numpy errors": str(np.geterr()), "numpy printing": str(np.get_printoptions()), "pandas rows": pd.get_option("display.max_rows"), "pandas precision": pd.get_option("display.precision"),
            "plot template": str(pio.templates.default), "deterministic": torch.are_deterministic_algorithms_enabled(), "anomaly": torch.is_anomaly_enabled(), "stdout": id(sys.stdout),
            "recursion": sys.getrecursionlimit(), "module path": list(sys.path), "way of starting processes": multiprocessing.get_start_method(), "stderr": id(sys.stderr),
            "tensor sharing": torch.multiprocessing.get_sharing_strategy(), "cudnn": (torch.backends.cudnn.deterministic, torch.backends.cudnn.benchmark),
            "matrix product precision": torch.get_float32_matmul_precision(), "signal handlers": [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD)],
            "garbage collection": gc.isenabled(), "excepthook": id(sys.excepthook), "switch interval": sys.getswitchinterval(), "file mask": mask(),
            "plot defaults": {k: repr(getattr(px.defaults, k)) for k in ("template", "width", "height", "color_discrete_sequence", "color_continuous_scale", "symbol_sequence")},
            "plot renderer": str(pio.renderers.default), "pandas options": {k: repr(pd.get_option(k)) for k in PANDAS}, "decimal": repr(decimal.getcontext()),
            "locale": locale.setlocale(locale.LC_ALL), "time zone": time.tzname, "denormal numbers": float(torch.tensor(1e-40) / 2) > 0, "root log handlers are": [id(h) for h in logging.root.handlers],
            "log handlers are": [id(h) for h in log.handlers], "log propagation": log.propagate, "tensor threads": torch.get_num_interop_threads(),
            "device": str(torch.zeros(1).device), "debug checks": torch.is_warn_always_enabled(), "distribution checks": torch.distributions.Distribution._validate_args}


def generators():
    return [torch.get_rng_state().numpy().tobytes(), repr(np.random.get_state()), repr(random.getstate())]


def seed(s):
    torch.manual_seed(s)
    np.random.seed(s)
    random.seed(s)


def call(f, s=11, refused=False):
    """The result, after checking that the process is as before."""
    seed(s)
    before = process()
    if refused:
        raises(f, "refused call")
        out = "refused"
    else:
        out = digest(f())
    after = process()
    for k in before:
        require(before[k] == after[k], f"changed the {k} of the process from {str(before[k])[:80]} to {str(after[k])[:80]}")
    return out


def run(ctx):
    for name, kind, make, settings, how in ctx.each(sorted(jobs(), key=lambda j: j[0])):
        refused = how == "error"
        base, states = None, None
        with ctx.case("plain", call=name, kind=kind):
            base = call(make(), refused=refused)
            states = generators()
            ctx.state(name, kind)
            ctx.step()
        if base is None:
            continue
        with ctx.case("generators", call=name, kind=kind):
            call(make(), s=12, refused=refused)
            for a, b, g in zip(states, generators(), ("torch", "numpy", "python")):
                require(a != b, f"reseeds the {g} generator")
            ctx.step()
        sets = [(s,) for s in settings] + [tuple(s for s in settings if s not in ("three threads", "critical messages"))]
        if ctx.thorough:
            sets += list(itertools.combinations(settings, 2))
        for st in sets:
            with ctx.case("settings", call=name, kind=kind, settings=list(st)):
                f = make()
                with contextlib.ExitStack() as es:
                    for s in st:
                        es.enter_context(SETTINGS[s]())
                    got = call(f, refused=refused)
                same(got, base, f"{name} with {', '.join(st)}")
                ctx.state(name, kind, st)
                ctx.step()
        if how == "model":
            for mode in (True, False):
                with ctx.case("training mode", call=name, kind=kind, training=mode):
                    f = make(lambda m: m.train(mode))
                    same(call(f), base, f"{name} of a model in {'training' if mode else 'evaluation'} mode")
                    ctx.step()


def jobs():
    built = {}
    for kn in K.KINDS:
        if kn not in built:
            built[kn] = K.KINDS[kn]()
        m0 = built[kn]
        for qn, (_, how) in K.queries(m0).items():
            def make(prep=None, kn=kn, qn=qn):
                m = built[kn]
                was = m.training
                if prep:
                    prep(m)
                q = K.queries(m)[qn][0]
                t = K.thetas_for(m.latent_variables, k=0.4)
                d = K.data_for(m.item_categories, missing=qn not in ("NN",) or getattr(m.algorithm, "one_hot_encoded", False), k=1)
                def f():
                    try:
                        return q(t, d)
                    finally:
                        m.train(was)
                return f
            yield qn, kn, make, list(SETTINGS), how if how == "error" else "model"
    from irtorch.estimation_algorithms import JML, MML, AE, VAE
    opts = {"JML": dict(max_epochs=15), "MML": dict(max_epochs=8), "MML gauss": dict(max_epochs=4, integration_method="gauss_hermite", quadrature_points=5),
            "AE": dict(max_epochs=6, evaluation_interval_size=2, batch_size=7), "VAE": dict(max_epochs=6, evaluation_interval_size=2),
            # stopped before the last epoch, the best parameters restored
            "MML stopped": dict(max_epochs=20, learning_rate=1.0, learning_rate_update_patience=0, learning_rate_updates_before_stopping=1),
            "JML stopped": dict(max_epochs=40, learning_rate=2.0, learning_rate_update_patience=0, learning_rate_updates_before_stopping=2),
            "AE stopped": dict(max_epochs=20, learning_rate=1.0, evaluation_interval_size=1, learning_rate_updates_before_stopping=1)}
    for fam, lv, cats in (("GPC", 1, [3, 2, 3]), ("2PL", 2, [2, 2, 2]), ("NRM", 1, [3, 4, 2]), ("NN", 1, [3, 2])):
        for an, o in opts.items():
            if "stopped" in an and fam != "GPC":
                continue
            def make(prep=None, fam=fam, lv=lv, cats=cats, an=an, o=o):
                m = B.build(fam, lv, cats)
                a = {"JML": JML, "MML": MML, "AE": AE, "VAE": VAE}[an.split()[0]]()
                d = K.data_for(cats, missing=True)
                if prep:
                    prep(m)
                def f():
                    m.fit(d, algorithm=a, device="cpu", **o)
                    return [[v for _, v in sorted(m.state_dict().items())], [float(x) for x in a.training_history["train_loss"]],
                            a.training_theta_scores if isinstance(a.training_theta_scores, torch.Tensor) else 0]
                return f
            yield f"fit {an}", fam, make, FIT, "model"

    def bad(prep=None):
        m = B.build("GPC", 1, [3, 2])
        return lambda: m.fit(K.data_for([3, 2, 2]), algorithm=JML(), max_epochs=3, device="cpu")
    yield "fit refused", "GPC", bad, FIT, "error"
    from irtorch import rescale as R, utils as U
    th1, th2 = K.thetas_for(1, 30), K.thetas_for(2, 30)

    def scale(fn):
        return lambda prep=None: fn
    yield "Flow", "1", scale(lambda: _fit(R.Flow(1), th1).transform(th1[:5])), FIT, "call"
    yield "Flow", "2", scale(lambda: _fit(R.Flow(2), th2).transform(th2[:5])), FIT, "call"
    for meth in ("spline", "neuralnet"):
        yield "LinkCommonItems", meth, scale(lambda meth=meth: _fit(R.LinkCommonItems(B.build("2PL", 1, [2, 2]), B.build("2PL", 1, [2, 2], None, 1), [0], [1], method=meth), th1).transform(th1[:5])), FIT, "call"
    yield "RankCDF", "2", scale(lambda: R.RankCDF(th2).transform(th2[:5] + 0.01)), list(SETTINGS), "call"
    yield "Rotate", "2", scale(lambda: R.Rotate(B.build("2PL", 2, [2, 2, 2, 2]), theta=th2).transform(th2[:5])), list(SETTINGS), "call"

    def bit(fam, **o):
        m = B.build(fam, 1, [3, 4, 2], **({"mc_correct": [1, 0, 1]} if fam == "NRM" else {}))
        K.jml(m)
        return R.Bit(m, population_theta=th1, grid_points=60, **o).transform(th1[:4])
    yield "Bit", "GPC", scale(lambda: bit("GPC")), list(SETTINGS), "call"
    yield "Bit", "NRM", scale(lambda: bit("NRM", mc_start_theta_approx=True, guessing_iterations=20)), list(SETTINGS), "call"
    n = float("nan")
    tab = torch.tensor([[0., 1., n], [2., -1., 1.], [n, 0., 1.], [1., 1., 0.]])
    yield "split_data", "", scale(lambda: U.split_data(K.data_for([3, 2], 11))), list(SETTINGS), "call"
    for meth in ("zero", "mean", "random incorrect"):
        yield "impute_missing", meth, scale(lambda meth=meth: U.impute_missing(tab.clone(), method=meth, mc_correct=[1, 0, 1], item_categories=[3, 2, 2])), list(SETTINGS), "call"
    yield "impute_missing", "bad", scale(lambda: U.impute_missing(tab.clone(), method="nothing")), list(SETTINGS), "error"
    yield "gauss_hermite", "", scale(lambda: U.gauss_hermite(4, torch.zeros(2), torch.tensor([[1., 0.3], [0.3, 2.]]))), list(SETTINGS), "call"
    yield "imv", "", scale(lambda: U.imv(B.build("1PL", 1, [2, 2, 2]), B.build("2PL", 1, [2, 2, 2], None, 1), K.data_for([2, 2, 2], 10), th1[:10], th1[5:15])), list(SETTINGS), "call"

    def cv():
        return U.cross_validation(B.build("GPC", 1, [3, 2]), K.data_for([3, 2], 12), 2, {"learning_rate": [0.1]}, algorithm=JML(), max_epochs=3, device="cpu", multiprocessing=False)
    yield "cross_validation", "", scale(cv), FIT, "call"

    def cvp():
        return U.cross_validation(B.build("GPC", 1, [3, 2]), K.data_for([3, 2], 12), 2, {"learning_rate": [0.1, 0.2]}, algorithm=JML(), max_epochs=3, device="cpu", multiprocessing=True, cores_to_use=1)
    yield "cross_validation", "processes", scale(cvp), ["two threads"], "call"

    def several():
        ms = U.fit_multiple_models_cpu([B.build("GPC", 1, [3, 2]), B.build("2PL", 1, [2, 2])], K.data_for([2, 2], 12), cores_to_use=2, algorithm=JML(), max_epochs=3)
        return [list(m.state_dict().values()) for m in ms]
    yield "fit_multiple_models_cpu", "", scale(several), ["two threads"], "call"

    def load():
        with tempfile.TemporaryDirectory() as d:
            m = K.KINDS["GPC1-JML"]()
            m.scale.clear() if hasattr(m.scale, "clear") else None
            p = os.path.join(d, "m.pt")
            m.save_model(p)
            w = B.build("GPC", 1, [3, 2, 3], None, 1)
            w.load_model(p)
            return [w.item_probabilities(th1)]
    yield "save and load", "", scale(load), list(SETTINGS), "call"


def _fit(s, th):
    s.fit(th.clone(), max_epochs=25, device="cpu")
    return s
